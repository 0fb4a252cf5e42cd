// P20: with safety checks on, bad requests are reported by an exception and change nothing
#ifndef BPPTREE_SAFETY_CHECKS
#define BPPTREE_SAFETY_CHECKS
#endif
#ifdef SEQ
#include "cfg_seq.h"
#else
#include "cfg_ord.h"
#endif
using namespace api;
#ifndef NMAX
#define NMAX 10
#endif
#ifdef NLIST
static int pickN() { static const int ns[] = {NLIST}; return ns[choose((int)(sizeof ns / sizeof ns[0]))]; }
#else
static int pickN() { return choose(NMAX + 1); }
#endif
template <typename F> static void mustThrow(F&& f, const char* msg) { bool thrown = false; try { f(); } catch (...) { thrown = true; } vf_assert(thrown, msg); }
#ifndef SEQ
template <typename C, typename TT, typename KK> static void mapOnly(TT& t, L const& m, KK const& k, int o) {
    if constexpr (C::map && C::br) {
        if (o == 0) mustThrow([&] { (void)(t[k] += (typename C::W)1); }, "P20: compound assignment through a missing key reference throws");
        else if (o == 1) { if (!m.n) vf_kill(); int i = choose(m.n); auto e = C::mk(C::key(m.a[i]), (typename C::W)3); mustThrow([&] { t[k] = e; }, "P20: storing an element under a different key throws"); }
        else if (o == 2) { if (!m.n) vf_kill(); int i = choose(m.n); auto const e = C::mk(k, (typename C::W)3); auto kk = C::key(m.a[i]); mustThrow([&] { t[kk] = e; }, "P20: storing an element under a different key throws"); }
        else if (o == 3) { if (!m.n) vf_kill(); int i = choose(m.n); auto kk = C::key(m.a[i]); mustThrow([&] { t[kk] = C::mk(k, (typename C::W)3); }, "P20: storing an element under a different key throws"); }
        else if (o == 4) mustThrow([&] { (void)++t[k]; }, "P20: incrementing through a missing key reference throws");
        else mustThrow([&] { (void)(typename C::W)t[k]; }, "P20: reading through a missing key reference throws");
    } else vf_kill();
}
template <typename C, typename TT, typename KK> static void setOnly(TT& t, L const& m, KK const& k, int o) {
    if constexpr (!C::map) {
        if (!m.n) vf_kill(); int i = choose(m.n); auto e = C::key(m.a[i]);
        if (o == 0) mustThrow([&] { t.update_key(e, [&](auto const&) { return k; }); }, "P20: an update that changes the key throws");
        else if (o == 1) { auto kk = k; mustThrow([&] { t[e] = kk; }, "P20: storing an element under a different key throws"); }
        else if (o == 2) mustThrow([&] { t[e] = static_cast<typename C::K>(k + 0u); }, "P20: storing an element under a different key throws");
        else if (o == 3) mustThrow([&] { auto p = t.persistent(); (void)p.update_key(e, [&](auto const&) { return k; }); }, "P20: an update of an immutable tree that changes the key throws");
        else { auto kk = e; mustThrow([&] { t[k] = kk; }, "P20: storing an element under a different key throws"); }
    } else vf_kill();
}
VF_UNIT(ckey) {
    uint64_t live0 = vf_live();
    {
        int style = choose(4), n = pickN(), snap = choose(2), o = choose(19); vf_part();
        T t; L m; build(t, m, style, n); P p = snap ? t.persistent() : P(); P const pp = o >= 5 && o < 8 ? t.persistent() : P();
        K k = Cfg::symKey(); { int i = lb(m, k); vf_assume(!at(m, i, k)); }
        switch (o) {
        case 0: mustThrow([&] { (void)t.at_key(k); }, "P20: looking up a missing key throws"); break;
        case 1: { V v = Cfg::mk(k, conVal(5)); mustThrow([&] { t.assign_v(v); }, "P20: assigning a missing key throws"); break; }
        case 2: mustThrow([&] { t.erase_key(k); }, "P20: erasing a missing key throws"); break;
        case 3: { bool called = false; mustThrow([&] { t.update_key(k, [&](W const& x) { called = true; return x; }); }, "P20: updating a missing key throws"); vf_assert(!called, "P20: the updater of a missing key is not called"); break; }
        case 4: { T const& c = t; mustThrow([&] { (void)c.at_key(k); }, "P20: looking up a missing key throws"); break; }
        case 5: { V v = Cfg::mk(k, conVal(5)); mustThrow([&] { P q = pp.assign_v(v); }, "P20: assigning a missing key of an immutable tree throws"); break; }
        case 6: mustThrow([&] { P q = pp.erase_key(k); }, "P20: erasing a missing key of an immutable tree throws"); break;
        case 7: mustThrow([&] { P q = pp.update_key(k, [&](W const& x) { return x; }); }, "P20: updating a missing key of an immutable tree throws"); mustThrow([&] { (void)pp.at_key(k); }, "P20: looking up a missing key throws"); break;
        case 8: case 9: case 10: case 11: case 12: case 13: mapOnly<Cfg>(t, m, k, o - 8); break;
        default: setOnly<Cfg>(t, m, k, o - 14); break;
        }
        checkAll<Cfg>(t, m); searches(t, m, k);
        if (o >= 5 && o < 8) checkAll<Cfg>(pp, m);
        if (snap) checkBasic<Cfg>(p, m);
        V v = Cfg::mk(k, conVal(8)); t.insert_or_assign(v); L m0 = m; mInsert(m, v, true); checkAll<Cfg>(t, m); if (snap) checkBasic<Cfg>(p, m0);
    }
    vf_assert(vf_live() == live0, "P05,P20: a rejected request leaks nothing");
}
// good requests are not rejected
VF_UNIT(cgood) {
    int style = choose(4), n = pickN(); vf_part(); if (!n) vf_kill();
    T t; L m; build(t, m, style, n); int i = choose(n); K k = Cfg::key(m.a[i]);
    int o = choose(5); W w = upd(k, symVal());
    vf_assert(t.at_key(k) == Cfg::val(m.a[i]), "P20: a good lookup is answered");
    if (o == 0) { V v = Cfg::mk(k, w); t.assign_v(v); m.a[i] = v; } else if (o == 1) { t.erase_key(k); m.erase(i); }
    else if (o == 2) { t.update_key(k, [&](W const&) { return w; }); m.a[i] = Cfg::mk(k, w); } else if (o == 3) { setBracket<Cfg>(t, k, w); m.a[i] = Cfg::mk(k, w); }
    else { V v = Cfg::mk(k, w); t.insert_v(v); }
    checkAll<Cfg>(t, m); searches(t, m, k);
}
#else
template <typename T> static auto fpos(T& t, int p) { auto it = t.begin(); if (p < 0) { --it; return it; } for (int k = 0; k < p; ++k) ++it; return it; }
template <typename T> static auto rpos(T& t, int n, int p) { auto it = t.rbegin(); if (p == n) { --it; return it; } for (int k = n - 1; k > p; --k) ++it; return it; }
template <typename TT> static void mm(TT& t, L const& m) {
    int n = m.n;
    if constexpr (Cfg::mn && Cfg::mx) {
        if (n == 0) {
            mustThrow([&] { (void)t.min(); }, "P20: the minimum of an empty tree throws"); mustThrow([&] { (void)t.max(); }, "P20: the maximum of an empty tree throws");
            mustThrow([&] { (void)t.min_element(); }, "P20: the least element of an empty tree throws"); mustThrow([&] { (void)t.max_element(); }, "P20: the greatest element of an empty tree throws");
            mustThrow([&] { (void)t.min_element_const(); }, "P20: the least element of an empty tree throws"); mustThrow([&] { (void)t.max_element_const(); }, "P20: the greatest element of an empty tree throws");
        }
        if (choose(2)) {
            int i = choose(n + 1), j = choose(i + 1); auto b = fpos(t, i), e = fpos(t, j);
            mustThrow([&] { (void)t.min(b, e); }, "P20: the minimum of an empty range throws"); mustThrow([&] { (void)t.max(b, e); }, "P20: the maximum of an empty range throws");
            mustThrow([&] { (void)t.min_element(b, e); }, "P20: the least element of an empty range throws"); mustThrow([&] { (void)t.max_element(b, e); }, "P20: the greatest element of an empty range throws");
            auto cb = citAt(t, i), ce = citAt(t, j); mustThrow([&] { (void)t.min_element_const(cb, ce); }, "P20: the least element of an empty range throws"); mustThrow([&] { (void)t.max_element_const(cb, ce); }, "P20: the greatest element of an empty range throws");
        } else if (n) {
            int i = choose(n + 1) - 1, j = i + choose(n - i); auto b = rpos(t, n, i), e = rpos(t, n, j);
            mustThrow([&] { (void)t.min(b, e); }, "P20: the minimum of an empty reverse range throws"); mustThrow([&] { (void)t.max(b, e); }, "P20: the maximum of an empty reverse range throws");
            mustThrow([&] { (void)t.min_element(b, e); }, "P20: the least element of an empty reverse range throws"); mustThrow([&] { (void)t.max_element(b, e); }, "P20: the greatest element of an empty reverse range throws");
        }
    }
}
VF_UNIT(cminmax) {
    int style = choose(4), n = pickN(), kind = choose(3); vf_part();
    T t; L m; build(t, m, style, n);
    if (kind == 2) { while (m.n) { era(t, m.n - 1); m.erase(m.n - 1); } mm(t, m); checkAll<Cfg>(t, m); }
    else if (kind == 0) { mm(t, m); checkAll<Cfg>(t, m); V v = Cfg::sym(); t.push_back(v); m.insert(m.n, v); checkAll<Cfg>(t, m); } else { P const p = t.persistent(); mm(p, m); checkAll<Cfg>(p, m); }
}
template <typename A, typename B> static void mustDiffer(A const& a, B const& b) {
    mustThrow([&] { (void)(a < b); }, "P20: < on iterators of different trees throws"); mustThrow([&] { (void)(a > b); }, "P20: > on iterators of different trees throws");
    mustThrow([&] { (void)(a <= b); }, "P20: <= on iterators of different trees throws"); mustThrow([&] { (void)(a >= b); }, "P20: >= on iterators of different trees throws");
    vf_assert(!(a == b) && a != b, "P20,P15: iterators of different trees are never equal");
}
VF_UNIT(citer) {
    int style = choose(4), n = pickN(), how = choose(3); vf_part();
    T t; L m; build(t, m, style, n); L m0 = m; T u = how == 0 ? t : how == 1 ? t.persistent().transient() : T(); if (how == 2) m = L(); L& mu = m;
    int i = choose(n + 2) - 1, j = choose(mu.n + 2) - 1;
    { auto a = fpos(t, i); auto b = fpos(u, j); mustDiffer(a, b); auto ca = citAt(t, i < 0 ? 0 : i); auto cb = citAt(u, j < 0 ? 0 : j); mustDiffer(ca, cb); auto a2 = fpos(t, j > n ? n : j); vf_assert((a < a2) == (i < (j > n ? n : j)), "P20: comparing iterators of one tree works"); }
    if (n && mu.n) { auto a = rpos(t, n, i); auto b = rpos(u, mu.n, j); mustDiffer(a, b); }
    { P p = t.persistent(); P q = p; auto a = citAt(p, i < 0 ? 0 : i); auto b = citAt(q, j < 0 ? 0 : j); mustDiffer(a, b); }
    checkAll<Cfg>(t, m0); checkAll<Cfg>(u, mu);
}
#endif

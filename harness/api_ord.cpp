// keyed updates (P07), keyed searches (P08), extensions on ordered trees (P19), key aliasing (P22), key references (P18)
#include "cfg_ord.h"
using namespace api;
#ifndef NMAX
#define NMAX 12
#endif
static int pickN() {
#ifdef NLIST
    static const int ns[] = {NLIST}; return ns[choose((int)(sizeof ns / sizeof ns[0]))];
#else
    return choose(NMAX + 1);
#endif
}
// a key known to be present
static K present(L const& m, int& i) { i = choose(m.n); return equiv<Cfg>(m.a[i]); }
static void editT(T& t, L& m) {
    switch (choose(9)) {
    case 0: { V v = Cfg::mk(Cfg::symKey(), symVal()); t.insert_or_assign(v); mInsert(m, v, true); break; }
    case 1: { V v = Cfg::mk(Cfg::symKey(), symVal()); t.insert_v(v); mInsert(m, v, false); break; }
    case 2: { int i; K k = present(m, i); V v = Cfg::mk(k, symVal()); t.assign_v(v); m.a[i] = v; break; }
    case 3: { int i; K k = present(m, i); t.erase_key(k); m.erase(i); break; }
    case 4: { int i; K k = present(m, i); W w = upd(k, symVal()); W old = Cfg::val(m.a[i]); t.update_key(k, [&](W const& x) { vf_assert(x == old, "P07: the updater sees the current value"); return w; }); m.a[i] = Cfg::mk(k, w); break; }
    case 5: { K k = Cfg::symKey(); W w = symVal(); insKV<Cfg>(t, k, w); mInsert(m, Cfg::mk(k, w), true); break; }
    case 6: { K k = Cfg::symKey(); W w = upd(k, symVal()); setBracket<Cfg>(t, k, w); mInsert(m, Cfg::mk(k, w), true); break; }
    case 7: { if (!m.n) vf_kill(); if (choose(2)) { V v = t.pop_back(); vf_assert(Cfg::eq(v, m.a[m.n - 1]), "P07,P01: pop_back returns the last element"); m.erase(m.n - 1); } else { V v = t.pop_front(); vf_assert(Cfg::eq(v, m.a[0]), "P07,P01: pop_front returns the first element"); m.erase(0); } break; }
    default: { int i = choose(m.n); auto it = itAt(t, i); t.erase(it); m.erase(i); auto r = itAt(t, i); vf_assert(it == r, "P16: after erase the iterator is at the following element"); break; }
    }
}
static P editP(P const& p, L& m) {
    switch (choose(6)) {
    case 0: { V v = Cfg::mk(Cfg::symKey(), symVal()); mInsert(m, v, true); return p.insert_or_assign(v); }
    case 1: { V v = Cfg::mk(Cfg::symKey(), symVal()); mInsert(m, v, false); return p.insert_v(v); }
    case 2: { int i; K k = present(m, i); V v = Cfg::mk(k, symVal()); m.a[i] = v; return p.assign_v(v); }
    case 3: { int i; K k = present(m, i); m.erase(i); return p.erase_key(k); }
    case 4: { int i; K k = present(m, i); W w = upd(k, symVal()); m.a[i] = Cfg::mk(k, w); return p.update_key(k, [&](W const&) { return w; }); }
    default: { int i = choose(m.n); auto it = citAt(p, i); m.erase(i); return p.erase(it); }
    }
}
VF_UNIT(okey) {
    uint64_t live0 = vf_live();
    {
        int style = choose(4), n = pickN(); vf_part();
        T t; L m; build(t, m, style, n);
        editT(t, m);
        checkAll<Cfg>(t, m); keysIncrease(t);
    }
    vf_assert(vf_live() == live0, "P05: every node is freed when the last tree is gone");
}
VF_UNIT(oshare) {
    uint64_t live0 = vf_live();
    {
        int style = choose(4), n = pickN(), mode = choose(3); vf_part();
        T t; L m; build(t, m, style, n); L m0 = m; P p = t.persistent();
        if (mode == 0) { P q = editP(p, m); checkAll<Cfg>(q, m); checkAll<Cfg>(p, m0); checkBasic<Cfg>(t, m0); }
        else if (mode == 1) { editT(t, m); checkAll<Cfg>(t, m); checkAll<Cfg>(p, m0); }
        else { uint32_t s = 3; for (int k = 0; k < 3; ++k) { V v = Cfg::mk(Cfg::conKey((uint32_t)rnd(s, n + 4)), conVal(90u + (uint32_t)k)); t.insert_or_assign(v); mInsert(m, v, true); } editT(t, m); checkAll<Cfg>(t, m); checkBasic<Cfg>(p, m0); }
    }
    vf_assert(vf_live() == live0, "P05: every node is freed when the last tree is gone");
}
// searches for every key, in mutable and immutable trees
VF_UNIT(olook) {
    int kind = choose(2), style = choose(4), n = pickN(); vf_part();
    T t; L m; build(t, m, style, n); K k = Cfg::symKey();
    if (kind == 0) searches(t, m, k); else { P p = t.persistent(); searches(p, m, k); }
}
// an edit with a symbolic key, then searches for a symbolic key
VF_UNIT(oedlook) {
    int style = choose(4), n = pickN(), o = choose(3); vf_part();
    T t; L m; build(t, m, style, n); K k = Cfg::symKey();
    if (o == 0) { V v = Cfg::mk(k, conVal(99)); t.insert_or_assign(v); mInsert(m, v, true); searches(t, m, k); searches(t, m, Cfg::conKey(3)); }
    else if (o == 1) { V v = Cfg::mk(k, conVal(99)); t.insert_v(v); mInsert(m, v, false); P const p = t.persistent(); searches(p, m, k); }
    else { int i; K x = present(m, i); t.erase_key(x); m.erase(i); searches(t, m, k); searches(t, m, x); }
}
// long concrete histories; the last key is symbolic
VF_UNIT(ohist) {
    uint64_t live0 = vf_live();
    {
        int seed = choose(12), style = choose(4); static const int ns[] = {10, 22, 34}; int n = ns[choose(3)]; vf_part();
        T t; L m; build(t, m, style, n); uint32_t s = (uint32_t)seed * 331u + 9u; P p = t.persistent(); L mp = m; int bias = seed % 3;
        for (int k = 0; k < 30; ++k) {
            K x = Cfg::conKey((uint32_t)rnd(s, 40)); V v = Cfg::mk(x, conVal((uint32_t)k)); int r = rnd(s, 10); int i = lb(m, x); bool here = at(m, i, x);
            bool er = bias == 0 ? r < 5 : bias == 1 ? r < 8 : r < 3;
            if (r == 9) { p = t.persistent(); mp = m; } else if (er && m.n) { int j = rnd(s, m.n); K y = Cfg::key(m.a[j]); t.erase_key(y); m.erase(j); }
            else if (here && (r & 1)) { t.update_key(x, [&](W const& o) { return upd(x, (W)(o + 1)); }); m.a[i] = Cfg::mk(x, (W)(Cfg::val(m.a[i]) + 1)); } else { t.insert_or_assign(v); mInsert(m, v, true); }
            if (k % 5 == 4) { checkBasic<Cfg>(t, m); searches(t, m, x); }
        }
        V v = Cfg::mk(Cfg::symKey(), symVal()); t.insert_or_assign(v); mInsert(m, v, true);
        checkAll<Cfg>(t, m); keysIncrease(t); checkAll<Cfg>(p, mp);
    }
    vf_assert(vf_live() == live0, "P05: every node is freed when the last tree is gone");
}
// P22: keys and values that refer to elements of the same tree
VF_UNIT(oalias) {
    uint64_t live0 = vf_live();
    {
        int style = choose(4), n = pickN(), o = choose(9); bool snap = choose(2); vf_part(); if (!n) vf_kill();
        T t; L m; build(t, m, style, n); L m0 = m; P p = snap ? t.persistent() : P();
        int j = choose(n); auto src = citAt(t, j); V const& r = *src; V c = m.a[j];
        K const& kr = keyRef<Cfg>(r); W const& wr = valRef<Cfg>(r); K kc = Cfg::key(c); W wc = Cfg::val(c);
        switch (o) {
        case 0: t.erase_key(kr); m.erase(j); break;
        case 1: t.insert_or_assign(r); break;
        case 2: t.insert_v(r); break;
        case 3: t.assign_v(r); break;
        case 4: t.update_key(kr, [&](W const& x) { return upd(kc, (W)(x + 1)); }); m.a[j] = Cfg::mk(kc, upd(kc, (W)(wc + 1))); break;
        case 5: t.update_key(kr, [&](W const&) -> W const& { return wr; }); break;
        case 6: { if (!Cfg::map) vf_kill(); K k = Cfg::symKey(); insKV<Cfg>(t, k, wr); mInsert(m, Cfg::mk(k, wc), true); break; }
        case 7: { if (!Cfg::map) vf_kill(); int i = choose(n); K k = Cfg::key(m.a[i]); t.update_key(k, [&](W const&) -> W const& { return wr; }); m.a[i] = Cfg::mk(k, wc); break; }
        default: { if (!Cfg::map) vf_kill(); K k = Cfg::symKey(); setBracket<Cfg>(t, k, wr); mInsert(m, Cfg::mk(k, wc), true); break; }
        }
        checkAll<Cfg>(t, m); keysIncrease(t); if (snap) checkBasic<Cfg>(p, m0);
    }
    vf_assert(vf_live() == live0, "P05: every node is freed when the last tree is gone");
}
// P18: key references
template <typename Cfg, typename T> static void keyProxy(int style, int n, int o) {
        T t; L m; build(t, m, style, n); int i = choose(n); K k = Cfg::key(m.a[i]); W w = (W)vf_sym32(), x = Cfg::val(m.a[i]); K k2 = Cfg::symKey();
        switch (o) {
        case 0: t[k] += w; x = (W)(x + w); break;
        case 1: t[k] -= w; x = (W)(x - w); break;
        case 2: { auto r = (W)(++t[k]).get(); x = (W)(x + 1); vf_assert(r == x, "P18: pre-increment of a key reference yields the new value"); break; }
        case 3: { auto r = (W)(--t[k]).get(); x = (W)(x - 1); vf_assert(r == x, "P18: pre-decrement of a key reference yields the new value"); break; }
        case 4: { W r = t[k]++; vf_assert(r == x, "P18: post-increment of a key reference yields the old value"); x = (W)(x + 1); break; }
        case 5: { W r = t[k]--; vf_assert(r == x, "P18: post-decrement of a key reference yields the old value"); x = (W)(x - 1); break; }
        case 6: t[k] = w; x = w; break;
        case 7: { K const kk = k2; t[kk] = w; mInsert(m, Cfg::mk(k2, w), true); i = lb(m, k2); x = w; break; }
        case 8: { W r = t[k]; vf_assert(r == x, "P18: reading through a key reference"); vf_assert(t[k].get() == x, "P18: get() of a key reference"); break; }
        case 9: vf_assert((t[k] == w) == (x == w), "P18: == on a key reference"); vf_assert((t[k] < w) == (x < w), "P18: < on a key reference"); vf_assert((W)(t[k] + w) == (W)(x + w), "P18: + on a key reference"); break;
        case 10: { int j = choose(n); K kj = Cfg::key(m.a[j]); t[k] = t[kj].get(); x = Cfg::val(m.a[j]); break; }
        case 11: { V e = Cfg::mk(k, w); t[k] = e; x = w; break; }
        case 12: { V const e = Cfg::mk(k, w); t[k] = e; x = w; break; }
        case 13: { W y = w | 1; t[k] *= y; x = (W)(x * y); break; }
        case 14: { W y = (W)(w % 7 + 1); t[k] /= y; x = (W)(x / y); break; }
        case 15: { W y = (W)(w % 7 + 1); t[k] %= y; x = (W)(x % y); break; }
        case 16: t[k] ^= w; x = (W)(x ^ w); break;
        case 17: t[k] &= w; x = (W)(x & w); break;
        case 18: t[k] |= w; x = (W)(x | w); break;
        case 19: t[k] <<= 3; x = (W)(x << 3); break;
        default: t[k] >>= 2; x = (W)(x >> 2); break;
        }
        m.a[i] = Cfg::mk(Cfg::key(m.a[i]), x);
        checkAll<Cfg>(t, m); keysIncrease(t);
}
template <typename C> static void oproxyBody(int style, int n, int o) { if constexpr (C::map && C::br) keyProxy<C, T>(style, n, o); else vf_kill(); }
VF_UNIT(oproxy) {
    int style = choose(4), n = pickN(), o = choose(21); vf_part(); if (!n) vf_kill();
    oproxyBody<Cfg>(style, n, o);
}

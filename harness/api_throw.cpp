// P21: an exception from a user's updater leaves the tree as it was
#ifdef ORD
#include "cfg_ord.h"
#else
#include "cfg_seq.h"
#endif
using namespace api;
#ifndef NMAX
#define NMAX 10
#endif
#ifdef NLIST
static int pickN() { static const int ns[] = {NLIST}; return ns[choose((int)(sizeof ns / sizeof ns[0]))]; }
#else
static int pickN() { return choose(NMAX + 1); }
#endif
struct Oops { int x; }; struct Boom {};
static int seen_;
#define BOOM(op) template <typename X> X operator op(X const&, Boom const&) { ++seen_; throw Oops{7}; }
BOOM(+) BOOM(-) BOOM(*) BOOM(/) BOOM(%) BOOM(^) BOOM(&) BOOM(|) BOOM(<<) BOOM(>>)
template <typename F> static void throws(F&& f) { int got = 0; seen_ = 0; try { f(); } catch (Oops const& o) { got = o.x; } catch (...) { got = -1; } vf_assert(got == 7, "P21: the updater's exception reaches the caller"); vf_assert(seen_ == 1, "P21: the updater is called once"); }
template <typename R> static void compound(R&& mk, int o) {
    switch (o) { case 0: throws([&] { mk() += Boom{}; }); break; case 1: throws([&] { mk() -= Boom{}; }); break; case 2: throws([&] { mk() *= Boom{}; }); break; case 3: throws([&] { mk() /= Boom{}; }); break; case 4: throws([&] { mk() %= Boom{}; }); break;
    case 5: throws([&] { mk() ^= Boom{}; }); break; case 6: throws([&] { mk() &= Boom{}; }); break; case 7: throws([&] { mk() |= Boom{}; }); break; case 8: throws([&] { mk() <<= Boom{}; }); break; default: throws([&] { mk() >>= Boom{}; }); }
}
template <typename TT> static auto fpos(TT& t, int p) { auto it = t.begin(); for (int k = 0; k < p; ++k) ++it; return it; }
template <typename TT, typename I> static void noCompound(TT& t, I ix, int o) {
#ifndef ORD
    compound([&] { return t[ix]; }, o % 10);
#else
    (void)t; (void)ix; (void)o; vf_kill();
#endif
}
template <typename C, typename TT> static void byIndex(TT& t, int i, int o) {
    if constexpr (C::idx) { typename C::Ix ix = (typename C::Ix)i; if (o == 0) throws([&] { t.update_index(ix, [&](V const&) -> V { ++seen_; throw Oops{7}; }); }); else noCompound(t, ix, o); } else vf_kill();
}
#ifdef ORD
template <typename C, typename TT, typename KK> static void keyCompound(TT& t, KK const& k, int o) { if constexpr (C::br && C::map) compound([&] { return t[k]; }, o); else vf_kill(); }
#endif
VF_UNIT(throwing) {
    uint64_t live0 = vf_live();
    {
        int style = choose(4), n = pickN(), snap = choose(3), o = choose(6); vf_part(); if (!n) vf_kill();
        T t; L m; build(t, m, style, n); P p = snap ? t.persistent() : P(); L mp = m;
        if (snap == 2) { int i = n / 2; auto it = fpos(t, i); t.assign(it, m.a[i]); }
        int i = choose(n); int j = choose(n + 1); auto out = fpos(t, j); auto rout = t.rbegin(); for (int k = 0; k < n - 1 - i; ++k) ++rout; // outstanding iterators
        P const pp = t.persistent(); T& w = t; uint64_t l1 = vf_live();
        switch (o) {
        case 0: { auto it = fpos(w, i); throws([&] { w.update(it, [&](V const&) -> V { ++seen_; throw Oops{7}; }); }); break; }
        case 1: byIndex<Cfg>(w, i, choose(3)); break;
        case 2: { auto it = citAt(pp, i); throws([&] { P q = pp.update(it, [&](V const&) -> V { ++seen_; throw Oops{7}; }); }); break; }
#ifdef ORD
        case 3: { K k = Cfg::key(m.a[i]); throws([&] { w.update_key(k, [&](W const&) -> W { ++seen_; throw Oops{7}; }); }); break; }
        case 4: { K k = Cfg::key(m.a[i]); throws([&] { P q = pp.update_key(k, [&](W const&) -> W { ++seen_; throw Oops{7}; }); }); break; }
        default: { K k = Cfg::key(m.a[i]); keyCompound<Cfg>(w, k, choose(10)); break; }
#else
        case 3: { auto it = fpos(w, i); compound([&] { return *it; }, choose(10)); break; }
        case 4: { auto it = w.rbegin(); for (int k = 0; k < n - 1 - i; ++k) ++it; compound([&] { return *it; }, choose(2)); break; }
        default: { auto it = w.rbegin(); for (int k = 0; k < n - 1 - i; ++k) ++it; throws([&] { w.update(it, [&](V const&) -> V { ++seen_; throw Oops{7}; }); }); break; }
#endif
        }
        vf_assert(vf_live() == l1, "P21: a throwing update leaks nothing");
        if (j < n) vf_assert(Cfg::eq(out.get(), m.a[j]), "P21: outstanding iterators still refer to their elements");
        vf_assert(Cfg::eq(rout.get(), m.a[i]), "P21: outstanding iterators still refer to their elements");
        { auto z = fpos(t, j); vf_assert(z == out, "P21: outstanding iterators keep their position"); if (j < n) { ++out; ++z; vf_assert(out == z && (j + 1 == n || Cfg::eq(out.get(), m.a[j + 1])), "P21: outstanding iterators still step"); } }
        checkAll<Cfg>(t, m); checkAll<Cfg>(pp, m); if (snap) checkBasic<Cfg>(p, mp);
        { auto it = fpos(t, i); V keep = m.a[i]; t.update(it, [&](V const& x) { vf_assert(Cfg::eq(x, keep), "P21: the next updater sees the unchanged element"); return keep; }); } checkAll<Cfg>(t, m);
    }
    vf_assert(vf_live() == live0, "P21,P05: a throwing update leaks nothing");
}
// an unshared mutable tree
VF_UNIT(throwown) {
    uint64_t live0 = vf_live();
    {
        int style = choose(4), n = pickN(), o = choose(4); vf_part(); if (!n) vf_kill();
        T t; L m; build(t, m, style, n); int i = choose(n), j = choose(n); auto out = fpos(t, j); uint64_t l1 = vf_live();
        if (o == 0) { auto it = fpos(t, i); throws([&] { t.update(it, [&](V const&) -> V { ++seen_; throw Oops{7}; }); }); } else if (o == 1) byIndex<Cfg>(t, i, choose(2));
#ifdef ORD
        else if (o == 2) { K k = Cfg::key(m.a[i]); throws([&] { t.update_key(k, [&](W const&) -> W { ++seen_; throw Oops{7}; }); }); } else { K k = Cfg::key(m.a[i]); keyCompound<Cfg>(t, k, choose(10)); }
#else
        else { auto it = fpos(t, i); compound([&] { return *it; }, choose(10)); }
#endif
        vf_assert(vf_live() == l1, "P21: a throwing update leaks nothing"); vf_assert(Cfg::eq(out.get(), m.a[j]), "P21: outstanding iterators still refer to their elements");
        checkAll<Cfg>(t, m); t.erase(out); m.erase(j); checkAll<Cfg>(t, m);
    }
    vf_assert(vf_live() == live0, "P21,P05: a throwing update leaks nothing");
}

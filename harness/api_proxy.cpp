// P18: references returned by dereferencing an iterator or indexing behave like real references
#include "cfg_seq.h"
using namespace api;
#ifndef NMAX
#define NMAX 8
#endif
#ifdef NLIST
static int pickN() { static const int ns[] = {NLIST}; return ns[choose((int)(sizeof ns / sizeof ns[0]))]; }
#else
static int pickN() { return choose(NMAX + 1); }
#endif
template <typename TT> static auto fpos(TT& t, int p) { auto it = t.begin(); for (int k = 0; k < p; ++k) ++it; return it; }
template <typename TT> static auto rpos(TT& t, int n, int p) { auto it = t.rbegin(); for (int k = n - 1; k > p; --k) ++it; return it; }
// one operation on the reference made by mk() whose element is x; updates x
template <typename R> static void op(R&& mk, V& x, V w, int o) {
    V d = (V)3; unsigned sh = 2; // concrete: multipliers and divisors make poor solver goals
    switch (o) {
    case 0: { auto&& r = mk(); auto&& q = (r += w); x = (V)(x + w); vf_assert((V)q == x, "P18: += yields the updated reference"); break; }
    case 1: mk() -= w; x = (V)(x - w); break;
    case 2: mk() *= w; x = (V)(x * w); break;
    case 3: mk() /= d; x = (V)(x / d); break;
    case 4: mk() %= d; x = (V)(x % d); break;
    case 5: mk() ^= w; x = (V)(x ^ w); break;
    case 6: mk() &= w; x = (V)(x & w); break;
    case 7: mk() |= w; x = (V)(x | w); break;
    case 8: mk() <<= sh; x = (V)(x << sh); break;
    case 9: mk() >>= sh; x = (V)(x >> sh); break;
    case 10: { auto&& r = mk(); auto&& q = ++r; x = (V)(x + 1); vf_assert((V)q == x, "P18: pre-increment yields the updated reference"); break; }
    case 11: { auto&& r = mk(); auto&& q = --r; x = (V)(x - 1); vf_assert((V)q == x, "P18: pre-decrement yields the updated reference"); break; }
    case 12: { V q = mk()++; vf_assert(q == x, "P18: post-increment yields the old value"); x = (V)(x + 1); break; }
    case 13: { V q = mk()--; vf_assert(q == x, "P18: post-decrement yields the old value"); x = (V)(x - 1); break; }
    case 14: { mk() = w; x = w; break; }
    case 15: { V q = mk(); vf_assert(q == x, "P18: reading through the reference"); vf_assert(mk().get() == x, "P18: get() yields the element"); break; }
    case 16: vf_assert((mk() == w) == (x == w), "P18: =="); vf_assert((w == mk()) == (w == x), "P18: == from the left"); vf_assert((mk() < w) == (x < w), "P18: <"); vf_assert((w < mk()) == (w < x), "P18: < from the left"); break;
    case 17: vf_assert((mk() > w) == (x > w), "P18: >"); vf_assert((w > mk()) == (w > x), "P18: > from the left"); vf_assert((mk() <= w) == (x <= w), "P18: <="); vf_assert((w <= mk()) == (w <= x), "P18: <= from the left"); vf_assert((mk() >= w) == (x >= w), "P18: >="); vf_assert((w >= mk()) == (w >= x), "P18: >= from the left"); break;
    case 18: vf_assert((V)(mk() + w) == (V)(x + w) && (V)(w + mk()) == (V)(w + x), "P18: +"); vf_assert((V)(mk() - w) == (V)(x - w) && (V)(w - mk()) == (V)(w - x), "P18: -"); vf_assert((V)(mk() * d) == (V)(x * d) && (V)(d * mk()) == (V)(d * x), "P18: *"); break;
    case 19: vf_assert((V)(mk() / d) == (V)(x / d), "P18: /"); vf_assert((V)(mk() % d) == (V)(x % d), "P18: %"); vf_assert((V)(mk() ^ w) == (V)(x ^ w) && (V)(w ^ mk()) == (V)(w ^ x), "P18: ^"); break;
    case 20: vf_assert((V)(mk() & w) == (V)(x & w) && (V)(w & mk()) == (V)(w & x), "P18: &"); vf_assert((V)(mk() | w) == (V)(x | w) && (V)(w | mk()) == (V)(w | x), "P18: |"); vf_assert((V)(mk() << sh) == (V)(x << sh), "P18: <<"); vf_assert((V)(mk() >> sh) == (V)(x >> sh), "P18: >>"); break;
    default: vf_assert(mk() == mk() && !(mk() < mk()) && (V)(mk() + mk()) == (V)(x + x) && (V)(mk() ^ mk()) == (V)0, "P18: two references combine like their elements"); break;
    }
}
template <typename C, typename TT> static void idxOp(TT& t, V& x, V w, int i, int o) { if constexpr (C::idx) { typename C::Ix const ix = (typename C::Ix)i; op([&] { return t[ix]; }, x, w, o); } else vf_kill(); }
template <typename C, typename TT> static void idxTwo(TT& t, L& m, int i, int j, int o) {
    if constexpr (C::idx) { typename C::Ix const ix = (typename C::Ix)i, jx = (typename C::Ix)j; V a = m.a[i], b = m.a[j];
        if (o == 0) { t[ix] = (V)t[jx]; m.a[i] = b; } else if (o == 1) { t[ix] += t[jx].get(); m.a[i] = (V)(a + b); } else if (o == 2) { V x = t[ix]; t[ix] = t[jx].get(); t[jx] = x; m.a[i] = b; m.a[j] = a; } else { vf_assert((t[ix] < t[jx]) == (a < b) && (t[ix] == t[jx]) == (a == b), "P18: comparing two references"); } } else vf_kill();
}
VF_UNIT(proxy) {
    uint64_t live0 = vf_live();
    {
        int style = choose(2) * 3, n = pickN(), how = choose(3), o = choose(22), snap = choose(2); vf_part(); if (!n) vf_kill();
        T t; L m; build(t, m, style, n); P p = snap ? t.persistent() : P(); L m0 = m; int i = choose(n); V w = Cfg::sym();
        if (how == 0) { auto it = fpos(t, i); op([&] { return *it; }, m.a[i], w, o); vf_assert(Cfg::eq(it.get(), m.a[i]), "P17,P18: the iterator reads the new value"); }
        else if (how == 1) { auto it = rpos(t, n, i); op([&] { return *it; }, m.a[i], w, o); }
        else idxOp<Cfg>(t, m.a[i], w, i, o);
        checkAll<Cfg>(t, m); if (snap) checkBasic<Cfg>(p, m0);
    }
    vf_assert(vf_live() == live0, "P05: every node is freed when the last tree is gone");
}
VF_UNIT(proxy2) {
    uint64_t live0 = vf_live();
    {
        int style = choose(4), n = pickN(), o = choose(11), snap = choose(2); vf_part(); if (!n) vf_kill();
        T t; L m; build(t, m, style, n); P p = snap ? t.persistent() : P(); L m0 = m; int i = choose(n), j = choose(n); V a = m.a[i], b = m.a[j];
        auto x = fpos(t, i), y = fpos(t, j);
        switch (o) {
        case 0: swap(*x, *y); m.a[i] = b; m.a[j] = a; break;
        case 1: { auto rx = rpos(t, n, i), ry = rpos(t, n, j); swap(*rx, *ry); m.a[i] = b; m.a[j] = a; break; }
        case 2: *x = *y; m.a[i] = b; break;
        case 3: *x += (V)*y; m.a[i] = (V)(a + b); break;
        case 4: vf_assert((*x == *y) == (a == b) && (*x < *y) == (a < b) && (*x > *y) == (a > b) && (*x <= *y) == (a <= b) && (*x >= *y) == (a >= b), "P18: comparing two references"); break;
        case 5: { auto ry = rpos(t, n, j); *x = (*ry).get(); m.a[i] = b; break; }
        case 6: { V s = *x; *x = *y; *y = s; m.a[i] = b; m.a[j] = a; break; }
        case 7: case 8: case 9: case 10: idxTwo<Cfg>(t, m, i, j, o - 7); break;
        }
        vf_assert(Cfg::eq(x.get(), m.a[i]) && Cfg::eq(y.get(), m.a[j]), "P17,P18: iterators read the new values");
        checkAll<Cfg>(t, m); if (snap) checkBasic<Cfg>(p, m0);
    }
    vf_assert(vf_live() == live0, "P05: every node is freed when the last tree is gone");
}
// swapping elements of two trees
VF_UNIT(proxyx) {
    int n = 1 + choose(NMAX), k = 1 + choose(5), snap = choose(2); vf_part();
    T t; L m; build(t, m, 0, n); T u; L mu; build(u, mu, 1, k); P p = snap ? t.persistent() : P();
    int i = choose(n), j = choose(k); auto x = fpos(t, i); auto y = fpos(u, j); V w = Cfg::sym(); *y = w; mu.a[j] = w; V a = m.a[i];
    swap(*x, *y); m.a[i] = w; mu.a[j] = a; checkAll<Cfg>(t, m); checkAll<Cfg>(u, mu);
    *x = *y; m.a[i] = a; checkAll<Cfg>(t, m); checkAll<Cfg>(u, mu);
}

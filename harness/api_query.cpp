// P13 range minimum/maximum, P11 search by prefix sum
#include "cfg_seq.h"
using namespace api;
#ifndef NMAX
#define NMAX 12
#endif
static int pickN() {
#ifdef NLIST
    static const int ns[] = {NLIST}; return ns[choose((int)(sizeof ns / sizeof ns[0]))];
#else
    return choose(NMAX + 1);
#endif
}
template <typename T> static auto fpos(T& t, int p) { auto it = t.begin(); for (int k = 0; k < p; ++k) ++it; return it; }
template <typename T> static auto rpos(T& t, int n, int p) { auto it = t.rbegin(); for (int k = n - 1; k > p; --k) ++it; return it; }
// position of an iterator by stepping
template <typename T, typename I> static int posOf(T& t, I const& x, int n) { auto it = t.begin(); for (int k = 0; k <= n; ++k) { if (it == x) return k; ++it; } return -1; }

template <typename T> static void ranges(T& t, L const& m) {
    if constexpr (Cfg::mn && Cfg::mx) {
        using C = Check<Cfg, T>; int n = m.n; bool rev = choose(2); int i = choose(n);
        auto ml = [](auto a, auto b) { return Cfg::minLess(a, b); }; auto xl = [](auto a, auto b) { return Cfg::maxLess(a, b); };
        auto mk = [](V const& v) { return Cfg::minKey(v); }; auto xk = [](V const& v) { return Cfg::maxKey(v); };
        for (int j = i + 1; j <= n; ++j) {
            auto r = C::best(m, i, j, ml, mk); auto x = C::best(m, i, j, xl, xk);
            if (!rev) {
                auto b = fpos(t, i), e = fpos(t, j);
                vf_assert(C::same(ml, t.min(b, e), r), "P13: range minimum is the least key of the range"); vf_assert(C::same(xl, t.max(b, e), x), "P13: range maximum is the greatest key of the range");
                auto me = t.min_element(b, e); auto xe = t.max_element(b, e);
                vf_assert(C::same(ml, mk(me.get()), r), "P13: range min_element has the least key"); vf_assert(C::same(xl, xk(xe.get()), x), "P13: range max_element has the greatest key");
                vf_assert(me >= b && me < e, "P13: range min_element lies inside the range"); vf_assert(xe >= b && xe < e, "P13: range max_element lies inside the range");
                int p = posOf(t, me, n); vf_assert(p >= i && p < j, "P13: range min_element is an iterator into the range"); p = posOf(t, xe, n); vf_assert(p >= i && p < j, "P13: range max_element is an iterator into the range");
                auto cb = citAt(t, i), ce = citAt(t, j); auto cm = t.min_element_const(cb, ce); vf_assert(C::same(ml, mk(*cm), r), "P13: range min_element with const iterators has the least key"); auto cx = t.max_element_const(cb, ce); vf_assert(C::same(xl, xk(*cx), x), "P13: range max_element with const iterators has the greatest key");
            } else {
                auto b = rpos(t, n, j - 1), e = rpos(t, n, i - 1);
                vf_assert(C::same(ml, t.min(b, e), r), "P13: reverse range minimum is the least key of the range"); vf_assert(C::same(xl, t.max(b, e), x), "P13: reverse range maximum is the greatest key of the range");
                auto me = t.min_element(b, e); auto xe = t.max_element(b, e);
                vf_assert(C::same(ml, mk(me.get()), r), "P13: reverse range min_element has the least key"); vf_assert(C::same(xl, xk(xe.get()), x), "P13: reverse range max_element has the greatest key");
                int p = posOf(t, me, n); vf_assert(p >= i && p < j, "P13: reverse range min_element is an iterator into the range"); p = posOf(t, xe, n); vf_assert(p >= i && p < j, "P13: reverse range max_element is an iterator into the range");
            }
        }
    }
}
// concrete values in several patterns; every range
VF_UNIT(range) { int kind = choose(2), style = choose(4), n = pickN(), pat = choose(4); vf_part(); if (!n) vf_kill();
    T t; L m; build(t, m, style, n);
    for (int i = 0; i < n; ++i) { V v = pat == 0 ? m.a[i] : pat == 1 ? (V)(i + 1) : pat == 2 ? (V)(n - i) : (V)(7 + i % 3); asg(t, i, v); m.a[i] = v; }
    if (kind == 0) ranges(t, m); else { P const p = t.persistent(); ranges(p, m); } }
// one symbolic element
VF_UNIT(rangesym) { int style = choose(4), n = pickN(); vf_part(); if (!n) vf_kill();
    T t; L m; build(t, m, style, n); int i = choose(n); V v = Cfg::sym(); asg(t, i, v); m.a[i] = v; ranges(t, m); }

template <typename T> static void sumlb(T& t, L const& m, typename Cfg::ST target, bool big) {
    if constexpr (Cfg::sum) {
        using ST = typename Cfg::ST; ST s = 0; int q = m.n; (void)big;
        for (int i = 0; i < m.n; ++i) { s = (ST)(s + Cfg::sv(m.a[i])); if (q == m.n && s >= target) { q = i; break; } }
        auto it = t.sum_lower_bound(target);
        auto r = fpos(t, q); vf_assert(it == r, "P11: search by prefix sum finds the first element whose inclusive sum reaches the target, or the end");
        if (q < m.n) vf_assert(Cfg::eq(it.get(), m.a[q]), "P11: the element found is the right one");
        auto ci = t.sum_lower_bound_const(target); auto cr = citAt(t, q); vf_assert(ci == cr, "P11: the const search agrees");
        if (q < m.n) { ++it; auto g = fpos(t, q + 1); vf_assert(it == g, "P14: stepping an iterator from sum_lower_bound"); }
    }
}
VF_UNIT(sumlb) { int kind = choose(2), style = choose(4), n = pickN(), pat = choose(4); vf_part();
    T t; L m; build(t, m, style, n);
    for (int i = 0; i < n; ++i) { V v = pat == 0 ? (V)(i % 3) : pat == 1 ? (V)0 : pat == 2 ? (V)((i * 5) % 7 ? 0 : 4) : (V)(scramble((uint32_t)i) % 4); asg(t, i, v); m.a[i] = v; }
    typename Cfg::ST target = (typename Cfg::ST)vf_sym32(); if (target < 0) vf_kill();
    if (kind == 0) sumlb(t, m, target, false); else { P const p = t.persistent(); sumlb(p, m, target, false); } }
VF_UNIT(sumlbsym) { int style = choose(4), n = pickN(); vf_part(); if (!n) vf_kill();
    T t; L m; build(t, m, style, n); for (int i = 0; i < n; ++i) { V v = (V)(scramble((uint32_t)i) % 4); asg(t, i, v); m.a[i] = v; }
    int i = choose(n); V v = (V)vf_sym32(); vf_assume(v >= 0 && v <= 1000); asg(t, i, v); m.a[i] = v;
    int tg = choose(4); typename Cfg::ST s = 0; for (int k = 0; k < n; ++k) { if (tg == 3 && k == i + 1) break; if (tg == 2 && k == i) break; s = (typename Cfg::ST)(s + Cfg::sv(m.a[k])); if (tg == 0 && k >= n / 2) break; }
    sumlb(t, m, s, false); sumlb(t, m, (typename Cfg::ST)(s + 1), false); }

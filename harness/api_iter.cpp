#include "cfg_seq.h"
using namespace api;
#ifndef NMAX
#define NMAX 12
#endif
static int clampPos(int p, int n) { return p < -1 ? -1 : p > n ? n : p; }
// forward iterator at position p in -1..n, built from begin()
template <typename T> static auto fpos(T& t, int p) { auto it = t.begin(); if (p < 0) { --it; return it; } for (int k = 0; k < p; ++k) ++it; return it; }
// reverse iterator whose element index is p in -1..n
template <typename T> static auto rpos(T& t, int n, int p) { auto it = t.rbegin(); if (p == n) { --it; return it; } for (int k = n - 1; k > p; --k) ++it; return it; }

template <typename T> static void walk(T& t, L const& m, int style) {
    int n = m.n; bool rev = choose(2); int i = choose(n + 2) - 1;
    (void)style;
    if (!rev) {
        auto e = t.end(); auto b = t.begin();
        for (int d = -(n + 3); d <= n + 3; ++d) {
            auto it = fpos(t, i); it += d; int q = clampPos(i + d, n);
            auto r = fpos(t, q);
            vf_assert(it == r, "P14: moving by n equals n single steps, stopping at end or before the beginning");
            vf_assert((it == e) == (q == n), "P14: reaching end exactly at the last step");
            if (q >= 0 && q < n) vf_assert(Cfg::eq(it.get(), m.a[q]), "P14: moving by n reaches the n-th next element");
            auto s = fpos(t, i); for (int k = 0; k < d; ++k) ++s; for (int k = 0; k < -d; ++k) --s;
            vf_assert(s == it, "P14: moving by n equals n single steps");
            auto u = fpos(t, i) - (-d); vf_assert(u == it, "P14: operator- moves the other way");
            if (q == -1) { ++it; vf_assert(it == b, "P14: stepping forward from before the beginning reaches begin"); }
            else if (q == n) { --it; auto l = fpos(t, n - 1); vf_assert(it == l, "P14: stepping back from end reaches the last element"); }
            else { auto w = it; ++w; --w; vf_assert(w == it && Cfg::eq(w.get(), m.a[q]), "P14: decrement undoes increment"); auto o = it++; vf_assert(Cfg::eq(o.get(), m.a[q]), "P14: post-increment returns the old position"); auto f = fpos(t, q + 1); vf_assert(it == f, "P14: post-increment advances");
                   auto o2 = it--; vf_assert(o2 == f, "P14: post-decrement returns the old position"); vf_assert(Cfg::eq(it.get(), m.a[q]), "P14: post-decrement goes back");
                   if (i >= 0 && i < n) { auto z = fpos(t, i); vf_assert(Cfg::eq(z[d], m.a[q]), "P14: it[n] is the n-th next element"); vf_assert(Cfg::eq(*(z.operator->()), m.a[i]), "P14: operator-> refers to the element"); } }
        }
    } else {
        auto e = t.rend(); auto b = t.rbegin();
        for (int d = -(n + 3); d <= n + 3; ++d) {
            auto it = rpos(t, n, i); it += d; int q = clampPos(i - d, n);
            auto r = rpos(t, n, q);
            vf_assert(it == r, "P14: a reverse iterator moved by n equals n single steps");
            vf_assert((it == e) == (q == -1), "P14: reaching rend exactly at the last step");
            if (q >= 0 && q < n) vf_assert(Cfg::eq(it.get(), m.a[q]), "P14: a reverse iterator moved by n reaches the n-th previous element");
            auto s = rpos(t, n, i); for (int k = 0; k < d; ++k) ++s; for (int k = 0; k < -d; ++k) --s;
            vf_assert(s == it, "P14: a reverse iterator moved by n equals n single steps");
            if (q == -1 && n) { --it; vf_assert(Cfg::eq(it.get(), m.a[0]), "P14: stepping back from rend reaches the first element"); }
            else if (q == n) { ++it; vf_assert(it == b, "P14: stepping from before rbegin reaches rbegin"); }
            else if (n) { auto w = it; ++w; --w; vf_assert(w == it && Cfg::eq(w.get(), m.a[q]), "P14: decrement undoes increment (reverse)"); }
        }
    }
}
template <typename A, typename B> static void cmp1(A const& a, B const& b, int i, int j) {
    vf_assert((a == b) == (i == j), "P15: == agrees with positions");
    vf_assert((a != b) == (i != j), "P15: != agrees with positions");
    vf_assert((a < b) == (i < j), "P15: < agrees with positions");
    vf_assert((a > b) == (i > j), "P15: > agrees with positions");
    vf_assert((a <= b) == (i <= j), "P15: <= agrees with positions");
    vf_assert((a >= b) == (i >= j), "P15: >= agrees with positions");
    if constexpr (Cfg::idx) vf_assert((int64_t)(a - b) == i - j, "P15: difference is the number of steps between");
}
template <typename T> static void compare(T& t, L const& m) {
    int n = m.n; bool rev = choose(2); int i = choose(n + 2) - 1;
    T const& ct = t;
    if (!rev) { auto a = fpos(t, i); auto ca = fpos(ct, i); for (int j = -1; j <= n; ++j) { auto b = fpos(t, j); cmp1(a, b, i, j); auto cb = fpos(ct, j); cmp1(ca, cb, i, j); } }
    else { auto a = rpos(t, n, i); auto ca = rpos(ct, n, i); for (int j = -1; j <= n; ++j) { auto b = rpos(t, n, j); cmp1(a, b, -i, -j); auto cb = rpos(ct, n, j); cmp1(ca, cb, -i, -j); } }
}
static int pickN() {
#ifdef NLIST
    static const int ns[] = {NLIST}; return ns[choose((int)(sizeof ns / sizeof ns[0]))];
#else
    return choose(NMAX + 1);
#endif
}
VF_UNIT(walk) { int kind = choose(3), style = choose(3), n = pickN(); vf_part(); T t; L m; build(t, m, style == 2 ? 3 : style, n);
    if (kind == 0) walk(t, m, style); else if (kind == 1) { T const& c = t; walk(c, m, style); } else { P const p = t.persistent(); walk(p, m, style); } }
VF_UNIT(compare) { int kind = choose(2), style = choose(4), n = pickN(); vf_part(); T t; L m; build(t, m, style, n);
    if (kind == 0) compare(t, m); else { P p = t.persistent(); compare(p, m); } }

// iterators made in every way the tree offers agree
template <typename T> static void sources(T& t, L const& m) {
    if constexpr (Cfg::idx) for (int i = 0; i <= m.n; ++i) { auto f = fpos(t, i); if (i < m.n) { auto x = t.find_index((Cfg::Ix)i); vf_assert(x == f && Cfg::eq(x.get(), m.a[i]), "P09,P15: find_index(i) equals begin()+i"); ++x; auto g = fpos(t, i + 1); vf_assert(x == g, "P14: stepping an iterator from find_index"); --x; --x; auto h = fpos(t, i - 1); vf_assert(x == h, "P14: stepping back an iterator from find_index"); } }
    if constexpr (Cfg::mn) if (m.n) { auto x = t.min_element(); int k = 0; for (auto y = t.cbegin(); k < m.n; ++y, ++k) if ((int64_t)t.order(x) == k) { ++x; ++y; if (k + 1 < m.n) vf_assert(Cfg::eq(x.get(), m.a[k + 1]), "P14: stepping an iterator from min_element"); else vf_assert(x == t.end(), "P14: stepping an iterator from min_element"); break; } }
    if constexpr (Cfg::sum) if (m.n) { auto x = t.sum_lower_bound(0); (void)x; }
}
VF_UNIT(sources) { int kind = choose(2), style = choose(4), n = pickN(); vf_part(); T t; L m; build(t, m, style, n);
    if (kind == 0) sources(t, m); else { P p = t.persistent(); sources(p, m); } }

// edits through an iterator, twice, in both directions
template <typename T> static void settle(T& t, L const& m, typename T::iterator& it, int p) { // forward iterator must be at p
    auto r = fpos(t, p);
    vf_assert(it == r, "P16: the iterator is at the position the edit leaves it");
    if (p < m.n) vf_assert(Cfg::eq(it.get(), m.a[p]), "P16: the iterator refers to the right element");
    auto c = it; ++c; auto r2 = fpos(t, p + 1 > m.n ? m.n : p + 1); vf_assert(c == r2, "P16: the iterator can be stepped forward");
    c = it; --c; auto r3 = fpos(t, p - 1); vf_assert(c == r3, "P16: the iterator can be stepped back"); if (p - 1 >= 0) vf_assert(Cfg::eq(c.get(), m.a[p - 1]), "P16: stepping back reads the element before");
}
template <typename T> static void settleR(T& t, L const& m, typename T::reverse_iterator& it, int p) { // reverse iterator must be at element p (-1: rend)
    auto r = rpos(t, m.n, p);
    vf_assert(it == r, "P16: the reverse iterator is at the position the edit leaves it");
    if (p >= 0) vf_assert(Cfg::eq(it.get(), m.a[p]), "P16: the reverse iterator refers to the right element");
    if (p >= 0) { auto c = it; ++c; auto r2 = rpos(t, m.n, p - 1); vf_assert(c == r2, "P16: the reverse iterator can be stepped forward"); }
    if (p + 1 < m.n) { auto c = it; --c; auto r3 = rpos(t, m.n, p + 1); vf_assert(c == r3 && Cfg::eq(c.get(), m.a[p + 1]), "P16: the reverse iterator can be stepped back"); }
}
VF_UNIT(iteredit) {
    int style = choose(4), n = pickN(); bool rev = choose(2), snap = choose(2); vf_part();
    T t; L m; build(t, m, style, n); P p0 = snap ? t.persistent() : P(); L m0 = m;
    int ops = choose(4); V v = Cfg::sym(), w = Cfg::con(77);
    if (!rev) {
        int p = choose(n + 1); auto it = fpos(t, p);
        for (int k = 0; k < 2; ++k) {
            bool er = (ops >> k) & 1;
            if (er) { if (p >= m.n) vf_kill(); t.erase(it); m.erase(p); } else { t.insert(it, k ? w : v); m.insert(p, k ? w : v); }
            settle(t, m, it, p);
        }
        if (p < m.n) { *it = w; m.a[p] = w; settle(t, m, it, p); }
    } else {
        int p = choose(n + 1) - 1; auto it = rpos(t, n, p);
        for (int k = 0; k < 2; ++k) {
            bool er = (ops >> k) & 1;
            if (er) { if (p < 0) vf_kill(); t.erase(it); m.erase(p); --p; } else { t.insert(it, k ? w : v); m.insert(p + 1, k ? w : v); ++p; }
            settleR(t, m, it, p);
        }
        if (p >= 0) { *it = w; m.a[p] = w; settleR(t, m, it, p); }
    }
    checkBasic<Cfg>(t, m); if (snap) checkBasic<Cfg>(p0, m0);
}
// erase or insert along a whole traversal through one iterator
VF_UNIT(itersweep) {
    int style = choose(4), n = pickN(), kind = choose(4); vf_part();
    T t; L m; build(t, m, style, n);
    if (kind == 0) { auto it = t.begin(); int p = 0; uint32_t s = 3; while (p < m.n) { if (rnd(s, 2)) { t.erase(it); m.erase(p); } else { ++it; ++p; } auto r = fpos(t, p); vf_assert(it == r, "P16: erasing while traversing keeps the place"); if (p < m.n) vf_assert(Cfg::eq(it.get(), m.a[p]), "P16: erasing while traversing keeps the element"); } }
    else if (kind == 1) { auto it = t.rbegin(); int p = m.n - 1; uint32_t s = 3; while (p >= 0) { if (rnd(s, 2)) { t.erase(it); m.erase(p); --p; } else { ++it; --p; } auto r = rpos(t, m.n, p); vf_assert(it == r, "P16: erasing while traversing in reverse keeps the place"); if (p >= 0) vf_assert(Cfg::eq(it.get(), m.a[p]), "P16: erasing while traversing in reverse keeps the element"); } }
    else if (kind == 2) { auto it = t.begin(); int p = 0; uint32_t s = 3; for (int k = 0; k < 10; ++k) { V v = Cfg::con(200u + (uint32_t)k); t.insert(it, v); m.insert(p, v); vf_assert(Cfg::eq(it.get(), v), "P16: inserting while traversing refers to the new element"); int d = rnd(s, 3); it += d; p = p + d > m.n ? m.n : p + d; } }
    else { auto it = t.rbegin(); int p = m.n - 1; uint32_t s = 3; for (int k = 0; k < 10; ++k) { V v = Cfg::con(200u + (uint32_t)k); t.insert(it, v); m.insert(p + 1, v); ++p; vf_assert(Cfg::eq(it.get(), v), "P16: inserting while traversing in reverse refers to the new element"); int d = rnd(s, 3); it += d; p = p - d < -1 ? -1 : p - d; } }
    checkBasic<Cfg>(t, m);
}
template <typename TT, typename I> static void rankIs(TT& t, I const& it, int i) { if constexpr (Cfg::idx) vf_assert((int64_t)t.order(it) == i, "P17: iterators keep their rank after a replacement"); }
// P17: replacing elements leaves iterators valid
VF_UNIT(survive) {
    int style = choose(4), n = pickN(), share = choose(3); vf_part();
    T t; L m; build(t, m, style, n); if (!n) vf_kill();
    P snap; L ms = m; if (share) snap = t.persistent();
    if (share == 2) { uint32_t s = 7; int i = rnd(s, n); V w = Cfg::con(150); asg(t, i, w); m.a[i] = w; }
    Its<typename T::iterator> its; Its<typename T::reverse_iterator> ris; int cnt = n < 16 ? n : 16;
    for (int i = 0; i < cnt; ++i) { its.put(i, fpos(t, i)); ris.put(i, rpos(t, n, i)); }
    auto e = t.end(); auto ce = t.cend(); auto re = t.rend();
    V v = Cfg::sym(); int j = choose(n);
    switch (choose(Cfg::idx ? 6 : 4)) {
    case 0: { auto x = fpos(t, j); t.assign(x, v); break; }
    case 1: { auto x = fpos(t, j); *x = v; break; }
    case 2: { auto x = fpos(t, j); t.update(x, [&](V const&) { return v; }); break; }
    case 3: { auto x = rpos(t, n, j); *x = v; break; }
    case 4: asgIdx(t, j, v, 0); break;
    default: asgIdx(t, j, v, 1); break;
    }
    m.a[j] = v;
    for (int i = 0; i < cnt; ++i) {
        vf_assert(Cfg::eq(its[i].get(), m.a[i]), "P17: iterators read the current value after a replacement");
        vf_assert(Cfg::eq(ris[i].get(), m.a[i]), "P17: reverse iterators read the current value after a replacement");
        auto r = fpos(t, i); vf_assert(its[i] == r, "P17: iterators keep their position after a replacement");
        rankIs(t, its[i], i);
        auto c = its[i]; ++c; auto r2 = fpos(t, i + 1); vf_assert(c == r2, "P17: iterators can be stepped after a replacement"); if (i + 1 < n) vf_assert(Cfg::eq(c.get(), m.a[i + 1]), "P17: iterators step to the next element after a replacement");
        c = its[i]; --c; if (i > 0) vf_assert(Cfg::eq(c.get(), m.a[i - 1]), "P17: iterators step to the previous element after a replacement");
        auto d = ris[i]; ++d; if (i > 0) vf_assert(Cfg::eq(d.get(), m.a[i - 1]), "P17: reverse iterators step after a replacement"); else vf_assert(d == re, "P17: reverse iterators step after a replacement");
        vf_assert(its[i].valid(), "P17: iterators stay valid");
    }
    vf_assert(e == t.end(), "P17: the end iterator stays the end"); vf_assert(ce == t.cend(), "P17: the end iterator stays the end"); --e; vf_assert(Cfg::eq(e.get(), m.a[n - 1]), "P17: the end iterator can be stepped back");
    { V w = Cfg::con(33); its[0].get(); *its[cnt - 1] = w; m.a[cnt - 1] = w; for (int i = 0; i < cnt; ++i) vf_assert(Cfg::eq(its[i].get(), m.a[i]), "P17: iterators read the current value after a second replacement, through an old iterator"); }
    checkAll<Cfg>(t, m); if (share) checkBasic<Cfg>(snap, ms);
}
// P17: iterators into an immutable tree
VF_UNIT(survivep) {
    int style = choose(4), n = pickN(); vf_part();
    T t; L m; build(t, m, style, n); if (!n) vf_kill();
    P p = t.persistent(); L m0 = m; Its<typename P::const_iterator> its; int cnt = n < 16 ? n : 16; for (int i = 0; i < cnt; ++i) its.put(i, citAt(p, i));
    auto pe = p.cend();
    V v = Cfg::sym(); int o = choose(4);
    if (o == 0) { int j = choose(n); asg(t, j, v); } else if (o == 1) { int j = choose(n + 1); ins(t, j, v); } else if (o == 2) { int j = choose(n); era(t, j); } else { t.clear(); P q = p.push_back(v); auto x = q.cbegin(); q = q.assign(x, v); }
    { P q = p; T u = q.transient(); uint32_t s = 5; for (int k = 0; k < 4 && n > 1; ++k) { int j = rnd(s, (int)u.size()); if (k & 1) era(u, j); else asg(u, j, v); } }
    for (int i = 0; i < cnt; ++i) { vf_assert(Cfg::eq(*its[i], m0.a[i]), "P17,P03: iterators into an immutable tree keep reading the same elements"); auto c = its[i]; ++c; auto r = citAt(p, i + 1); vf_assert(c == r, "P17: iterators into an immutable tree can be stepped"); if (i + 1 < n) vf_assert(Cfg::eq(*c, m0.a[i + 1]), "P17: iterators into an immutable tree step to the next element"); }
    vf_assert(pe == p.cend(), "P17: the end iterator of an immutable tree stays the end");
    checkAll<Cfg>(p, m0);
}

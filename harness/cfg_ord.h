// Configurations of trees ordered by key, selected by -DCFG=n
#pragma once
#include "api.h"
#ifndef CFG
#define CFG 0
#endif
namespace api {
template <typename A, typename B> struct KV { A first{}; B second{}; };
#if CFG == 0 || CFG == 1   // map; 0: linear search, 1: binary search; leaf capacity 3, internal capacity 4
struct Cfg {
    using K = uint32_t; using W = uint32_t; using V = std::pair<K, W>; using L = List<V>; using Ix = uint32_t; using ST = uint32_t;
    using Tree = BppTreeMap<K, W, detail::MinComparator, CFG == 1, 32, 56, 4>::mixins<>;
    static constexpr bool br = true, swapped = false, map = true, idx = false, sum = false, mn = false, mx = false;
    static bool less(K a, K b) { return a < b; }
    static K key(V const& v) { return v.first; } static W val(V const& v) { return v.second; } static V mk(K k, W w) { return V(k, w); }
    static K conKey(uint32_t i) { return 2 * i + 2; } static K symKey() { return vf_sym32(); }
    static bool eq(V const& a, V const& b) { return (a.first == b.first) & (a.second == b.second); }
    static ST sv(V v) { return v.second; } static W minKey(V const& v) { return v.second; } static W maxKey(V const& v) { return v.second; }
    static bool minLess(W a, W b) { return a < b; } static bool maxLess(W a, W b) { return b < a; }
};
#elif CFG == 2 || CFG == 3 // map in decreasing order of signed keys with every other extension in mixed order; 2 linear, 3 binary search
struct Cfg {
    using K = int32_t; using W = uint32_t; using V = std::pair<K, W>; using L = List<V>; using Ix = uint32_t; using ST = uint32_t;
    using Tree = BppTree<V, 32, 128, 4>::mixins<SummedBuilder<PairExtractor<1>>, IndexedBuilder<Ix>, OrderedBuilder<>::compare<detail::MaxComparator>::binary_search<CFG == 3>, MinBuilder<PairExtractor<1>>, MaxBuilder<PairExtractor<0>>>;
    static constexpr bool br = false, swapped = false, map = true, idx = true, sum = true, mn = true, mx = true;
    static bool less(K a, K b) { return b < a; }
    static K key(V const& v) { return v.first; } static W val(V const& v) { return v.second; } static V mk(K k, W w) { return V(k, w); }
    static K conKey(uint32_t i) { return 20 - 2 * (K)i; } static K symKey() { return (K)vf_sym32(); }
    static bool eq(V const& a, V const& b) { return (a.first == b.first) & (a.second == b.second); }
    static ST sv(V v) { return v.second; } static W minKey(V const& v) { return v.second; } static K maxKey(V const& v) { return v.first; }
    static bool minLess(W a, W b) { return a < b; } static bool maxLess(K a, K b) { return b < a; }
};
#elif CFG == 4 || CFG == 5 // set whose comparator makes unequal keys equivalent (distance from 50); 4 linear, 5 binary search
struct Cfg {
    using K = uint32_t; using W = uint32_t; using V = uint32_t; using L = List<V>; using Ix = uint32_t; using ST = uint32_t;
    using Tree = BppTreeSet<K, Near, CFG == 5, 24, 72, 4>::mixins<IndexedBuilder<Ix>>;
    static constexpr bool br = true, swapped = false, map = false, idx = true, sum = false, mn = false, mx = false;
    static bool less(K a, K b) { return Near()(a, b); }
    static K key(V const& v) { return v; } static W val(V const& v) { return v; } static V mk(K k, W) { return k; }
    static K conKey(uint32_t i) { return i % 3 == 0 && 2 * i + 1 < 50 ? 50 - 2 * i - 1 : 50 + 2 * i + 1; } static K symKey() { return vf_sym32(); }
    static bool eq(V const& a, V const& b) { return a == b; }
    static ST sv(V v) { return v; } static W minKey(V v) { return v; } static W maxKey(V v) { return v; }
    static bool minLess(W a, W b) { return a < b; } static bool maxLess(W a, W b) { return b < a; }
};
#elif CFG == 6 // key stored second (PairExtractor<1>), 64-bit keys, 16-bit values
struct Cfg {
    using K = uint64_t; using W = uint16_t; using V = std::pair<W, K>; using L = List<V>; using Ix = uint32_t; using ST = uint64_t;
    using Tree = BppTree<V, 72, 104, 4>::mixins<OrderedBuilder<PairExtractor<1>>, SummedBuilder<detail::WrappedCastingExtractor<PairExtractor<0>, uint64_t>>>;
    static constexpr bool br = true, swapped = true, map = true, idx = false, sum = true, mn = false, mx = false;
    static bool less(K a, K b) { return a < b; }
    static K key(V const& v) { return v.second; } static W val(V const& v) { return v.first; } static V mk(K k, W w) { return V(w, k); }
    static K conKey(uint32_t i) { return 2 * i + 2; } static K symKey() { return vf_sym64(); }
    static bool eq(V const& a, V const& b) { return (a.first == b.first) & (a.second == b.second); }
    static ST sv(V v) { return v.first; } static W minKey(V const& v) { return v.first; } static W maxKey(V const& v) { return v.first; }
    static bool minLess(W a, W b) { return a < b; } static bool maxLess(W a, W b) { return b < a; }
};
#endif
using K = Cfg::K; using W = Cfg::W; using V = Cfg::V; using L = Cfg::L; using T = Cfg::Tree::Transient; using P = Cfg::Tree::Persistent;
static inline W symVal() { return (W)vf_sym32(); }
static inline W conVal(uint32_t i) { return (W)scramble(i); }
// first position whose key is not less / is greater
static inline int lb(L const& m, K k) { int i = 0; while (i < m.n && Cfg::less(Cfg::key(m.a[i]), k)) ++i; return i; }
static inline bool at(L const& m, int i, K k) { return i < m.n && !Cfg::less(k, Cfg::key(m.a[i])); }
static inline void mInsert(L& m, V const& v, bool replace) { int i = lb(m, Cfg::key(v)); if (at(m, i, Cfg::key(v))) { if (replace) m.a[i] = v; } else m.insert(i, v); }
static inline void mErase(L& m, K k) { int i = lb(m, k); if (at(m, i, k)) m.erase(i); }
template <typename C, typename TT> static auto insKV(TT&& t, K const& k, W const& w) { if constexpr (!C::map) return t.insert_or_assign(k); else if constexpr (C::swapped) return t.insert_or_assign(w, k); else return t.insert_or_assign(k, w); }
template <typename C, typename VV> static K const& keyRef(VV const& v) { if constexpr (!C::map) return v; else if constexpr (C::swapped) return v.second; else return v.first; }
template <typename C, typename VV> static W const& valRef(VV const& v) { if constexpr (!C::map) return v; else if constexpr (C::swapped) return v.first; else return v.second; }
// a key equivalent to that of v
template <typename C, typename VV> static K equiv(VV const& v) { if constexpr (C::map) return C::key(v); else return choose(2) && v > 0 && v < 100 ? 100 - v : v; }
// the value an update of key k to w stores (a set stores the key itself)
static inline W upd(K k, W w) { return Cfg::map ? w : (W)k; }
// builds: 0 ascending, 1 descending, 2 scattered, 3 scattered insertions and erasures
static inline void build(T& t, L& m, int style, int n) {
    uint32_t c = 0, s = 77u + (uint32_t)n; int cap = 14 + n;
    if (style == 0) for (int i = 0; i < n; ++i) { V v = Cfg::mk(Cfg::conKey((uint32_t)i), conVal(c++)); t.insert_or_assign(v); mInsert(m, v, true); }
    else if (style == 1) for (int i = n - 1; i >= 0; --i) { V v = Cfg::mk(Cfg::conKey((uint32_t)i), conVal(c++)); t.insert_v(v); mInsert(m, v, true); }
    else if (style == 2) for (int i = 0; i < n; ++i) { V v = Cfg::mk(Cfg::conKey((uint32_t)((i * 37 + 3) % n)), conVal(c++)); t.insert_or_assign(v); mInsert(m, v, true); }
    else {
        while (m.n < n) { V v = Cfg::mk(Cfg::conKey((uint32_t)rnd(s, cap)), conVal(c++)); t.insert_or_assign(v); mInsert(m, v, true); }
        for (int k = 0; k < n / 2; ++k) { K x = Cfg::key(m.a[rnd(s, m.n)]); t.erase_key(x); mErase(m, x); }
        while (m.n < n) { V v = Cfg::mk(Cfg::conKey((uint32_t)rnd(s, cap)), conVal(c++)); t.insert_or_assign(v); mInsert(m, v, true); if (m.n > 2 && rnd(s, 3) == 0) { K x = Cfg::key(m.a[rnd(s, m.n)]); t.erase_key(x); mErase(m, x); } }
    }
}
template <typename C, typename TT> static void bracketIs(TT const& t, L const& m, int l, K k) { if constexpr (C::br) vf_assert((W)t[k] == C::val(m.a[l]), "P08: operator[] yields the element's value"); }
template <typename C, typename TT, typename WW> static void setBracket(TT& t, K const& k, WW const& w) { if constexpr (C::br) t[k] = w; else insKV<C>(t, k, w); }
// every search for one key
template <typename TT> static void searches(TT& t, L const& m, K k) {
    int l = lb(m, k); bool here = at(m, l, k); int u = here ? l + 1 : l;
    auto a = t.lower_bound(k); auto r = itAt(t, l); vf_assert(a == r, "P08,P20: lower_bound is the first element whose key is not less");
    auto b = t.upper_bound(k); auto r2 = itAt(t, u); vf_assert(b == r2, "P08,P20: upper_bound is the first element whose key is greater");
    auto f = t.find(k); auto r3 = itAt(t, here ? l : m.n); vf_assert(f == r3, "P08,P20: find succeeds exactly when the key is present");
    vf_assert(t.contains(k) == here, "P08,P20: contains is true exactly when the key is present");
    if (here) { vf_assert(Cfg::eq(f.get(), m.a[l]), "P08: find refers to the element with the key"); vf_assert(t.at_key(k) == Cfg::val(m.a[l]), "P08,P18,P20: at_key yields the element's value"); bracketIs<Cfg>(t, m, l, k); vf_assert(t.contains(k), "P08: contains agrees with find"); }
    if (l < m.n) vf_assert(Cfg::eq(a.get(), m.a[l]), "P08: lower_bound refers to the right element");
    if (u < m.n) vf_assert(Cfg::eq(b.get(), m.a[u]), "P08: upper_bound refers to the right element");
    auto ca = t.lower_bound_const(k); auto cr = citAt(t, l); vf_assert(ca == cr, "P08: lower_bound_const agrees");
    auto cb = t.upper_bound_const(k); auto cr2 = citAt(t, u); vf_assert(cb == cr2, "P08: upper_bound_const agrees");
    auto cf = t.find_const(k); auto cr3 = citAt(t, here ? l : m.n); vf_assert(cf == cr3, "P08: find_const agrees");
    ++a; auto g = itAt(t, l + 1 > m.n ? m.n : l + 1); vf_assert(a == g, "P14: stepping an iterator from lower_bound"); a = t.upper_bound(k); --a; auto h = itAt(t, 0); for (int i = 0; i < u - 1; ++i) ++h; if (u == 0) --h; vf_assert(a == h, "P14: stepping back an iterator from upper_bound");
}
static inline void sortedStrictly(L const& m) { for (int i = 1; i < m.n; ++i) vf_assert(Cfg::less(Cfg::key(m.a[i - 1]), Cfg::key(m.a[i])), "P07: keys are strictly increasing"); }
template <typename TT> static void keysIncrease(TT const& t) { bool first = true; K prev{}; for (auto it = t.cbegin(), e = t.cend(); it != e; ++it) { K k = Cfg::key(*it); if (!first) vf_assert(Cfg::less(prev, k), "P07: keys are strictly increasing"); prev = k; first = false; } }
} // namespace api

// Configurations of sequence-like trees, selected by -DCFG=n
#pragma once
#include "api.h"
#ifndef CFG
#define CFG 0
#endif
namespace api {
struct CfgBase {
    static constexpr bool ord = false;
    template <typename A, typename B> static bool eq(A const& a, B const& b) { return a == b; }
};
#if CFG == 0   // every positional extension, unsigned; leaf capacity 3, internal capacity 4
struct Cfg : CfgBase {
    using V = uint32_t; using L = List<V>; using Ix = uint32_t; using ST = uint32_t;
    using Tree = BppTree<V, 20, 104, 4>::mixins<IndexedBuilder<Ix>, SummedBuilder<>, MinBuilder<>, MaxBuilder<>>;
    static constexpr bool idx = true, sum = true, mn = true, mx = true;
    static V sym() { return vf_sym32(); } static V con(uint32_t i) { return scramble(i); }
    static ST sv(V v) { return v; } static V minKey(V v) { return v; } static V maxKey(V v) { return v; }
    static bool minLess(V a, V b) { return a < b; } static bool maxLess(V a, V b) { return b < a; }
};
#elif CFG == 1 // another order of the extensions, signed values, 64-bit sums and index; leaf capacity 4, internal capacity 5
struct Cfg : CfgBase {
    using V = int32_t; using L = List<V>; using Ix = uint64_t; using ST = int64_t;
    using Tree = BppTree<V, 24, 168, 4>::mixins<MaxBuilder<>, SummedBuilder<detail::CastingExtractor<int64_t>>, IndexedBuilder<Ix>, MinBuilder<>>;
    static constexpr bool idx = true, sum = true, mn = true, mx = true;
    static V sym() { return (V)vf_sym32(); } static V con(uint32_t i) { return (V)scramble(i) - 50; }
    static ST sv(V v) { return v; } static V minKey(V v) { return v; } static V maxKey(V v) { return v; }
    static bool minLess(V a, V b) { return a < b; } static bool maxLess(V a, V b) { return b < a; }
};
#elif CFG == 2 // no extension at all
struct Cfg : CfgBase {
    using V = uint32_t; using L = List<V>; using Ix = uint32_t; using ST = uint32_t;
    using Tree = BppTree<V, 20, 40, 4>::mixins<>;
    static constexpr bool idx = false, sum = false, mn = false, mx = false;
    static V sym() { return vf_sym32(); } static V con(uint32_t i) { return scramble(i); }
    static ST sv(V v) { return v; } static V minKey(V v) { return v; } static V maxKey(V v) { return v; }
    static bool minLess(V a, V b) { return a < b; } static bool maxLess(V a, V b) { return b < a; }
};
#elif CFG == 3 // narrow index, min with a comparator that has ties, max by a derived key; leaf capacity 5, internal capacity 6
struct LowByte { template <typename T> uint32_t operator()(T const& v) const { return v & 0xFFu; } };
struct Cfg : CfgBase {
    using V = uint32_t; using L = List<V>; using Ix = uint16_t; using ST = uint16_t;
    using Tree = BppTree<V, 28, 128, 4>::mixins<IndexedBuilder<Ix>, MinBuilder<detail::ValueExtractor, Near>, MaxBuilder<LowByte>, SummedBuilder<detail::CastingExtractor<uint16_t>>>;
    static constexpr bool idx = true, sum = true, mn = true, mx = true;
    static V sym() { return vf_sym32(); } static V con(uint32_t i) { return scramble(i) * 3; }
    static ST sv(V v) { return (ST)v; } static V minKey(V v) { return v; } static V maxKey(V v) { return v & 0xFF; }
    static bool minLess(V a, V b) { return Near()(a, b); } static bool maxLess(V a, V b) { return b < a; }
};
#elif CFG == 4 // default node sizes (512 bytes)
struct Cfg : CfgBase {
    using V = uint32_t; using L = List<V, 700>; using Ix = uint32_t; using ST = uint32_t;
    using Tree = BppTree<V, 512, 512, 4>::mixins<IndexedBuilder<Ix>, SummedBuilder<>, MinBuilder<>, MaxBuilder<>>;
    static constexpr bool idx = true, sum = true, mn = true, mx = true;
    static V sym() { return vf_sym32(); } static V con(uint32_t i) { return scramble(i); }
    static ST sv(V v) { return v; } static V minKey(V v) { return v; } static V maxKey(V v) { return v; }
    static bool minLess(V a, V b) { return a < b; } static bool maxLess(V a, V b) { return b < a; }
};
#elif CFG == 5 // index and sum only, capacity-1 leaves' neighbours: leaf capacity 2, internal capacity 4
struct Cfg : CfgBase {
    using V = uint32_t; using L = List<V>; using Ix = uint32_t; using ST = uint32_t;
    using Tree = BppTree<V, 16, 72, 5>::mixins<SummedBuilder<>, IndexedBuilder<Ix>>;
    static constexpr bool idx = true, sum = true, mn = false, mx = false;
    static V sym() { return vf_sym32(); } static V con(uint32_t i) { return scramble(i); }
    static ST sv(V v) { return v; } static V minKey(V v) { return v; } static V maxKey(V v) { return v; }
    static bool minLess(V a, V b) { return a < b; } static bool maxLess(V a, V b) { return b < a; }
};
#endif
using V = Cfg::V; using L = Cfg::L; using T = Cfg::Tree::Transient; using P = Cfg::Tree::Persistent;

// insertion at a position through whatever interface the tree has
template <typename TT> static void ins(TT& t, int i, V const& v) {
    if constexpr (Cfg::idx) t.insert_index((Cfg::Ix)i, v); else { auto it = itAt(t, i); t.insert(it, v); }
}
template <typename TT> static void era(TT& t, int i) { if constexpr (Cfg::idx) t.erase_index((Cfg::Ix)i); else { auto it = itAt(t, i); t.erase(it); } }
template <typename TT> static void asg(TT& t, int i, V const& v) { if constexpr (Cfg::idx) t.assign_index((Cfg::Ix)i, v); else { auto it = itAt(t, i); t.assign(it, v); } }
template <typename TT> static void asgIdx(TT& t, int i, V const& v, int how) { if constexpr (Cfg::idx) { if (how == 0) t.assign_index((Cfg::Ix)i, v); else { Cfg::Ix ix = (Cfg::Ix)i; t[ix] = v; } } }
template <typename TT> static void insIdx(TT& t, L& m, V const& r, V const& c, int n) { if constexpr (Cfg::idx) { int i = choose(n + 1); t.insert_index((Cfg::Ix)i, r); m.insert(i, c); } }
template <typename TT> static void asgIdx2(TT& t, L& m, int j, V const& c, int n) { if constexpr (Cfg::idx) { int i = choose(n), o = choose(3); Cfg::Ix ix = (Cfg::Ix)i, jx = (Cfg::Ix)j;
    if (o == 0) t.assign_index(ix, t.at_index(jx)); else if (o == 1) t[ix] = t[jx].get(); else t.update_index(ix, [&](V const&) -> V const& { return t.at_index(jx); }); m.a[i] = c; } }
// builds: 0 append, 1 prepend, 2 scattered, 3 scattered insertions and erasures
static inline void build(T& t, L& m, int style, int n) {
    uint32_t s = 12345u + (uint32_t)n; uint32_t c = 0;
    while (m.n < n) {
        V v = Cfg::con(c++);
        if (style == 0) { t.push_back(v); m.insert(m.n, v); }
        else if (style == 1) { t.push_front(v); m.insert(0, v); }
        else if (style == 2) { int p = (int)((c * 7 + 3) % (uint32_t)(m.n + 1)); ins(t, p, v); m.insert(p, v); }
        else { int p = rnd(s, m.n + 1); ins(t, p, v); m.insert(p, v); }
    }
    if (style == 3) {
        for (int k = 0; k < n / 2; ++k) { int p = rnd(s, m.n); era(t, p); m.erase(p); }
        while (m.n < n) { int p = rnd(s, m.n + 1); V v = Cfg::con(c++); ins(t, p, v); m.insert(p, v); if (m.n > 2 && rnd(s, 3) == 0) { p = rnd(s, m.n); era(t, p); m.erase(p); } }
    }
}
} // namespace api

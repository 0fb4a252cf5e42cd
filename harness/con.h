// Contract layer: configurations (element type, extensions, comparators) and the list view shared by the leaf, internal
// and root contracts.  -DCFG=n selects the configuration.
#pragma once
#include "api.h"
#include "track.h"
#ifndef CFG
#define CFG 0
#endif
namespace con {
using namespace bpptree;
using api::Near; using detail::IndexType; using detail::NodePtr; using detail::make_ptr;
using ssize = detail::ssize;
// the library's own node types for a list of extensions, put together as BppTree::mixins does
template <typename V, bool DE, typename... B> using NT = detail::NodeTypesDetail<V, 512, 512, 4, DE, typename B::template build<V>...>;
struct Pv { uint64_t a = 0, b = 0; };                       // what an element stands for
static inline bool eqp(Pv x, Pv y) { return (x.a == y.a) & (x.b == y.b); }
struct None {};
struct LowByte { template <typename T> uint32_t operator()(T const& v) const { return (uint32_t)(v & 0xFFu); } };
struct SgnSum { template <typename T> int32_t operator()(T const& v) const { return (int32_t)v.v; } };
struct TrKey { template <typename T> T const& operator()(T const& v) const { return v; } };

struct Base { static constexpr bool idx = false, sum = false, mn = false, mx = false, ord = false, tracked = false, pairs = false, bin = false;
    using Ix = uint32_t; using ST = uint32_t; using MN = uint32_t; using MX = uint32_t; using K = uint32_t;
    static ST sv(Pv) { return 0; } static Pv ofSum(Pv p, ST x) { return {(uint32_t)x, p.b}; } static MN minKey(Pv) { return 0; } static MX maxKey(Pv) { return 0; }
    static bool minLess(MN a, MN b) { return a < b; } static bool maxLess(MX a, MX b) { return b < a; } static K key(Pv p) { return (K)p.a; } static bool less(K a, K b) { return a < b; }
    static bool eqKey(K a, K b) { return a == b; }
};
#if CFG == 0       // index, sum, min, max on uint32_t
struct C : Base {
    using V = uint32_t; using N = NT<V, false, IndexedBuilder<uint32_t>, SummedBuilder<>, MinBuilder<>, MaxBuilder<>>;
    static constexpr bool idx = true, sum = true, mn = true, mx = true;
    static Pv sym() { return {vf_sym32(), 0}; } static V mk(Pv p) { return (V)p.a; } static Pv get(V const& v) { return {v, 0}; }
    static ST sv(Pv p) { return (ST)p.a; } static MN minKey(Pv p) { return (MN)p.a; } static MX maxKey(Pv p) { return (MX)p.a; }
};
#elif CFG == 1     // max, signed 64-bit sum of int32_t, signed index, min with a comparator that has ties; sum listed before the index
struct C : Base {
    using V = int32_t; using N = NT<V, true, MaxBuilder<>, SummedBuilder<detail::CastingExtractor<int64_t>>, IndexedBuilder<int64_t>, MinBuilder<detail::CastingExtractor<uint32_t>, Near>>;
    static constexpr bool idx = true, sum = true, mn = true, mx = true;
    using Ix = int64_t; using ST = int64_t; using MX = int32_t;
    static Pv sym() { return {vf_sym32(), 0}; } static V mk(Pv p) { return (V)(uint32_t)p.a; } static Pv get(V const& v) { return {(uint32_t)v, 0}; }
    static ST sv(Pv p) { return (ST)(int32_t)(uint32_t)p.a; } static Pv ofSum(Pv p, ST x) { return {(uint32_t)x, p.b}; } static MN minKey(Pv p) { return (MN)p.a; } static MX maxKey(Pv p) { return (MX)(uint32_t)p.a; }
    static bool minLess(MN a, MN b) { return Near()(a, b); } static bool maxLess(MX a, MX b) { return b < a; }
};
#elif CFG == 2     // tracked elements (nothrow move): min before signed sum before index
struct C : Base {
    using V = TrT<true>; using N = NT<V, false, MinBuilder<>, SummedBuilder<SgnSum>, IndexedBuilder<uint16_t>, MaxBuilder<>>;
    static constexpr bool idx = true, sum = true, mn = true, mx = true, tracked = true;
    using Ix = uint16_t; using ST = int32_t; using MN = uint64_t; using MX = uint64_t;
    static Pv sym() { return {vf_sym32(), 0}; } static V mk(Pv p) { return V(p.a); } static Pv get(V const& v) { v.ok(); return {v.v, 0}; }
    static ST sv(Pv p) { return (ST)(uint32_t)p.a; } static Pv ofSum(Pv p, ST x) { return {(uint32_t)x, p.b}; } static MN minKey(Pv p) { return p.a; } static MX maxKey(Pv p) { return p.a; }
    static bool minLess(MN a, MN b) { return a < b; } static bool maxLess(MX a, MX b) { return b < a; }
};
#elif CFG == 3     // tracked elements whose move may throw, no extension
struct C : Base {
    using V = TrT<false>; using N = NT<V, false>;
    static constexpr bool tracked = true;
    static Pv sym() { return {vf_sym32(), 0}; } static V mk(Pv p) { return V(p.a); } static Pv get(V const& v) { v.ok(); return {v.v, 0}; }
};
#elif CFG == 4 || CFG == 5   // map: linear (4) or binary (5) search, with sum of the mapped values and index
struct C : Base {
    using V = std::pair<uint32_t, uint32_t>; using N = NT<V, false, OrderedBuilder<>::binary_search<CFG == 5>, SummedBuilder<PairExtractor<1>>, IndexedBuilder<uint32_t>>;
    static constexpr bool idx = true, sum = true, ord = true, pairs = true, bin = CFG == 5;
    static Pv sym() { return {vf_sym32(), vf_sym32()}; } static V mk(Pv p) { return V((uint32_t)p.a, (uint32_t)p.b); } static Pv get(V const& v) { return {v.first, v.second}; }
    static ST sv(Pv p) { return (ST)p.b; } static Pv ofSum(Pv p, ST x) { return {p.a, (uint32_t)x}; }
};
#elif CFG == 6 || CFG == 7   // set in decreasing order of signed keys with min and max; 6 linear, 7 binary search
struct C : Base {
    using V = int32_t; using N = NT<V, false, IndexedBuilder<uint64_t>, MinBuilder<>, OrderedBuilder<ValueExtractor>::compare<detail::MaxComparator>::binary_search<CFG == 7>, MaxBuilder<LowByte>>;
    static constexpr bool idx = true, mn = true, mx = true, ord = true, bin = CFG == 7;
    using Ix = uint64_t; using MN = int32_t; using K = int32_t;
    static Pv sym() { return {vf_sym32(), 0}; } static V mk(Pv p) { return (V)(uint32_t)p.a; } static Pv get(V const& v) { return {(uint32_t)v, 0}; }
    static MN minKey(Pv p) { return (MN)(uint32_t)p.a; } static MX maxKey(Pv p) { return (MX)p.a & 0xFF; } static bool minLess(MN a, MN b) { return a < b; }
    static K key(Pv p) { return (K)(uint32_t)p.a; } static bool less(K a, K b) { return b < a; }
};
#elif CFG == 8     // map of tracked keys and values, ordered first
struct C : Base {
    using T1 = TrT<true>; using V = std::pair<T1, T1>; using N = NT<V, false, OrderedBuilder<>, IndexedBuilder<uint32_t>>;
    static constexpr bool idx = true, ord = true, tracked = true, pairs = true;
    using K = uint64_t;
    static Pv sym() { return {vf_sym32(), vf_sym32()}; } static V mk(Pv p) { return V(T1(p.a), T1(p.b)); } static Pv get(V const& v) { v.first.ok(); v.second.ok(); return {v.first.v, v.second.v}; }
};
#elif CFG == 9     // set of 16-bit keys with unequal equivalent keys (distance from 50), alone
struct C : Base {
    using V = uint32_t; using N = NT<V, false, OrderedBuilder<ValueExtractor>::compare<Near>>;
    static constexpr bool ord = true;
    static Pv sym() { return {vf_sym32(), 0}; } static V mk(Pv p) { return (V)p.a; } static Pv get(V const& v) { return {v, 0}; }
    static bool less(K a, K b) { return Near()(a, b); }
};
#endif
using V = C::V; using N = C::N; using Ix = C::Ix; using ST = C::ST;
template <typename A> static auto raw(A const& a) { if constexpr (std::is_integral_v<A>) return a; else { a.ok(); return a.v; } }   // tracked keys stand for their number

template <int M> struct Seq {
    Pv a[M]; int n = 0;
    void insert(int i, Pv v) { for (int k = n; k > i; --k) a[k] = a[k - 1]; a[i] = v; ++n; }
    void erase(int i) { --n; for (int k = i; k < n; ++k) a[k] = a[k + 1]; }
    Seq part(int lo, int hi) const { Seq s; for (int i = lo; i < hi; ++i) s.a[s.n++] = a[i]; return s; }
    ST sum() const { ST s = 0; for (int i = 0; i < n; ++i) s = (ST)(s + C::sv(a[i])); return s; }
    C::MN min(int lo, int hi) const { auto r = C::minKey(a[lo]); for (int i = lo + 1; i < hi; ++i) { auto c = C::minKey(a[i]); r = (C::MN)vf_ite(C::minLess(c, r), (uint64_t)c, (uint64_t)r); } return r; }
    C::MX max(int lo, int hi) const { auto r = C::maxKey(a[lo]); for (int i = lo + 1; i < hi; ++i) { auto c = C::maxKey(a[i]); r = (C::MX)vf_ite(C::maxLess(c, r), (uint64_t)c, (uint64_t)r); } return r; }
};
static inline bool sameMin(C::MN a, C::MN b) { return !C::minLess(a, b) & !C::minLess(b, a); }
static inline bool sameMax(C::MX a, C::MX b) { return !C::maxLess(a, b) & !C::maxLess(b, a); }

// what a node reports about itself (delta: relative to before)
struct Rep { Ix children{}; ST sum{}; C::MN mn{}; C::MX mx{}; C::K key{}; };
template <typename CC, typename I> static Rep rep(I& i) {
    Rep r;
    if constexpr (CC::idx) r.children = i.children;
    if constexpr (CC::sum) r.sum = i.sum;
    if constexpr (CC::mn) r.mn = raw(i.min);
    if constexpr (CC::mx) r.mx = raw(i.max);
    if constexpr (CC::ord) r.key = raw(i.key);
    return r;
}
} // namespace con

// Public-API layer: histories of public operations checked against a plain list.  BOUNDED (shapes and history length);
// values, keys and targets marked symbolic are universally quantified.
#pragma once
#include "vf.h"
#include <new>
#include <bpptree/bpptree.hpp>
#include <bpptree/ordered.hpp>
#include <bpptree/indexed.hpp>
#include <bpptree/summed.hpp>
#include <bpptree/min.hpp>
#include <bpptree/max.hpp>
using namespace bpptree;
namespace api {
// ---- the list model
template <typename V_, int N_ = 64>
struct List {
    using V = V_;
    V a[N_]{}; int n = 0;
    void insert(int i, V const& v) { if (n >= N_) vf_kill(); for (int k = n; k > i; --k) a[k] = a[k - 1]; a[i] = v; ++n; }
    void erase(int i) { --n; for (int k = i; k < n; ++k) a[k] = a[k + 1]; }
};
static inline uint32_t scramble(uint32_t i) { return (i * 37u + 11u) % 101u; }
static inline uint32_t lcg(uint32_t& s) { s = s * 1664525u + 1013904223u; return s >> 8; }
static inline int rnd(uint32_t& s, int n) { return (int)(lcg(s) % (uint32_t)n); }

// Comparators used for min/max/keys other than the library's own
struct ByLow { template <typename A, typename B> bool operator()(A const& a, B const& b) const { return (uint32_t)(a) < (uint32_t)(b); } };
// order by distance from 50 (a strict weak order with equivalent, unequal elements)
struct Near { bool operator()(uint32_t a, uint32_t b) const { uint32_t x = a > 50 ? a - 50 : 50 - a, y = b > 50 ? b - 50 : 50 - b; return x < y; } };

// ---- checks of one tree against a list; Cfg supplies the features and extractors
template <typename Cfg, typename T>
struct Check {
    using L = typename Cfg::L; using V = typename L::V;
    static void basic(T const& t, L const& m) {
        vf_assert(t.size() == (size_t)m.n, "P01,P20,P21: size() equals the list size");
        vf_assert(t.empty() == (m.n == 0), "P01: empty() agrees with the list");
        if (m.n) {
            vf_assert(Cfg::eq(t.front(), m.a[0]), "P01,P20,P21,P22: front() equals the list's first element");
            vf_assert(Cfg::eq(t.back(), m.a[m.n - 1]), "P01,P20,P21,P22: back() equals the list's last element");
        }
        int i = 0;
        auto e = t.cend();
        for (auto it = t.cbegin(); it != e; ++it) {
            vf_assert(i < m.n, "P01,P03,P14: forward iteration yields no extra element");
            vf_assert(Cfg::eq(*it, m.a[i]), "P01,P03,P07,P14,P17,P18,P20,P21,P22: forward iteration yields the list's elements in order");
            ++i;
        }
        vf_assert(i == m.n, "P01,P03,P14: forward iteration yields every element");
    }
    static void backward(T const& t, L const& m) {
        int i = m.n;
        auto e = t.crend();
        for (auto it = t.crbegin(); it != e; ++it) {
            --i;
            vf_assert(i >= 0, "P14: reverse iteration yields no extra element");
            vf_assert(Cfg::eq(*it, m.a[i]), "P14: reverse iteration yields the list's elements in reverse order");
        }
        vf_assert(i == 0, "P14: reverse iteration yields every element");
    }
    static void derived(T const& t, L const& m) {
        if constexpr (Cfg::idx) {
            for (int i = 0; i < m.n; ++i) {
                vf_assert(Cfg::eq(t.at_index((typename Cfg::Ix)i), m.a[i]), "P09,P03,P18,P19,P20,P21: at_index(i) is the i-th element");
                auto it = t.find_index_const((typename Cfg::Ix)i);
                vf_assert(Cfg::eq(*it, m.a[i]), "P09,P19: find_index(i) refers to the i-th element");
                vf_assert((int64_t)t.order(it) == i, "P09,P19: order(find_index(i)) == i");
            }
            vf_assert((int64_t)t.order(t.cend()) == m.n, "P09,P19: order(end) is the size");
            int i = 0; for (auto it = t.cbegin(); i < m.n; ++it, ++i) vf_assert((int64_t)t.order(it) == i, "P09: order of the i-th iterator is i");
        }
        if constexpr (Cfg::sum) {
            using ST = typename Cfg::ST;
            ST s = 0; auto it = t.cbegin();
            for (int i = 0; i < m.n; ++i, ++it) {
                vf_assert((ST)t.sum_exclusive(it) == s, "P10,P03,P18,P19,P20,P21: sum_exclusive is the sum of the elements before");
                s = (ST)(s + Cfg::sv(m.a[i]));
                vf_assert((ST)t.sum_inclusive(it) == s, "P10,P03,P18,P19,P20,P21: sum_inclusive is the sum up to and including");
            }
            vf_assert((ST)t.sum() == s, "P10,P03,P18,P19,P20,P21: sum() is the sum of all elements");
            vf_assert((ST)t.sum_exclusive(t.cend()) == s, "P10: sum_exclusive(end) is the total");
        }
        if (m.n) {
            if constexpr (Cfg::mn) {
                auto r = best(m, 0, m.n, [](auto a, auto b) { return Cfg::minLess(a, b); }, [](V const& v) { return Cfg::minKey(v); });
                vf_assert(same([](auto a, auto b) { return Cfg::minLess(a, b); }, t.min(), r), "P12,P03,P18,P19,P20,P21: min() is the least element");
                auto it = t.min_element_const();
                vf_assert(same([](auto a, auto b) { return Cfg::minLess(a, b); }, Cfg::minKey(*it), r), "P12,P19: min_element() refers to a least element");
                vf_assert(it != t.cend() && it.valid(), "P12: min_element() is an element");
            }
            if constexpr (Cfg::mx) {
                auto r = best(m, 0, m.n, [](auto a, auto b) { return Cfg::maxLess(a, b); }, [](V const& v) { return Cfg::maxKey(v); });
                vf_assert(same([](auto a, auto b) { return Cfg::maxLess(a, b); }, t.max(), r), "P12,P03,P18,P19,P20,P21: max() is the greatest element");
                auto it = t.max_element_const();
                vf_assert(same([](auto a, auto b) { return Cfg::maxLess(a, b); }, Cfg::maxKey(*it), r), "P12,P19: max_element() refers to a greatest element");
                vf_assert(it != t.cend() && it.valid(), "P12: max_element() is an element");
            }
        }
    }
    // least element of m[i..j) under less, without forking
    template <typename Less, typename Key>
    static auto best(L const& m, int i, int j, Less less, Key key) {
        auto r = key(m.a[i]);
        for (int k = i + 1; k < j; ++k) { auto c = key(m.a[k]); r = (decltype(r))vf_ite(less(c, r), (uint64_t)c, (uint64_t)r); }
        return r;
    }
    template <typename Less, typename A, typename B> static bool same(Less less, A a, B b) { return !less(a, b) & !less(b, a); }
    static void all(T const& t, L const& m) { basic(t, m); derived(t, m); }
};
template <typename Cfg, typename T> void checkBasic(T const& t, typename Cfg::L const& m) { Check<Cfg, T>::basic(t, m); }
template <typename Cfg, typename T> void checkBackward(T const& t, typename Cfg::L const& m) { Check<Cfg, T>::backward(t, m); }
template <typename Cfg, typename T> void checkAll(T const& t, typename Cfg::L const& m) { Check<Cfg, T>::all(t, m); }

// a fixed array of iterators (they have no default constructor)
template <typename I, int N = 16> struct Its {
    alignas(I) unsigned char b[N * sizeof(I)];
    void put(int i, I const& x) { new (b + (size_t)i * sizeof(I)) I(x); }
    I& operator[](int i) { return *reinterpret_cast<I*>(b + (size_t)i * sizeof(I)); }
};
// ---- iterator at position i (end included)
template <typename T> auto itAt(T& t, int i) { auto it = t.begin(); for (int k = 0; k < i; ++k) ++it; return it; }
template <typename T> auto citAt(T const& t, int i) { auto it = t.cbegin(); for (int k = 0; k < i; ++k) ++it; return it; }
// reverse iterator whose element is the i-th of the list (i == -1: rend)
template <typename T> auto ritAt(T& t, int n, int i) { auto it = t.rbegin(); for (int k = n - 1; k > i; --k) ++it; return it; }
} // namespace api

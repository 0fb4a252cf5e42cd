// P04: element and key lifetimes.  Every element records its own address while it is alive.
#include "api.h"
using namespace api;
#ifndef CFG
#define CFG 0
#endif
#ifndef NMAX
#define NMAX 12
#endif
static int64_t alive_;
struct Tr {
    uint64_t v; Tr const* self;
    void ok() const { vf_assert(self == this, "P04: only living elements are read, assigned or destroyed"); }
    Tr() : v(0), self(this) { ++alive_; }
    explicit Tr(uint64_t x) : v(x), self(this) { ++alive_; }
    Tr(Tr const& o) : v(o.v), self(this) { o.ok(); ++alive_; }
    Tr(Tr&& o) : v(o.v), self(this) { o.ok(); o.v = 0xDEAD; ++alive_; }
    Tr& operator=(Tr const& o) { ok(); o.ok(); v = o.v; return *this; }
    Tr& operator=(Tr&& o) { ok(); o.ok(); uint64_t x = o.v; o.v = 0xDEAD; v = x; return *this; }
    ~Tr() { ok(); self = nullptr; --alive_; }
    friend bool operator<(Tr const& a, Tr const& b) { a.ok(); b.ok(); return a.v < b.v; }
};
#if CFG == 0   // plain sequence; leaf capacity 3, internal capacity 4
using V = Tr; static constexpr int keysPerChild = 0, perElem = 1; static constexpr bool map = false;
using Tree = BppTree<Tr, 56, 56, 4>::mixins<IndexedBuilder<uint32_t>>;
#elif CFG == 1 // with element copies kept as minimum and maximum of every child
using V = Tr; static constexpr int keysPerChild = 2, perElem = 1; static constexpr bool map = false;
using Tree = BppTree<Tr, 72, 184, 4>::mixins<MinBuilder<>, IndexedBuilder<uint32_t>, MaxBuilder<>>;
#elif CFG == 2 // map with non-trivial keys and values
using V = std::pair<Tr, Tr>; static constexpr int keysPerChild = 1, perElem = 2; static constexpr bool map = true;
using Tree = BppTree<V, 104, 120, 4>::mixins<OrderedBuilder<>, IndexedBuilder<uint32_t>>;
#elif CFG == 3 // the same with binary search and the library's nothrow node functions
using V = std::pair<Tr, Tr>; static constexpr int keysPerChild = 1, perElem = 2; static constexpr bool map = true;
using Tree = BppTree<V, 136, 184, 4, true>::mixins<IndexedBuilder<uint32_t>, OrderedBuilder<>::binary_search<true>>;
#endif
using T = Tree::Transient; using P = Tree::Persistent;
struct L { uint64_t a[64]{}; int n = 0; void insert(int i, uint64_t v) { if (n >= 64) vf_kill(); for (int k = n; k > i; --k) a[k] = a[k - 1]; a[i] = v; ++n; } void erase(int i) { --n; for (int k = i; k < n; ++k) a[k] = a[k + 1]; } };
// the value stored at a position; maps are kept ordered by using keys that lie between their neighbours
template <typename X> static uint64_t val(X const& x) { if constexpr (map) { x.first.ok(); x.second.ok(); return x.first.v; } else { x.ok(); return x.v; } }
static uint64_t between(L const& m, int i) { uint64_t lo = i > 0 ? m.a[i - 1] : 0, hi = i < m.n ? m.a[i] : lo + (1ull << 50); return lo + (hi - lo) / 2; }
template <bool mp, typename VV = V> static VV mk(uint64_t v) { if constexpr (mp) return VV(Tr(v), Tr(v + 1)); else return VV(v); }
// what an element is constructed from in place
template <int kpc> static auto raw(uint32_t s) { if constexpr (kpc == 0) return s; else return Tr(s); }
template <bool mp, typename TT> static void ins(TT& t, L& m, int i, uint32_t s) {
    if constexpr (mp) { uint64_t k = between(m, i); (void)s; int how = choose(3); if (how == 0) t.insert_or_assign(mk<mp>(k)); else if (how == 1) { V v = mk<mp>(k); t.insert_v(v); } else t.insert_or_assign(Tr(k), Tr(k + 1)); m.insert(i, k); }
    else { int how = choose(3); if (how == 0) t.insert_index((uint32_t)i, Tr(s)); else if (how == 1) { Tr x(s); t.insert_index((uint32_t)i, x); } else t.insert_index((uint32_t)i, raw<keysPerChild>(s)); m.insert(i, s); }
}
// without case splits, for building
template <bool mp, typename TT> static void ins0(TT& t, L& m, int i, uint32_t s) {
    if constexpr (mp) { uint64_t k = between(m, i); t.insert_or_assign(mk<mp>(k)); m.insert(i, k); } else { t.insert_index((uint32_t)i, raw<keysPerChild>(s)); m.insert(i, s); }
}
template <bool mp, typename TT> static void edit(TT& t, L& m, uint32_t s) {
    switch (choose(9)) {
    case 0: ins<mp>(t, m, choose(m.n + 1), s); break;
    case 1: { int i = choose(m.n); t.erase_index((uint32_t)i); m.erase(i); break; }
    case 2: { int i = choose(m.n); if constexpr (mp) { V v = mk<mp>(m.a[i]); t.assign_index((uint32_t)i, v); } else { Tr v(s); t.assign_index((uint32_t)i, v); m.a[i] = s; } break; }
    case 3: { int i = choose(m.n); if constexpr (mp) t.assign_index((uint32_t)i, Tr(m.a[i]), Tr(9)); else { t.assign_index((uint32_t)i, raw<keysPerChild>(s)); m.a[i] = s; } break; }
    case 4: { int i = choose(m.n); t.update_index((uint32_t)i, [&](V const& x) { val(x); return mk<mp>(mp ? m.a[i] : s); }); if (!mp) m.a[i] = s; break; }
    case 5: { int i = choose(m.n); if constexpr (mp) { Tr k(m.a[i]); if (choose(2)) t.update_key(k, [&](Tr const& x) { x.ok(); return Tr(4); }); else t.erase_key(k), m.erase(i); } else { auto it = t.find_index((uint32_t)i); *it = Tr(s); m.a[i] = s; } break; }
    case 6: { if (!m.n) vf_kill(); V v = t.pop_back(); vf_assert(val(v) == m.a[m.n - 1], "P04: a popped element is intact"); m.erase(m.n - 1); break; }
    case 7: { if (!m.n) vf_kill(); V v = t.pop_front(); vf_assert(val(v) == m.a[0], "P04: a popped element is intact"); m.erase(0); break; }
    default: t.clear(); m.n = 0;
    }
}
template <typename TT> static void check(TT const& t, L const& m) {
    int i = 0; for (auto it = t.cbegin(), e = t.cend(); it != e; ++it, ++i) { vf_assert(i < m.n, "P04: the tree holds no extra element"); vf_assert(val(*it) == m.a[i], "P04: every stored element is alive and intact"); }
    vf_assert(i == m.n, "P04: the tree holds every element");
    if constexpr (keysPerChild == 2) if (m.n) { t.min().ok(); t.max().ok(); }
}
template <typename TT> static int addrs(TT const& t, void const** a, int n) { for (auto it = t.cbegin(), e = t.cend(); it != e; ++it) { void const* p = &*it; bool dup = false; for (int k = 0; k < n && !dup; ++k) dup = a[k] == p; if (!dup) a[n++] = p; } return n; }
// an unshared tree of n elements: one key per child and key-keeping extension, one object per element
static void counted(T const& t, int n, uint64_t base) { int64_t nodes = (int64_t)(vf_live() - base); (void)t; vf_assert(alive_ == (int64_t)n * perElem + (nodes - 1) * keysPerChild, "P04: exactly the stored elements and keys are alive"); }
static void build(T& t, L& m, int style, int n) {
    uint32_t s = 5u + (uint32_t)n; uint32_t c = 0;
    while (m.n < n) ins0<map>(t, m, style == 0 ? m.n : style == 1 ? 0 : style == 2 ? m.n / 2 : rnd(s, m.n + 1), scramble(c++));
    if (style == 3) { for (int k = 0; k < n / 2; ++k) { int i = rnd(s, m.n); t.erase_index((uint32_t)i); m.erase(i); } while (m.n < n) ins0<map>(t, m, rnd(s, m.n + 1), scramble(c++)); }
}
VF_UNIT(tedit) {
    uint64_t base = vf_live(); alive_ = 0;
    {
        int style = choose(4), n = choose(NMAX + 1); vf_part();
        T t; L m; build(t, m, style, n); counted(t, m.n, base);
        int q = choose(3); edit<map>(t, m, q == 0 ? 1u : q == 1 ? 55u : 1000u);
        check(t, m); counted(t, m.n, base);
    }
    vf_assert(alive_ == 0, "P04: every element is destroyed when the last tree is gone");
    vf_assert(vf_live() == base, "P05: every node is freed when the last tree is gone");
}
VF_UNIT(tshare) {
    uint64_t base = vf_live(); alive_ = 0;
    {
        int style = choose(4), n = choose(NMAX + 1), mode = choose(3); vf_part();
        T t; L m; build(t, m, style, n); L m0 = m;
        {
            P p = t.persistent();
            if (mode == 1) { uint32_t s = 3; for (int k = 0; k < 2 && m.n; ++k) { int i = rnd(s, m.n); t.erase_index((uint32_t)i); m.erase(i); ins0<map>(t, m, rnd(s, m.n + 1), 70u + (uint32_t)k); } }
            if (mode == 2) { T u(t); L mu = m; edit<map>(u, mu, 60); check(u, mu); check(t, m); check(p, m0); }
            else edit<map>(t, m, 60);
            check(t, m); check(p, m0);
            if constexpr (keysPerChild == 0) { void const* a[128]; int k = addrs(t, a, 0); k = addrs(p, a, k); vf_assert(alive_ == (int64_t)k * perElem, "P04: exactly the elements of the live trees are alive"); }
        }
        check(t, m); counted(t, m.n, base);
    }
    vf_assert(alive_ == 0, "P04: every element is destroyed when the last tree is gone");
    vf_assert(vf_live() == base, "P05: every node is freed when the last tree is gone");
}
VF_UNIT(thist) {
    uint64_t base = vf_live(); alive_ = 0;
    {
        int seed = choose(8), style = choose(4); static const int ns[] = {8, 20, 34}; int n = ns[choose(3)]; vf_part();
        T t; L m; build(t, m, style, n); uint32_t s = (uint32_t)seed * 17u + 3u; P p = t.persistent(); L mp = m; int bias = seed % 3;
        for (int k = 0; k < 24; ++k) {
            int r = rnd(s, 10); bool er = bias == 0 ? r < 5 : bias == 1 ? r < 8 : r < 3;
            if (r == 9) { p = t.persistent(); mp = m; } else if (er && m.n) { int i = rnd(s, m.n); t.erase_index((uint32_t)i); m.erase(i); }
            else if (r == 8 && m.n) { int i = rnd(s, m.n); t.assign_index((uint32_t)i, mk<map>(m.a[i])); } else ins0<map>(t, m, rnd(s, m.n + 1), scramble((uint32_t)k));
            if (k % 6 == 5) check(p, mp);
        }
        check(t, m); check(p, mp); p = P(); check(t, m); { P q = t.persistent(); t = T(); check(q, m); }
    }
    vf_assert(alive_ == 0, "P04: every element is destroyed when the last tree is gone");
    vf_assert(vf_live() == base, "P05: every node is freed when the last tree is gone");
}

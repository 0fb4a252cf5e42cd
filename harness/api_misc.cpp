// aliasing (P22), copies and conversions (P03), structural sharing (P06), occupancy (P02)
#include "cfg_seq.h"
using namespace api;
#ifndef NMAX
#define NMAX 12
#endif
static int pickN() {
#ifdef NLIST
    static const int ns[] = {NLIST}; return ns[choose((int)(sizeof ns / sizeof ns[0]))];
#else
    return choose(NMAX + 1);
#endif
}
template <typename T> static auto fpos(T& t, int p) { auto it = t.begin(); for (int k = 0; k < p; ++k) ++it; return it; }
// P22: arguments that refer to an element of the tree
VF_UNIT(alias) {
    uint64_t live0 = vf_live();
    {
        int style = choose(4), n = pickN(); bool snap = choose(2); int o = choose(13); vf_part(); if (!n) vf_kill();
        T t; L m; build(t, m, style, n); P p = snap ? t.persistent() : P(); L m0 = m;
        int j = choose(n); auto src = citAt(t, j); V const& r = *src; V c = m.a[j];
        switch (o) {
        case 0: { int i = choose(n + 1); auto it = fpos(t, i); t.insert(it, r); m.insert(i, c); vf_assert(Cfg::eq(it.get(), c), "P22: the inserted element is a copy of the argument"); break; }
        case 1: { int i = choose(n); auto it = fpos(t, i); t.assign(it, r); m.a[i] = c; break; }
        case 2: t.push_back(r); m.insert(m.n, c); break;
        case 3: t.push_front(r); m.insert(0, c); break;
        case 4: { int i = choose(n); auto it = fpos(t, i); t.update(it, [&](V const&) -> V const& { return r; }); m.a[i] = c; break; }
        case 5: { int i = choose(n); auto a = fpos(t, i), b = fpos(t, j); *a = *b; m.a[i] = c; break; }
        case 6: { int i = choose(n); auto a = fpos(t, i), b = fpos(t, j); swap(*a, *b); V x = m.a[i]; m.a[i] = m.a[j]; m.a[j] = x; break; }
        case 7: t.emplace_back(r); m.insert(m.n, c); break;
        case 8: t.emplace_front(r); m.insert(0, c); break;
        case 9: { P q = [&] { P b = t.persistent(); auto it = citAt(b, j); return b.push_back(*it); }(); L mq = m; mq.insert(mq.n, c); checkAll<Cfg>(q, mq); break; }
        case 10: { int i = choose(n + 1); P b = t.persistent(); auto it = citAt(b, i); auto s2 = citAt(b, j); P q = b.insert(it, *s2); L mq = m; mq.insert(i, c); checkAll<Cfg>(q, mq); break; }
        case 11: if constexpr (Cfg::idx) insIdx(t, m, r, c, n); else vf_kill(); break;
        default: if constexpr (Cfg::idx) asgIdx2(t, m, j, c, n); else vf_kill(); break;
        }
        checkAll<Cfg>(t, m); if (snap) checkAll<Cfg>(p, m0);
    }
    vf_assert(vf_live() == live0, "P05: every node is freed when the last tree is gone");
}
// P03: copies, moves and conversions
VF_UNIT(copies) {
    uint64_t live0 = vf_live();
    {
        int style = choose(4), n = pickN(), o = choose(9); vf_part();
        T t; L m; build(t, m, style, n); V v = Cfg::sym(); L m0 = m;
        auto edit = [&](T& x, L& mx) { int e = choose(3); if (e == 0) { int i = choose(mx.n); asg(x, i, v); mx.a[i] = v; } else if (e == 1) { int i = choose(mx.n + 1); ins(x, i, v); mx.insert(i, v); } else { int i = choose(mx.n); era(x, i); mx.erase(i); } };
        auto edit2 = [&](T& x, L& mx) { uint32_t q = 31u + (uint32_t)mx.n; for (int k = 0; k < 3; ++k) { V w = Cfg::con(60u + (uint32_t)k); int i = rnd(q, mx.n + 1); ins(x, i, w); mx.insert(i, w); i = rnd(q, mx.n); asg(x, i, w); mx.a[i] = w; if (k) { i = rnd(q, mx.n); era(x, i); mx.erase(i); } } };
        if (o == 0) { T u(t); edit(t, m); checkBasic<Cfg>(t, m); checkAll<Cfg>(u, m0); }
        else if (o == 1) { T u(t); edit(u, m0); checkAll<Cfg>(u, m0); checkAll<Cfg>(t, m); }
        else if (o == 2) { T u; u.push_back(v); u = t; edit(t, m); checkAll<Cfg>(u, m0); checkBasic<Cfg>(t, m); L mu = m0; edit2(u, mu); checkBasic<Cfg>(u, mu); checkAll<Cfg>(t, m); }
        else if (o == 3) { T u(static_cast<T&&>(t)); edit(u, m); checkAll<Cfg>(u, m); }
        else if (o == 4) { T u; u.push_back(v); u = static_cast<T&&>(t); edit(u, m); checkAll<Cfg>(u, m); }
        else if (o == 5) { P p = static_cast<T&&>(t).persistent(); P q(p); T u = p.transient(); edit(u, m); checkAll<Cfg>(p, m0); checkAll<Cfg>(q, m0); checkAll<Cfg>(u, m); }
        else if (o == 6) { P p = t.persistent(); T u = static_cast<P&&>(p).transient(); edit(u, m); checkAll<Cfg>(u, m); checkAll<Cfg>(t, m0); edit2(t, m0); checkBasic<Cfg>(t, m0); checkAll<Cfg>(u, m); }
        else if (o == 7) { T const& c = t; T u(c); T w(u); L mu = m, mw = m; edit(u, mu); edit2(w, mw); edit2(t, m); checkBasic<Cfg>(u, mu); checkBasic<Cfg>(w, mw); checkBasic<Cfg>(t, m); }
        else { P p = t.persistent(); P q = p; p = q.push_back(v); L mp = m0; mp.insert(mp.n, v); edit(t, m); checkAll<Cfg>(p, mp); checkAll<Cfg>(q, m0); q = p; checkBasic<Cfg>(q, mp); p = P(); checkAll<Cfg>(q, mp); checkBasic<Cfg>(t, m); }
    }
    vf_assert(vf_live() == live0, "P05: every node is freed when the last tree is gone");
}
// P06, P05: allocations and releases of one edit
VF_UNIT(sharing) {
    uint64_t live0 = vf_live();
    {
        int style = choose(4), n = pickN(), o = choose(6); vf_part();
        T t; L m; build(t, m, style, n); V v = Cfg::con(7);
        uint64_t d = t.depth();
        if (o == 0) { // an edit of an immutable tree
            P p = t.persistent(); uint64_t a0 = vf_allocs(), l0 = vf_live(); uint64_t e = (uint64_t)choose(3);
            { P q = e == 0 ? [&] { int i = choose(n + 1); auto it = citAt(p, i); a0 = vf_allocs(); return p.insert(it, v); }() : e == 1 ? [&] { int i = choose(n); auto it = citAt(p, i); a0 = vf_allocs(); return p.erase(it); }() : [&] { int i = choose(n); auto it = citAt(p, i); a0 = vf_allocs(); return p.assign(it, v); }();
              uint64_t got = vf_allocs() - a0; vf_note("allocs", got); vf_note("depth", d);
              vf_assert(got <= 2 * d + 1, "P06: an edit of an immutable tree allocates at most two nodes per level plus a new root");
              vf_assert(vf_live() - l0 <= 2 * d + 1, "P06: an edit of an immutable tree keeps at most two new nodes per level plus a new root");
              if (e == 2) vf_assert(got == d, "P06: replacing an element copies exactly the path to it");
              if (e == 1) vf_assert(got <= d + 1, "P06: erasing copies only the path to the element"); }
            vf_assert(vf_live() == l0, "P05: nodes of a dropped edit are freed at once");
        } else if (o == 1) { // a mutable tree that shares nothing: replace and erase allocate nothing, insert only for a split
            uint64_t a0, l0 = vf_live(); int e = choose(4);
            if (e == 0) { int i = choose(n); auto it = fpos(t, i); a0 = vf_allocs(); t.assign(it, v); vf_assert(vf_allocs() == a0, "P06: replacing an element of an unshared tree allocates nothing"); }
            else if (e == 1) { int i = choose(n); auto it = fpos(t, i); a0 = vf_allocs(); t.erase(it); vf_assert(vf_allocs() == a0 || n == 1, "P06: erasing from an unshared tree allocates nothing unless it becomes empty"); vf_assert(vf_allocs() - a0 <= 1, "P06: erasing the last element allocates at most one leaf"); }
            else if (e == 2) { int i = choose(n + 1); auto it = fpos(t, i); a0 = vf_allocs(); t.insert(it, v); vf_assert(vf_allocs() - a0 == vf_live() - l0, "P06: inserting into an unshared tree allocates only nodes that stay"); vf_assert(vf_allocs() - a0 <= d + 1, "P06: inserting into an unshared tree allocates at most one node per level plus a root"); if (t.depth() > d) vf_assert(vf_allocs() - a0 == d + 1, "P06: the tree grows exactly when every level splits"); }
            else { int i = choose(n); auto it = fpos(t, i); a0 = vf_allocs(); t.update(it, [&](V const&) { return v; }); vf_assert(vf_allocs() == a0, "P06: updating an element of an unshared tree allocates nothing"); }
        } else if (o == 2) { // editing again where the path is already copied
            P p = t.persistent(); int i = choose(n); auto it = fpos(t, i); uint64_t a0 = vf_allocs(); t.assign(it, v); vf_assert(vf_allocs() - a0 == d, "P06: the first edit after a snapshot copies the path");
            a0 = vf_allocs(); auto i2 = fpos(t, i); t.assign(i2, v); vf_assert(vf_allocs() == a0, "P06: editing again at the same position copies nothing");
            t.update(it, [&](V const& x) { return x; }); vf_assert(vf_allocs() == a0, "P06: updating again at the same position copies nothing");
            int j = choose(n); auto i3 = fpos(t, j); a0 = vf_allocs(); t.assign(i3, v); vf_assert(vf_allocs() - a0 < d || d == 1 ? vf_allocs() - a0 < d : false, "P06: a further edit copies only what is still shared");
        } else if (o == 3) { // memory of the copied path is released as soon as nothing can reach it
            uint64_t l0 = vf_live(); { P p = t.persistent(); vf_assert(vf_live() == l0, "P06: taking a snapshot copies nothing"); int i = choose(n); asg(t, i, v); vf_assert(vf_live() == l0 + d, "P06: the first edit after a snapshot copies the path"); }
            vf_assert(vf_live() == l0, "P05: nodes only a dropped snapshot could reach are freed at once");
        } else if (o == 4) { // conversions and copies copy nothing
            uint64_t a0 = vf_allocs(); P p = t.persistent(); T u = p.transient(); P q = static_cast<T&&>(u).persistent(); T w = static_cast<P&&>(q).transient(); T x(w); P y(p); vf_assert(vf_allocs() == a0, "P06: conversions and copies of trees allocate nothing");
        } else { // clear and drop
            P p = t.persistent(); uint64_t l0 = vf_live(); t.clear(); vf_assert(vf_live() <= l0 + 1, "P05: clear keeps only the empty leaf"); p = P(); vf_assert(vf_live() <= live0 + 2, "P05: everything is freed when the last snapshot is replaced"); checkBasic<Cfg>(t, L());
        }
    }
    vf_assert(vf_live() == live0, "P05: every node is freed when the last tree is gone");
}
// P02: leaf sizes are visible as runs of adjacent addresses, the node count as live heap objects
struct Shape { int leaves = 0; int len[64]; int cap = 0; };
template <typename T> static void shape(T const& t, int n, Shape& s) {
    V const* prev = nullptr; auto it = t.cbegin();
    for (int i = 0; i < n; ++i, ++it) { V const* p = &*it; if (s.leaves && p == prev + 1) ++s.len[s.leaves - 1]; else s.len[s.leaves++] = 1; prev = p; }
}
static int leafCap() { T t; int c = 0; while (t.depth() == 1) { t.push_back(Cfg::con(0)); ++c; } return c - 1; }
static int intCap(int lc) { T t; int c = 0; while (t.depth() <= 2) { t.push_back(Cfg::con(0)); ++c; } return (c - 1) / lc; }
VF_UNIT(occupancy) {
    uint64_t live0 = vf_live();
    {
        int lc = leafCap(), ic = intCap(lc); vf_cover("capacities measured");
        int style = choose(6), n = 1 + choose(style == 0 ? 52 : 40); vf_part(); bool snap = style >= 4 || (style >= 2 && choose(2)); uint64_t base = vf_live();
        T t; L m; uint32_t s = 4u + (uint32_t)n;
        for (int i = 0; i < n; ++i) { int p = style == 0 ? i : style == 1 ? 0 : style == 2 ? i / 2 : style == 3 ? (i * 7 + 3) % (i + 1) : style == 4 ? rnd(s, i + 1) : i - i / 4; if (snap) { P q = t.persistent(); ins(t, p, Cfg::con((uint32_t)i)); } else ins(t, p, Cfg::con((uint32_t)i)); m.insert(p, Cfg::con((uint32_t)i)); }
        Shape sh; shape(t, n, sh);
        for (int i = 0; i < sh.leaves; ++i) {
            vf_assert(sh.len[i] <= lc, "P02: no leaf is above its capacity");
            if (i + 1 < sh.leaves) { vf_assert(sh.len[i] * 2 >= lc, "P02: after insertions only, every leaf off the right edge is at least half full"); if (style == 0) vf_assert(sh.len[i] == lc, "P02: appending leaves completely full leaves behind"); }
        }
        // level by level: a level of k nodes has between ceil(k/ic) and floor((k-1)/ceil(ic/2))+1 parents
        uint64_t nodes = vf_live() - base; int depth = (int)t.depth(); int lo = sh.leaves, hi = sh.leaves; uint64_t minN = (uint64_t)sh.leaves, maxN = (uint64_t)sh.leaves; int half = (ic + 1) / 2;
        for (int l = 2; l <= depth; ++l) { lo = (lo + ic - 1) / ic; hi = (hi - 1) / half + 1; if (l == depth) lo = hi = 1; minN += (uint64_t)lo; maxN += (uint64_t)hi; }
        vf_assert(nodes >= minN && nodes <= maxN, "P02: after insertions only, internal nodes off the right edge are at least half full and none above capacity");
        if (style == 0) { int k = sh.leaves; uint64_t exp = (uint64_t)k; int dd = 1; while (k > 1) { k = (k + ic - 1) / ic; exp += (uint64_t)k; ++dd; } vf_assert(nodes == exp && depth == dd, "P02: appending leaves completely full internal nodes behind"); }
        { uint64_t cap = 1; int dmax = 1; int k = sh.leaves; while (k > 1) { k = (k - 1) / half + 1; ++dmax; } (void)cap; vf_assert(depth <= dmax, "P02: depth grows logarithmically"); }
    }
    vf_assert(vf_live() == live0, "P05: every node is freed when the last tree is gone");
}
// P02: after any history no node is empty or too full, and depth is consistent with the number of nodes
VF_UNIT(nonempty) {
    uint64_t live0 = vf_live();
    {
        int lc = leafCap(), ic = intCap(lc); int seed = choose(12), n = 4 + choose(5) * 9, style = choose(4); vf_part(); uint64_t base = vf_live();
        T t; L m; build(t, m, style, n); uint32_t s = (uint32_t)seed * 977u + 5u;
        for (int k = 0; k < 60; ++k) {
            int r = rnd(s, 8); bool er = seed % 3 == 0 ? r < 6 : seed % 3 == 1 ? r < 4 : r < 5;
            int at = rnd(s, 3);
            if (er && m.n) { int i = at == 0 ? 0 : at == 1 ? m.n - 1 : rnd(s, m.n); era(t, i); m.erase(i); } else if (m.n < 50) { int i = at == 0 ? 0 : at == 1 ? m.n : rnd(s, m.n + 1); V v = Cfg::con((uint32_t)k); ins(t, i, v); m.insert(i, v); }
            Shape sh; shape(t, m.n, sh); uint64_t nodes = vf_live() - base; int depth = (int)t.depth();
            for (int i = 0; i < sh.leaves; ++i) vf_assert(sh.len[i] >= 1 && sh.len[i] <= lc, "P02: no leaf is empty or above its capacity");
            int leaves = m.n ? sh.leaves : 1;
            // every internal level is non-empty, at most as wide as the level below, and wide enough for it; the root has one node and at least two children
            uint64_t lo = (uint64_t)leaves, mx = (uint64_t)leaves; int a = leaves, b = leaves; for (int l = 2; l <= depth; ++l) { a = (a + ic - 1) / ic; if (l == depth) { a = b = 1; } lo += (uint64_t)a; mx += (uint64_t)b; }
            vf_assert(nodes >= lo && nodes <= mx, "P02: no reachable node is empty, none is above capacity, and all leaves are at the same depth");
            if (depth > 1) vf_assert(leaves >= 2, "P02: a root that is not a leaf has at least two children");
            if (!m.n) vf_assert(depth == 1 && nodes == 1, "P02: an empty tree is a single leaf");
        }
        checkBasic<Cfg>(t, m);
    }
    vf_assert(vf_live() == live0, "P05: every node is freed when the last tree is gone");
}

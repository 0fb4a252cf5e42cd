#include "cfg_seq.h"
using namespace api;
#ifndef NMAX
#define NMAX 14
#endif
// ---- one edit of a mutable tree, at every position
template <typename T> static int editT(T& t, L& m, V const& v) {
    int o = choose(10);
    switch (o) {
    case 0: { int i = choose(m.n + 1); auto it = itAt(t, i); t.insert(it, v); m.insert(i, v); vf_assert(Cfg::eq(it.get(), m.a[i]), "P16: after insert the iterator refers to the new element"); return i; }
    case 1: { int i = choose(m.n); auto it = itAt(t, i); t.erase(it); m.erase(i); auto e = itAt(t, i); vf_assert(it == e, "P16: after erase the iterator is at the following element"); return i; }
    case 2: { int i = choose(m.n); auto it = itAt(t, i); t.assign(it, v); m.a[i] = v; return i; }
    case 3: { int i = choose(m.n); auto it = itAt(t, i); V old = m.a[i]; t.update(it, [&](V const& x) { vf_assert(Cfg::eq(x, old), "P01: the updater sees the current element"); return v; }); m.a[i] = v; return i; }
    case 4: t.push_back(v); m.insert(m.n, v); return m.n - 1;
    case 5: t.push_front(v); m.insert(0, v); return 0;
    case 6: { if (!m.n) vf_kill(); V r = t.pop_back(); vf_assert(Cfg::eq(r, m.a[m.n - 1]), "P01: pop_back returns the last element"); m.erase(m.n - 1); return m.n; }
    case 7: { if (!m.n) vf_kill(); V r = t.pop_front(); vf_assert(Cfg::eq(r, m.a[0]), "P01: pop_front returns the first element"); m.erase(0); return 0; }
    case 8: t.clear(); m.n = 0; return 0;
    default: if constexpr (Cfg::idx) {
        switch (choose(4)) {
        case 0: { int i = choose(m.n + 1); t.insert_index((Cfg::Ix)i, v); m.insert(i, v); return i; }
        case 1: { int i = choose(m.n); t.erase_index((Cfg::Ix)i); m.erase(i); return i; }
        case 2: { int i = choose(m.n); t.assign_index((Cfg::Ix)i, v); m.a[i] = v; return i; }
        default: { int i = choose(m.n); t.update_index((Cfg::Ix)i, [&](V const&) { return v; }); m.a[i] = v; return i; } }
    } else vf_kill(); }
    return 0;
}
// ---- one edit of an immutable tree
template <typename P> static P editP(P const& p, L& m, V const& v) {
    int o = choose(9);
    switch (o) {
    case 0: { int i = choose(m.n + 1); auto it = citAt(p, i); m.insert(i, v); return p.insert(it, v); }
    case 1: { int i = choose(m.n); auto it = citAt(p, i); m.erase(i); return p.erase(it); }
    case 2: { int i = choose(m.n); auto it = citAt(p, i); m.a[i] = v; return p.assign(it, v); }
    case 3: { int i = choose(m.n); auto it = citAt(p, i); m.a[i] = v; return p.update(it, [&](V const&) { return v; }); }
    case 4: m.insert(m.n, v); return p.push_back(v);
    case 5: m.insert(0, v); return p.push_front(v);
    case 6: if (!m.n) vf_kill(); m.erase(m.n - 1); return p.pop_back();
    case 7: if (!m.n) vf_kill(); m.erase(0); return p.pop_front();
    default: if constexpr (Cfg::idx) {
        switch (choose(4)) {
        case 0: { int i = choose(m.n + 1); m.insert(i, v); return p.insert_index((Cfg::Ix)i, v); }
        case 1: { int i = choose(m.n); m.erase(i); return p.erase_index((Cfg::Ix)i); }
        case 2: { int i = choose(m.n); m.a[i] = v; return p.assign_index((Cfg::Ix)i, v); }
        default: { int i = choose(m.n); m.a[i] = v; return p.update_index((Cfg::Ix)i, [&](V const&) { return v; }); } }
    } else vf_kill(); }
    return p;
}
static int pickN() {
#ifdef NLIST
    static const int ns[] = {NLIST}; return ns[choose((int)(sizeof ns / sizeof ns[0]))];
#else
    return choose(NMAX + 1);
#endif
}
#ifndef STYLES
#define STYLES 4
#endif
// every edit at every position of a mutable tree that shares nothing
VF_UNIT(edit) {
    uint64_t live0 = vf_live();
    {
        int style = choose(STYLES), n = pickN(); vf_part();
        T t; L m; build(t, m, style, n);
        editT(t, m, Cfg::sym());
        checkAll<Cfg>(t, m);
        checkBackward<Cfg>(t, m);
    }
    vf_assert(vf_live() == live0, "P05: every node is freed when the last tree is gone");
}
// every edit of an immutable tree, and of a mutable tree with a snapshot outstanding; both sides are checked
VF_UNIT(share) {
    uint64_t live0 = vf_live();
    {
        int style = choose(STYLES), n = pickN(), mode = choose(4); vf_part();
        T t; L m; build(t, m, style, n);
        L m0 = m; V v = Cfg::sym();
        if (mode == 0) { P p = t.persistent(); P q = editP(p, m, v); checkAll<Cfg>(q, m); checkAll<Cfg>(p, m0); checkBasic<Cfg>(t, m0); }
        else if (mode == 1) { P p = t.persistent(); editT(t, m, v); checkAll<Cfg>(t, m); checkAll<Cfg>(p, m0); }
        else if (mode == 2) { // snapshot, some edits that un-share part of the tree, then the edit
            P p = t.persistent(); uint32_t s = 99u + (uint32_t)n; for (int k = 0; k < 2 && m.n; ++k) { int i = rnd(s, m.n); V w = Cfg::con(200u + (uint32_t)k); asg(t, i, w); m.a[i] = w; i = rnd(s, m.n + 1); ins(t, i, w); m.insert(i, w); }
            L m1 = m; P q = t.persistent(); editT(t, m, v); checkAll<Cfg>(t, m); checkBasic<Cfg>(q, m1); checkBasic<Cfg>(p, m0); }
        else { // a mutable tree made from an immutable one, which then goes away
            T u = [&] { P p = t.persistent(); return p.transient(); }(); editT(u, m, v); checkAll<Cfg>(u, m); checkAll<Cfg>(t, m0); }
    }
    vf_assert(vf_live() == live0, "P05: every node is freed when the last tree is gone");
}
// long concrete histories on deeper trees, checked after every step; the last value is symbolic
VF_UNIT(hist) {
    uint64_t live0 = vf_live();
    {
        static const int ns[] = {24, 31, 40, 46}; uint32_t seed = (uint32_t)choose(6); int n = ns[choose(4)], style = choose(4); vf_part();
        T t; L m; build(t, m, style, n); uint32_t s = seed * 7919u + 17u;
        P p = t.persistent(); L mp = m; bool held = false;
        int bias = (int)(seed % 3); // 0 balanced, 1 shrinking, 2 growing
        for (int k = 0; k < 24; ++k) {
            V v = Cfg::con(300u + (uint32_t)k); int r = rnd(s, 10); bool grow = bias == 0 ? r < 4 : bias == 1 ? r < 2 : r < 6;
            if (r == 9) { p = t.persistent(); mp = m; held = true; }
            else if (r == 8 && m.n) { int i = rnd(s, m.n); asg(t, i, v); m.a[i] = v; }
            else if (grow && m.n < 56) { int i = rnd(s, m.n + 1); ins(t, i, v); m.insert(i, v); }
            else if (m.n) { int i = rnd(s, m.n); era(t, i); m.erase(i); }
            if (k % 4 == 3) checkBasic<Cfg>(t, m);
            if (held && k % 8 == 7) checkBasic<Cfg>(p, mp);
        }
        V v = Cfg::sym(); if (m.n) { int i = rnd(s, m.n); asg(t, i, v); m.a[i] = v; }
        checkAll<Cfg>(t, m); checkAll<Cfg>(p, mp); checkBackward<Cfg>(t, m);
    }
    vf_assert(vf_live() == live0, "P05: every node is freed when the last tree is gone");
}
// erase everything in different orders
VF_UNIT(drain) {
    uint64_t live0 = vf_live();
    {
        int style = choose(STYLES), order = choose(5); static const int ns[] = {7, 16, 29, 41}; int n = ns[choose(4)]; bool snap = choose(2); vf_part();
        T t; L m; build(t, m, style, n); uint32_t s = 5; L mp = m; P p = snap ? t.persistent() : P();
        while (m.n) {
            int i = order == 0 ? 0 : order == 1 ? m.n - 1 : order == 2 ? m.n / 2 : order == 3 ? rnd(s, m.n) : (m.n * 2 / 3);
            if (order == 0 && (m.n & 1)) { t.pop_front(); } else if (order == 1 && (m.n & 1)) { t.pop_back(); } else era(t, i);
            m.erase(i);
            if (m.n < 8 || m.n % 3 == 0) checkAll<Cfg>(t, m); else checkBasic<Cfg>(t, m);
        }
        V v = Cfg::sym(); t.push_back(v); m.insert(0, v); checkAll<Cfg>(t, m);
        if (snap) checkAll<Cfg>(p, mp);
    }
    vf_assert(vf_live() == live0, "P05: every node is freed when the last tree is gone");
}

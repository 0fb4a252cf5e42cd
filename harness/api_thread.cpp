// P23: threads that each use their own tree object share nodes.  Thread-modular frame contract: whatever one thread does
// with its own trees, it performs no non-atomic write to a node that was reachable by another tree when it started
// (vf_freeze_heap marks every such node), and a node dies only after a releasing decrement and an acquire (checked at
// every delete).  Every operation meets the contract on every path, so any interleaving of them is free of data races on
// the nodes.  Natively (replay) the other thread really runs, under ThreadSanitizer.
#ifdef ORD
#include "cfg_ord.h"
#else
#include "cfg_seq.h"
#endif
using namespace api;
#ifndef STYLES
#define STYLES 2
#endif
#ifndef NMAX
#define NMAX 10
#endif
#ifdef NLIST
static int pickN() { static const int ns[] = {NLIST}; return ns[choose((int)(sizeof ns / sizeof ns[0]))]; }
#else
static int pickN() { return choose(NMAX + 1); }
#endif
template <typename C, typename TT> static void reads(TT& t, int n) {
    auto const& c = t; uint64_t x = c.size() + c.depth() + (c.empty() ? 1 : 0); if (n) { (void)c.front(); (void)c.back(); }
    for (auto i = c.cbegin(), e = c.cend(); i != e; ++i) x += Cfg::eq(*i, *i);
    for (auto i = c.crbegin(), e = c.crend(); i != e; ++i) ++x;
    if constexpr (C::idx) { for (int i = 0; i < n; ++i) { auto it = t.find_index((typename C::Ix)i); x += (uint64_t)t.order(it); it += 1; } if (n) (void)t.at_index((typename C::Ix)(n / 2)); }
    if constexpr (C::sum) { x += (uint64_t)t.sum(); auto it = citAt(t, n / 2); x += (uint64_t)t.sum_exclusive(it); (void)t.sum_lower_bound(t.sum()); }
    if constexpr (C::mn) if (n) { (void)t.min(); (void)t.min_element(); auto a = citAt(t, n / 3), b = t.cend(); if (a != b) (void)t.min(a, b); }
    if constexpr (C::mx) if (n) { (void)t.max(); (void)t.max_element(); }
#ifdef ORD
    for (int i = 0; i < 3; ++i) { K k = C::conKey((uint32_t)(i * 2)); (void)t.contains(k); (void)t.find(k); (void)t.lower_bound(k); (void)t.upper_bound(k); }
#endif
    vf_note("reads", x);
}
template <typename C, typename TT> static void edit(TT& t, int n, int o) {
#ifdef ORD
    K k = C::symKey(); W w = symVal(); V v = C::mk(k, w);
    switch (o) {
    case 0: t.insert_or_assign(v); break;
    case 1: t.insert_v(v); break;
    case 2: { if (!n) vf_kill(); auto it = itAt(t, choose(n)); K e = C::key(it.get()); t.erase_key(e); break; }
    case 3: { if (!n) vf_kill(); auto it = itAt(t, choose(n)); K e = C::key(it.get()); t.update_key(e, [&](W const&) { return upd(e, w); }); break; }
    case 4: { if (!n) vf_kill(); auto it = itAt(t, choose(n)); V e = C::mk(C::key(it.get()), upd(C::key(it.get()), w)); t.assign_v(e); break; }
    case 5: { if (!n) vf_kill(); auto it = itAt(t, choose(n)); t.erase(it); break; }
    case 6: if (!n) vf_kill(); t.pop_back(); break;
    case 7: if (!n) vf_kill(); t.pop_front(); break;
    default: t.clear(); t.insert_or_assign(v); }
#else
    V v = C::sym();
    switch (o) {
    case 0: { auto it = itAt(t, choose(n + 1)); t.insert(it, v); break; }
    case 1: { if (!n) vf_kill(); auto it = itAt(t, choose(n)); t.erase(it); break; }
    case 2: { if (!n) vf_kill(); auto it = itAt(t, choose(n)); t.assign(it, v); t.assign(it, v); break; }
    case 3: { if (!n) vf_kill(); auto it = itAt(t, choose(n)); t.update(it, [&](V const&) { return v; }); break; }
    case 4: t.push_back(v); break;
    case 5: t.push_front(v); break;
    case 6: if (!n) vf_kill(); t.pop_back(); break;
    case 7: if (!n) vf_kill(); t.pop_front(); break;
    default: t.clear(); t.push_back(v); }
#endif
}
struct Arg { P* p; int n; };
static void other(void* x) { Arg* a = (Arg*)x; P p(*a->p); reads<Cfg>(p, a->n); T t = p.transient(); reads<Cfg>(t, a->n);
#ifdef ORD
    t.insert_or_assign(Cfg::mk(Cfg::conKey(1), conVal(1)));
#else
    t.push_back(Cfg::con(1)); t.push_front(Cfg::con(2));
#endif
    reads<Cfg>(t, (int)t.size()); P q = t.persistent(); reads<Cfg>(q, (int)q.size()); }
VF_UNIT(threads) {
    uint64_t live0 = vf_live();
    {
        int style = choose(STYLES), n = pickN(), who = choose(5), pre = choose(2); vf_part();
        T t; L m; build(t, m, style, n); V w = m.n ? m.a[0] : V();
        P old = t.persistent();
#ifndef ORD
        if (pre && n) { auto it = itAt(t, n / 2); t.assign(it, w); }   // part of the path is private to t when it is shared again
#else
        if (pre && n) t.insert_or_assign(w);
#endif
        P p = t.persistent(); P keep(p), keep2(old); Arg a{&p, n}; P mine(p); T mt = p.transient();
        vf_freeze_heap(); vf_spawn(other, &a);
        switch (who) {
        case 0: reads<Cfg>(t, n); break;                                    // a mutable tree that shares everything
        case 1: { edit<Cfg>(t, n, choose(9)); reads<Cfg>(t, (int)t.size()); P s = t.persistent(); reads<Cfg>(s, (int)s.size()); edit<Cfg>(t, (int)t.size(), 4); break; }
        case 2: { reads<Cfg>(mine, n); P c(mine); mine = old; T u = c.transient(); edit<Cfg>(u, n, choose(9)); P r = static_cast<T&&>(u).persistent(); mine = r; reads<Cfg>(mine, (int)mine.size()); break; }
        case 3: { T c(mt); T d(c); edit<Cfg>(c, n, choose(9)); reads<Cfg>(c, (int)c.size()); reads<Cfg>(d, n); mt = d; T e(static_cast<T&&>(d)); reads<Cfg>(e, n); break; }
        default: { P c = static_cast<T&&>(mt).persistent(); T u = static_cast<P&&>(c).transient(); u.clear(); P z = u.persistent(); z = mine; t = T(); break; }
        }
        vf_join(); vf_unfreeze();
        checkBasic<Cfg>(p, [&] { if (pre && n) {
#ifndef ORD
            m.a[n / 2] = w;
#endif
        } return m; }());
    }
    vf_assert(vf_live() == live0, "P05,P23: every node is freed when the last tree is gone");
}

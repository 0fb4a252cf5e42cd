// Contracts of the leaf node: every operation of LeafNodeBase and of the extensions' leaf layers, on an arbitrary leaf.
// The leaf is built directly in memory (any length, any contents, persistent or not, on the right edge or not, any
// iterator bits), so nothing depends on how a tree could have got there.
#include "con.h"
#ifndef CAPS
#define CAPS 1, 2, 3, 4
#endif
namespace con {
template <int CAP, typename C = con::C, typename V = typename C::V> struct Leaf {
    using L = typename N::template LeafNode<CAP>;
    using P = NodePtr<L>;
    using S = Seq<CAP + 2>;
    static constexpr uint64_t mask = L::it_mask;
    static constexpr int per = C::pairs ? 2 : 1;             // tracked objects per element

    static S fresh(int n) { S s; s.n = n; for (int i = 0; i < n; ++i) s.a[i] = C::sym(); return s; }
    static void sorted(S const& s) { if constexpr (C::ord) for (int i = 1; i < s.n; ++i) vf_assume(!C::less(C::key(s.a[i]), C::key(s.a[i - 1]))); }
    static P build(S const& s, bool persistent) {
        P p = make_ptr<L>();
        for (int i = 0; i < s.n; ++i) new (static_cast<void*>(&(*p).values[i])) V(C::mk(s.a[i]));
        p->length = (uint16_t)s.n; p->persistent = persistent;
        return p;
    }
    // the view of a leaf: its elements
    static void same(L const& l, S const& s, const char* m) {
        vf_assert(l.length == s.n, m);
        for (int i = 0; i < s.n; ++i) vf_assert(eqp(C::get(l.values[i]), s.a[i]), m);
    }
    static void info(Rep const& r, S const& s, Ix ch, ST sum) {
        if constexpr (C::idx) vf_assert(r.children == ch, "P09,P19: leaf reports the (change of the) number of its elements");
        if constexpr (C::sum) vf_assert(r.sum == sum, "P10,P11,P19: leaf reports the (change of the) sum of its elements");
        if (s.n) {
            if constexpr (C::mn) vf_assert(sameMin(r.mn, s.min(0, s.n)), "P12,P13,P19: leaf reports its least element");
            if constexpr (C::mx) vf_assert(sameMax(r.mx, s.max(0, s.n)), "P12,P13,P19: leaf reports its greatest element");
            if constexpr (C::ord) vf_assert(C::eqKey(r.key, C::key(s.a[s.n - 1])), "P07,P08,P19: leaf reports its last key");
        }
    }
    // what an operation called back with
    struct Out { int reps = 0, spls = 0, ers = 0; bool changed = false, carry = false, lchanged = false, rchanged = false, nel = false; P np, lp, rp; Rep d, l, r; };
    struct DoR { Out& o; template <typename T> void operator()(T&& x) { ++o.reps; o.changed = x.delta.ptr_changed; o.carry = x.carry; o.d = rep<C>(x.delta); if (x.delta.ptr_changed) o.np = std::move(x.delta.ptr); } };
    struct DoS { Out& o; template <typename T> void operator()(T&& x) { ++o.spls; o.lchanged = x.left.ptr_changed; o.rchanged = x.right.ptr_changed; o.nel = x.new_element_left; o.l = rep<C>(x.left); o.r = rep<C>(x.right);
        if (o.lchanged) o.lp = std::move(x.left.ptr); if (o.rchanged) o.rp = std::move(x.right.ptr); } };
    struct DoE { Out& o; void operator()() { ++o.ers; } };
    struct At { int i; template <typename Node, typename T> auto operator()(Node const&, T const&) const { return std::tuple<int32_t, uint64_t>(i, 0); } };
    // the result of an edit that replaced the leaf by one with the elements e
    static void replaced(P& p, S const& s, bool pers, Out& o, S const& e, Ix dch, ST dsum) {
        vf_assert(o.reps == 1 && o.spls == 0 && o.ers == 0, "P01,P07,P16: the leaf reports exactly one result, a replacement");
        vf_assert(o.changed == pers, "P03,P06: a leaf is replaced by a new one exactly when it is persistent");
        L& n = o.changed ? *o.np : *p;
        same(n, e, "P01,P07,P16,P18,P22: elements of the leaf after the edit");
        vf_assert(!n.persistent, "P06: the leaf that was edited is not marked persistent");
        vf_assert(n.ref_count.load(std::memory_order_relaxed) == 1, "P05: the edited leaf has one owner");
        info(o.d, e, dch, dsum);
        if (pers) kept(p, s);
    }
    static void kept(P& p, S const& s) {
        same(*p, s, "P03,P21,P23: a persistent leaf keeps its elements");
        vf_assert(p->persistent && p->ref_count.load(std::memory_order_relaxed) == 1, "P03,P05: a persistent leaf stays persistent and keeps its owner");
    }
    static void iter(uint64_t it0, uint64_t it, int i) {
        vf_assert((it & mask) == (uint64_t)i, "P16,P07: the iterator's leaf position after the edit");
        vf_assert((it & ~mask) == (it0 & ~mask), "P16,P07: an edit of a leaf leaves the other levels of the iterator alone");
    }
    // heap and element balance
    struct Bal { uint64_t live, allocs; int64_t alive; Bal() : live(vf_live()), allocs(vf_allocs()), alive(alive_) {} };
    static void count(Bal const& b, uint64_t nodes, int elems) {
        vf_assert(vf_allocs() == b.allocs + nodes, "P06: nodes allocated by an edit of a leaf");
        if constexpr (C::tracked) vf_assert(alive_ == b.alive + (int64_t)elems * per, "P04: elements alive after an edit of a leaf");
    }
    static void release(P& p, Out& o, uint64_t live0, int64_t alive0) {
        p = P(); o.np = P(); o.lp = P(); o.rp = P();
        vf_assert(vf_live() == live0, "P05: no leaf outlives its owners");
        if constexpr (C::tracked) vf_assert(alive_ == alive0, "P04: no element outlives its leaf");
    }
    // calls `call` with the arguments for the new element in one of the ways a caller may pass it
    template <typename F> static void withArg(L& l, int how, Pv v, int j, F&& call) {
        if (how == 0) { V x(C::mk(v)); V const& r = x; call(r); vf_assert(eqp(C::get(x), v), "P22: an argument passed by reference is not modified"); }
        else if (how == 1) { call(C::mk(v)); }
        else if (how == 2) { V const& r = l.values[j]; call(r); }              // an element of this very leaf
        else if constexpr (C::pairs) {
            if (how == 3) { auto x = C::mk(v); call(std::as_const(x.first), std::as_const(x.second)); }
            else { V const& r = l.values[j]; call(r.first, r.second); }
        }
    }
    static constexpr int hows = C::pairs ? 5 : 3;

    // ---- insert
    template <typename Call> static void insertWith(Call&& call) {
        int n = choose_in(0, CAP), i = choose_in(0, n); bool pers = choose(2), rm = choose(2);
        int how = choose(hows), j = how == 2 || how == 4 ? (n ? choose(n) : (vf_kill(), 0)) : 0;
        vf_part();
        S s = fresh(n); Pv v = how == 2 || how == 4 ? s.a[j] : C::sym();
        uint64_t live0 = vf_live(); int64_t alive0 = alive_;
        P p = build(s, pers); Out o; uint64_t it0 = vf_sym64(), it = it0; size_t size0 = vf_sym64(), size = size0;
        S e = s; e.insert(i, v);
        if (pers) vf_freeze(&*p);
        Bal b;
        withArg(*p, how, v, j, [&](auto&&... a) { call(*p, At{i}, DoR{o}, DoS{o}, size, it, rm, std::forward<decltype(a)>(a)...); });
        if (pers) vf_unfreeze();
        vf_assert(size == size0 + 1, "P01,P07: an insertion adds one to the size");
        if (n < CAP) {
            replaced(p, s, pers, o, e, (Ix)1, C::sv(v));
            vf_assert(!o.carry, "P16: an insertion does not move the iterator to the next leaf");
            iter(it0, it, i);
            count(b, pers, 1 + (pers ? n : 0));
        } else {
            vf_assert(o.reps == 0 && o.spls == 1 && o.ers == 0, "P01,P07,P16: the full leaf reports exactly one result, a split");
            vf_assert(o.lchanged == pers && o.rchanged, "P03,P06: the left half is a new leaf exactly when the leaf was persistent");
            L& l = o.lchanged ? *o.lp : *p; L& r = *o.rp; int k = l.length;
            vf_assert(k + r.length == CAP + 1, "P01,P07: a split loses and adds no element");
            if (rm && i == CAP) vf_assert(k == CAP, "P02: appending leaves a full leaf behind");
            else vf_assert(2 * k >= CAP && 2 * (int)r.length >= CAP, "P02: both halves of a split leaf are at least half full");
            vf_assert(k >= 1 && r.length >= 1 && k <= CAP, "P02: no half of a split leaf is empty or over capacity");
            S el = e.part(0, k), er = e.part(k, CAP + 1);
            same(l, el, "P01,P07,P16,P18,P22: elements of the left half");
            same(r, er, "P01,P07,P16,P18,P22: elements of the right half");
            vf_assert(!l.persistent && !r.persistent, "P06: the halves of a split leaf are not marked persistent");
            vf_assert(l.ref_count.load(std::memory_order_relaxed) == 1 && r.ref_count.load(std::memory_order_relaxed) == 1, "P05: the halves of a split leaf have one owner");
            info(o.l, el, (Ix)el.n, el.sum()); info(o.r, er, (Ix)er.n, er.sum());
            vf_assert(o.nel == (i < k), "P16: the split reports which half holds the new element");
            iter(it0, it, i < k ? i : i - k);
            if (pers) kept(p, s);
            count(b, pers ? 2 : 1, 1 + (pers ? n : 0));
        }
        release(p, o, live0, alive0);
    }
    static void insert() {
        insertWith([](L& l, At f, DoR r, DoS s, size_t& size, uint64_t& it, bool rm, auto&&... a) { l.insert(detail::Empty::empty, f, r, s, size, it, rm, std::forward<decltype(a)>(a)...); });
    }
    // ---- assign, update, update2: how the new value arrives
    static void assign() {
        int n = choose_in(1, CAP), i = choose(n), kind = choose(5); bool pers = choose(2);
        int how = kind == 0 || kind == 2 ? choose(hows) : 0, j = how == 2 || how == 4 ? choose(n) : 0;
        vf_part();
        S s = fresh(n); Pv v = how == 2 || how == 4 ? s.a[j] : C::sym();
        uint64_t live0 = vf_live(); int64_t alive0 = alive_;
        P p = build(s, pers); Out o; uint64_t it0 = vf_sym64(), it = it0; int calls = 0;
        S e = s; e.a[i] = v;
        if (pers) vf_freeze(&*p);
        Bal b; At f{i};
        auto seen = [&](V const& old) { ++calls; vf_assert(&old == &std::as_const(*p).values[i] && eqp(C::get(old), s.a[i]), "P01,P07,P18,P21: the function is given the element it updates"); };
        auto e0 = detail::Empty::empty;
        if (kind == 0) withArg(*p, how, v, j, [&](auto&&... a) { p->assign(e0, f, DoR{o}, it, std::forward<decltype(a)>(a)...); });
        else if (kind == 1) { p->update(e0, f, DoR{o}, it, [&](V const& old) { seen(old); return C::mk(v); }); }
        else if (kind == 2) {
            if (how == 2) p->update(e0, f, DoR{o}, it, [&](V const& old) -> V const& { seen(old); return p->values[j]; });
            else p->update2(e0, f, DoR{o}, it, [&](auto&& set, V const& old) { seen(old); withArg(*p, how, v, j, [&](auto&&... a) { set(std::forward<decltype(a)>(a)...); }); });
        } else if (kind == 3) { // a function that copies the element, as one taking it by value does
            p->update(e0, f, DoR{o}, it, [&](V old) { ++calls; vf_assert(eqp(C::get(old), s.a[i]), "P01,P07,P18,P21: the function is given the element it updates"); return C::mk(v); });
        } else { // the function throws: nothing has happened
            bool threw = false;
            int t = choose(3);
            try {
                if (t == 0) p->update(e0, f, DoR{o}, it, [&](V const&) -> V { throw 7; });
                else if (t == 1) p->update(e0, f, DoR{o}, it, [&](V old) -> V { vf_assert(eqp(C::get(old), s.a[i]), "P21: the function is given the element it updates"); throw 7; });
                else p->update2(e0, f, DoR{o}, it, [&](auto&&, V const&) { throw 7; });
            } catch (int x) { threw = x == 7; }
            if (pers) vf_unfreeze();
            vf_assert(threw, "P21: the exception of the function reaches the caller");
            vf_assert(o.reps == 0 && o.spls == 0 && o.ers == 0, "P21: a function that throws leads to no edit");
            same(*p, s, "P21,P01,P07: elements of a leaf whose update threw");
            vf_assert(it == it0, "P21: an update that throws leaves the iterator alone");
            vf_assert(p->persistent == pers, "P21: an update that throws leaves the leaf's mark alone");
            count(b, 0, 0);
            release(p, o, live0, alive0);
            return;
        }
        if (pers) vf_unfreeze();
        if (kind == 1 || kind == 3 || kind == 2) vf_assert(calls == 1, "P01,P07,P18: the function is called once");
        replaced(p, s, pers, o, e, (Ix)0, (ST)(C::sv(v) - C::sv(s.a[i])));
        vf_assert(!o.carry, "P16: an assignment does not move the iterator to the next leaf");
        iter(it0, it, i);
        count(b, pers, pers ? n : 0);
        release(p, o, live0, alive0);
    }
    // ---- erase
    static void erase() {
        int n = choose_in(1, CAP), i = choose(n); bool pers = choose(2), rm = choose(2);
        vf_part();
        S s = fresh(n);
        uint64_t live0 = vf_live(); int64_t alive0 = alive_;
        P p = build(s, pers); Out o; uint64_t it0 = vf_sym64(), it = it0; size_t size0 = vf_sym64(), size = size0;
        S e = s; e.erase(i);
        if (pers) vf_freeze(&*p);
        Bal b;
        p->erase(detail::Empty::empty, At{i}, DoR{o}, DoE{o}, size, it, rm);
        if (pers) vf_unfreeze();
        vf_assert(size == size0 - 1, "P01,P07: an erasure takes one from the size");
        if (n == 1) {
            vf_assert(o.reps == 0 && o.spls == 0 && o.ers == 1, "P01,P02,P07,P16: a leaf that loses its only element reports exactly one result, its removal");
            if (pers) kept(p, s);
            iter(it0, it, 0);
            count(b, 0, 0);
        } else {
            replaced(p, s, pers, o, e, (Ix)-1, (ST)(0 - C::sv(s.a[i])));
            bool last = i == n - 1;
            vf_assert(o.carry == (last && !rm), "P16: the leaf reports that the successor of the erased element is in the next leaf");
            iter(it0, it, last && !rm ? 0 : i);
            count(b, pers, pers ? n - 1 : -1);
        }
        release(p, o, live0, alive0);
    }
    // ---- insert_or_assign by key, with each policy
    template <detail::DuplicatePolicy D> static void iorOne(bool insertsDup) {
        if constexpr (C::ord) {
            int n = choose_in(0, CAP); bool pers = choose(2), rm = choose(2), viaPair = choose(2);
            vf_part();
            S s = fresh(n); sorted(s); Pv v = C::sym(); auto k = C::key(v);
            uint64_t live0 = vf_live(); int64_t alive0 = alive_;
            {
            P p = build(s, pers); Out o; uint64_t it0 = vf_sym64(), it = it0; size_t size0 = vf_sym64(), size = size0;
            // the finder of the tree: lower bound, or upper bound when duplicates are kept
            int i = 0; for (; i < n; ++i) if (insertsDup ? C::less(k, C::key(s.a[i])) : !C::less(C::key(s.a[i]), k)) break;
            bool found = !insertsDup && i < n && !C::less(k, C::key(s.a[i]));
            V x(C::mk(v));
            if (pers) vf_freeze(&*p);
            Bal b;
            auto const& key = keyOf(x);
            if constexpr (C::pairs) {
                if (viaPair) p->template insert_or_assign<D>(key, At{i}, DoR{o}, DoS{o}, size, it, rm, std::as_const(x));
                else p->template insert_or_assign<D>(key, At{i}, DoR{o}, DoS{o}, size, it, rm, std::as_const(x.first), std::as_const(x.second));
            } else p->template insert_or_assign<D>(key, At{i}, DoR{o}, DoS{o}, size, it, rm, std::as_const(x));
            if (pers) vf_unfreeze();
            if (found && D == detail::DuplicatePolicy::ignore) {
                vf_assert(o.reps + o.spls + o.ers == 0, "P07: inserting a key that exists changes nothing");
                same(*p, s, "P07: elements of the leaf when the key exists");
                vf_assert(size == size0 && p->persistent == pers, "P07: inserting a key that exists leaves size and leaf alone");
                count(b, 0, 0);
            } else if (found) {
                S e = s; e.a[i] = v;
                replaced(p, s, pers, o, e, (Ix)0, (ST)(C::sv(v) - C::sv(s.a[i])));
                vf_assert(size == size0, "P07: replacing an element keeps the size");
                iter(it0, it, i);
                count(b, pers, pers ? n : 0);
            } else {
                S e = s; e.insert(i, v);
                vf_assert(size == size0 + 1, "P07: inserting a new key adds one to the size");
                if (n < CAP) { replaced(p, s, pers, o, e, (Ix)1, C::sv(v)); iter(it0, it, i); }
                else {
                    vf_assert(o.spls == 1 && o.reps == 0, "P07: a full leaf splits");
                    L& l = o.lchanged ? *o.lp : *p; int m = l.length;
                    vf_assert(m + o.rp->length == CAP + 1 && m >= 1 && o.rp->length >= 1, "P07: a split loses and adds no element");
                    same(l, e.part(0, m), "P07: elements of the left half"); same(*o.rp, e.part(m, CAP + 1), "P07: elements of the right half");
                    iter(it0, it, i < m ? i : i - m);
                }
            }
            release(p, o, live0, alive0 + (C::tracked ? per : 0));
            }
            if constexpr (C::tracked) vf_assert(alive_ == alive0, "P04: no element outlives its leaf");
        } else vf_kill();
    }
    static auto const& keyOf(V const& x) { if constexpr (C::pairs) return x.first; else return x; }
    static void ior() {
        switch (choose(3)) {
            case 0: iorOne<detail::DuplicatePolicy::replace>(false); break;
            case 1: iorOne<detail::DuplicatePolicy::ignore>(false); break;
            default: iorOne<detail::DuplicatePolicy::insert>(true);
        }
    }

    // ---- queries: a frozen leaf (P23: reading writes nothing)
    struct It { L const* leaf; uint64_t iter; V const& get() const { return leaf->get_iter(iter); } };
    static void query() {
        int n = choose_in(0, CAP); bool pers = choose(2);
        vf_part();
        S s = fresh(n); if (C::ord) sorted(s);
        uint64_t live0 = vf_live(); int64_t alive0 = alive_;
        P p = build(s, pers); L const& l = *p; vf_freeze(&*p);
        uint64_t it0 = vf_sym64(); uint64_t it = it0; L const* leaf = nullptr;
        auto only = [&](uint64_t v, int i, const char* m) { vf_assert((v & mask) == (uint64_t)i && (v & ~mask) == (it0 & ~mask), m); };
        Bal b;
        it = it0; l.seek_first(it); only(it, 0, "P14: seek_first refers to the first position");
        it = it0; l.seek_end(it); only(it, n, "P14,P16: seek_end refers to the end position");
        it = it0; l.seek_begin(leaf, it); only(it, 0, "P14: seek_begin refers to the first position"); vf_assert(leaf == &l, "P14: seek_begin finds the leaf");
        it = it0; leaf = nullptr; l.seek_end(leaf, it); only(it, n, "P14: seek_end refers to the end position"); vf_assert(leaf == &l, "P14: seek_end finds the leaf");
        if (n) {
            it = it0; l.seek_last(it); only(it, n - 1, "P14: seek_last refers to the last position");
            vf_assert(&l.front() == &l.values[0] && &l.back() == &l.values[n - 1], "P01: front and back of a leaf");
        }
        for (int i = 0; i < n; ++i) { it = (it0 & ~mask) | (uint64_t)i; vf_assert(&l.get_iter(it) == &l.values[i], "P01,P14: an iterator refers to the element at its position"); }
        if constexpr (C::idx) {
            vf_assert(l.children() == (Ix)n, "P09: number of elements of a leaf");
            for (int i = 0; i <= n; ++i) { Ix o0 = (Ix)vf_sym64(), o = o0; l.order((it0 & ~mask) | (uint64_t)i, o); vf_assert(o == (Ix)(o0 + (Ix)i), "P09: position within the leaf"); }
            for (int i = 0; i < n; ++i) {
                vf_assert(&l.at_index((Ix)(i + 1)) == &l.values[i], "P09: element at an index of the leaf");
                It x{nullptr, it0}; l.seek_index(x, (Ix)(i + 1)); only(x.iter, i, "P09: position of an index in the leaf"); vf_assert(x.leaf == &l, "P09: leaf of an index");
                auto [fi, fr] = l.find_index((Ix)(i + 1)); vf_assert(fi == i, "P09: position of an index in the leaf");
            }
            for (int i = 0; i <= n; ++i) { auto [fi, fr] = l.insertion_index((Ix)i); vf_assert(fi == i, "P09: insertion position of an index in the leaf"); }
        }
        if constexpr (C::sum) {
            vf_assert(l.sum() == s.sum(), "P10: sum of a leaf");
            ST acc = 0;
            for (int i = 0; i <= n; ++i) {
                ST z0 = (ST)vf_sym64(), z = z0; l.sum_exclusive((it0 & ~mask) | (uint64_t)i, z); vf_assert(z == (ST)(z0 + acc), "P10: exclusive prefix sum within the leaf");
                if (i == n) break;
                acc = (ST)(acc + C::sv(s.a[i]));
                z = z0; l.sum_inclusive((it0 & ~mask) | (uint64_t)i, z); vf_assert(z == (ST)(z0 + acc), "P10: inclusive prefix sum within the leaf");
            }
        }
        if (n) {
            if constexpr (C::mn) {
                vf_assert(sameMin(raw(l.min()), s.min(0, n)), "P12: least element of a leaf");
                It x{nullptr, it0}; l.min(x); vf_assert(x.leaf == &l && (x.iter & mask) < (uint64_t)n && (x.iter & ~mask) == (it0 & ~mask), "P12: the least element is in the leaf");
                vf_assert(sameMin(C::minKey(C::get(x.get())), s.min(0, n)), "P12: position of the least element of a leaf");
                for (int i = 0; i < n; ++i) {
                    uint64_t at = (it0 & ~mask) | (uint64_t)i, other = (vf_sym64() & ~mask);
                    vf_assert(sameMin(raw(l.min_after(at)), s.min(i, n)), "P13: least element of a leaf from a position on"); vf_assert(sameMin(raw(l.min_before(at)), s.min(0, i + 1)), "P13: least element of a leaf up to a position");
                    It y{nullptr, it0}; l.min_after(y, at); vf_assert(y.leaf == &l && (y.iter & mask) >= (uint64_t)i && (y.iter & mask) < (uint64_t)n, "P13: the least element is in the range"); vf_assert(sameMin(C::minKey(C::get(y.get())), s.min(i, n)), "P13: least element of a leaf from a position on");
                    It z{nullptr, it0}; l.min_before(z, at); vf_assert(z.leaf == &l && (z.iter & mask) <= (uint64_t)i, "P13: the least element is in the range"); vf_assert(sameMin(C::minKey(C::get(z.get())), s.min(0, i + 1)), "P13: least element of a leaf up to a position");
                    for (int j = i; j < n; ++j) {
                        vf_assert(sameMin(raw(l.min(at, other | (uint64_t)j)), s.min(i, j + 1)), "P13: least element of a range of a leaf");
                        It w{nullptr, it0}; l.min(w, at, other | (uint64_t)j); vf_assert(w.leaf == &l && (w.iter & mask) >= (uint64_t)i && (w.iter & mask) <= (uint64_t)j, "P13: the least element is in the range"); vf_assert(sameMin(C::minKey(C::get(w.get())), s.min(i, j + 1)), "P13: least element of a range of a leaf");
                    }
                }
            }
            if constexpr (C::mx) {
                vf_assert(sameMax(raw(l.max()), s.max(0, n)), "P12: greatest element of a leaf");
                It x{nullptr, it0}; l.max(x); vf_assert(x.leaf == &l && (x.iter & mask) < (uint64_t)n && (x.iter & ~mask) == (it0 & ~mask), "P12: the greatest element is in the leaf");
                vf_assert(sameMax(C::maxKey(C::get(x.get())), s.max(0, n)), "P12: position of the greatest element of a leaf");
                for (int i = 0; i < n; ++i) {
                    uint64_t at = (it0 & ~mask) | (uint64_t)i, other = (vf_sym64() & ~mask);
                    vf_assert(sameMax(raw(l.max_after(at)), s.max(i, n)), "P13: greatest element of a leaf from a position on"); vf_assert(sameMax(raw(l.max_before(at)), s.max(0, i + 1)), "P13: greatest element of a leaf up to a position");
                    for (int j = i; j < n; ++j) {
                        vf_assert(sameMax(raw(l.max(at, other | (uint64_t)j)), s.max(i, j + 1)), "P13: greatest element of a range of a leaf");
                        It w{nullptr, it0}; l.max(w, at, other | (uint64_t)j); vf_assert(w.leaf == &l && (w.iter & mask) >= (uint64_t)i && (w.iter & mask) <= (uint64_t)j, "P13: the greatest element is in the range"); vf_assert(sameMax(C::maxKey(C::get(w.get())), s.max(i, j + 1)), "P13: greatest element of a range of a leaf");
                    }
                }
            }
            if constexpr (C::ord) {
                vf_assert(C::eqKey(raw(l.first_key()), C::key(s.a[0])) && C::eqKey(raw(l.last_key()), C::key(s.a[n - 1])), "P08: first and last key of a leaf");
            }
        }
        count(b, 0, 0);
        vf_unfreeze();
        same(l, s, "P03,P23: a query changes nothing");
        { // a copy is a leaf of its own
            P q = make_ptr<L>(l);
            same(*q, s, "P03,P01: elements of a copied leaf"); vf_assert(!q->persistent && q->ref_count.load(std::memory_order_relaxed) == 1, "P03,P06: a copied leaf is not persistent and has one owner");
        }
        p->make_persistent(); vf_assert(p->persistent, "P03: make_persistent marks the leaf"); same(l, s, "P03: make_persistent keeps the elements");
        vf_freeze(&*p); p->make_persistent(); vf_unfreeze();       // P23: a leaf that is marked already is not written
        Out o; release(p, o, live0, alive0);
    }
    // queries with an arbitrary key or target; and advance with an arbitrary distance
    static void advance() {
        int n = choose_in(0, CAP), i = choose_in(0, n);
        vf_part();
        S s = fresh(n); P p = build(s, choose(2)); L const& l = *p; vf_freeze(&*p);
        uint64_t it0 = vf_sym64(); it0 = (it0 & ~mask) | (uint64_t)i; uint64_t it = it0; L const* leaf = nullptr;
        int64_t k = (int64_t)vf_sym64(); vf_assume(k >= -(int64_t)((uint64_t)1 << 62) && k <= (int64_t)((uint64_t)1 << 62));
        ssize r = l.advance(leaf, it, (ssize)k);
        int64_t t = i + k;
        vf_assert((it & ~mask) == (it0 & ~mask), "P14: advance within a leaf leaves the other levels of the iterator alone");
        if (k == 0) { vf_assert(r == 0 && it == it0 && leaf == &l, "P14,P17: advance by 0 finds the leaf and moves nothing"); }
        else if (t >= 0 && t < n) { vf_assert(r == 0 && (it & mask) == (uint64_t)t && leaf == &l, "P14: advance within a leaf"); }
        else if (t < 0 && n) { vf_assert((int64_t)r == t && (it & mask) == 0, "P14: advance before a leaf reports the distance left"); }
        else if (n) { vf_assert((int64_t)r == t - (n - 1) && (it & mask) == (uint64_t)(n - 1), "P14: advance past a leaf reports the distance left"); }
        else vf_assert((r < 0) == (k < 0) && (r > 0) == (k > 0) && (it & mask) == 0, "P14: advance in an empty leaf reports its direction");
        vf_cover("advance");
        vf_unfreeze();
    }
    static void forward() {
        if constexpr (C::sum) {
            int n = choose_in(0, CAP);
            vf_part();
            S s = fresh(n); ST target = (ST)vf_sym64();
            // no element is negative and the total does not overflow: the elements are the differences of a rising
            // sequence of prefix sums
            ST pre[CAP + 1]; pre[0] = 0;
            for (int i = 0; i < n; ++i) { pre[i + 1] = (ST)vf_sym64(); vf_assume(pre[i] <= pre[i + 1]); s.a[i] = C::ofSum(s.a[i], (ST)(pre[i + 1] - pre[i])); if (sizeof(ST) > 4) vf_assume(C::sv(s.a[i]) == pre[i + 1] - pre[i]); }
            vf_assume(target >= 0);
            P p = build(s, choose(2)); L const& l = *p; vf_freeze(&*p);
            It x{nullptr, vf_sym64()}; uint64_t it0 = x.iter; l.seek_index_forward(x, target);
            auto idx = x.iter & mask;
            vf_assert(x.leaf == &l && (x.iter & ~mask) == (it0 & ~mask), "P11: the search by prefix sum stays in the leaf");
            vf_assert(idx <= (uint64_t)n, "P11: the search by prefix sum ends in the leaf or at its end");
            idx = vf_concretize(idx);
            for (uint64_t i = 1; i <= idx; ++i) { bool c = pre[i] < target; vf_assert(c, "P11: elements before the result have a smaller prefix sum"); vf_assume(c); }
            if (idx < (uint64_t)n) vf_assert(pre[idx + 1] >= target, "P11: the result's prefix sum reaches the target");
            vf_unfreeze();
        } else vf_kill();
    }
    struct Lower { template <typename A, typename B> bool operator()(A const& a, B const& b) const { return C::less(raw(a), raw(b)); } };
    struct Upper { template <typename A, typename B> bool operator()(A const& a, B const& b) const { return !C::less(raw(b), raw(a)); } };
    static void keys() {
        if constexpr (C::ord) {
            int n = choose_in(0, CAP), what = choose(4);
            vf_part();
            S s = fresh(n); sorted(s); Pv kv = C::sym(); V kx(C::mk(kv)); auto const& key = keyOf(kx); auto k = C::key(kv);
            P p = build(s, choose(2)); L const& l = *p; vf_freeze(&*p);
            uint64_t it0 = vf_sym64(), it = it0; L const* leaf = nullptr;
            int lo = 0, up = 0; for (; lo < n; ++lo) if (!C::less(C::key(s.a[lo]), k)) break; for (up = lo; up < n; ++up) if (C::less(k, C::key(s.a[up]))) break;
            bool found = lo < n && lo < up;
            if (what == 0) {
                bool r = l.seek_key(leaf, it, key, Lower{});
                vf_assert((it & mask) == (uint64_t)lo && (it & ~mask) == (it0 & ~mask) && leaf == &l, "P08: lower bound within a leaf");
                vf_assert(r == found, "P08: a leaf tells whether it holds the key");
            } else if (what == 1) {
                l.seek_key(leaf, it, key, Upper{});
                vf_assert((it & mask) == (uint64_t)up && (it & ~mask) == (it0 & ~mask) && leaf == &l, "P08: upper bound within a leaf");
            } else if (what == 2) {
                vf_assert(l.contains(key) == found, "P08: a leaf tells whether it holds the key");
                vf_assert(l.lower_bound_index(key) == lo, "P08,P07: lower bound within a leaf");
            } else if (found) {
                auto const& got = l.at_key(key);
                if constexpr (C::pairs) vf_assert(&got == &l.values[lo].second, "P08: at_key refers to the element with the key"); else vf_assert(&got == &l.values[lo], "P08: at_key refers to the element with the key");
                vf_cover("key found");
            }
            vf_unfreeze();
        } else vf_kill();
    }
};
template <int... caps> struct Each { template <typename F> static void go(F&& f) { constexpr int c[] = {caps...}; int k = choose((int)sizeof...(caps)); int j = 0; ((j++ == k ? (f(std::integral_constant<int, caps>()), 0) : 0), ...); } };
using All = Each<CAPS>;
} // namespace con
using namespace con;
VF_UNIT(leaf_insert) { All::go([](auto c) { Leaf<decltype(c)::value>::insert(); }); }
VF_UNIT(leaf_assign) { All::go([](auto c) { Leaf<decltype(c)::value>::assign(); }); }
VF_UNIT(leaf_erase) { All::go([](auto c) { Leaf<decltype(c)::value>::erase(); }); }
VF_UNIT(leaf_ior) { All::go([](auto c) { Leaf<decltype(c)::value>::ior(); }); }
VF_UNIT(leaf_query) { All::go([](auto c) { Leaf<decltype(c)::value>::query(); }); }
VF_UNIT(leaf_advance) { All::go([](auto c) { Leaf<decltype(c)::value>::advance(); }); }
VF_UNIT(leaf_forward) { All::go([](auto c) { Leaf<decltype(c)::value>::forward(); }); }
VF_UNIT(leaf_keys) { All::go([](auto c) { Leaf<decltype(c)::value>::keys(); }); }

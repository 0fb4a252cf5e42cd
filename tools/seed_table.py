seed("leafsplit-destroy", "P04", [(D + "leafnodebase.hpp", """        for (IndexType i = split_point; i < left.length; ++i) {
            left.values.destruct(i);
        }
        left.length""", """        if constexpr (!std::is_nothrow_move_constructible_v<Value>) {
            for (IndexType i = split_point; i < left.length; ++i) {
                left.values.destruct(i);
            }
        }
        left.length""")],
     "elements with a non-trivial destructor, inserted in the middle so that a full leaf that is not shared splits in half",
     "elements moved to the right half of a split are never destroyed in the left half, so constructions and destructions do not balance",
     """struct E { static long live; long v; E(long v = 0) : v(v) { ++live; } E(E const& o) : v(o.v) { ++live; } E(E&& o) noexcept : v(o.v) { ++live; } E& operator=(E const&) = default; E& operator=(E&&) = default; ~E() { --live; } };
long E::live = 0;
int main() { { BppTree<E, 128, 512>::mixins<IndexedBuilder<>>::Transient t; for (int i = 0; i < 200; ++i) t.insert_index(t.size() / 2, E(i)); CHECK(E::live == 200); } CHECK(E::live == 0); }
""")
seed("split-not-rightmost", "P02", [(D + "internalnodebase.hpp", "IndexType split_point = right_most && index + 1 == internal_size ? index + 1 : (internal_size + 1) / 2;", "IndexType split_point = (right_most || this->persistent) && index + 1 == internal_size ? index + 1 : (internal_size + 1) / 2;")],
     "a full internal node off the right edge that is shared with a snapshot and whose last child splits",
     "the new internal node gets a single child although it is not on the right edge",
     """static long live[4096];
void* operator new(size_t n) { size_t* p = (size_t*)std::malloc(n + 16); p[0] = n; if (n < 4096) ++live[n]; return p + 2; }
void operator delete(void* p) noexcept { if (!p) return; size_t n = ((size_t*)p)[-2]; if (n < 4096) --live[n]; std::free((size_t*)p - 2); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
using T = BppTree<int, 64, 256>::mixins<IndexedBuilder<>>;
// insertions only: every node off the right edge is at least half full, so there are far fewer internal nodes than leaves
int main() { for (int p = 0; p < 400; p += 3) { long before[4096]; for (int i = 0; i < 4096; ++i) before[i] = live[i];
  T::Transient t; for (int i = 0; i < 400; ++i) t.push_back(i); std::vector<T::Persistent> keep; for (int i = 0; i < 600; ++i) { keep.clear(); keep.push_back(t.persistent()); t.insert_index(p, i); } keep.clear();
  long leaves = 0, internal = 0; for (int i = 0; i < 4096; ++i) { long d = live[i] - before[i]; if (i <= 96) leaves += d; else internal += d; }
  CHECK(internal <= leaves / 2 + 4); } }
""", flags="")
seed("snapshot-moved-from", "P03", [(D + "leafnodebase.hpp", """        for (IndexType i = this->length; i > index; --i) {
            if (this->persistent) {
                set_element(left, right, i, split_point, values[i - 1]);
            } else {
                set_element(left, right, i, split_point, std::move(values[i - 1]));
            }
        }""", """        for (IndexType i = this->length; i > index; --i) {
            if (this->persistent && i < split_point) {
                set_element(left, right, i, split_point, values[i - 1]);
            } else {
                // these change nodes
                set_element(left, right, i, split_point, std::move(values[i - 1]));
            }
        }""")],
     "an element type whose move empties the source; a mutable tree made from a snapshot splits a shared leaf",
     "elements after the insertion point are moved out of the leaf that the snapshot still uses",
     """int main() { BppTree<std::string, 512, 512>::mixins<IndexedBuilder<>>::Transient t; for (int i = 0; i < 40; ++i) t.push_back(std::string(30, 'a' + i % 26)); auto s = t.persistent(); for (int k = 0; k < 40; ++k) { auto u = s.transient(); for (int i = 0; i < 12; ++i) u.insert_index(k, "x"); for (int i = 0; i < 40; ++i) CHECK(s.at_index(i) == std::string(30, 'a' + i % 26)); } }
""")
seed("copy-parents-again", "P06", [(D + "internalnodebase.hpp", """        compute_delta_replace(replace.delta, result.delta, index);
        if (this->persistent) {""", """        compute_delta_replace(replace.delta, result.delta, index);
        if (this->persistent || replace.delta.ptr_changed) {""")],
     "a mutable tree made from a snapshot, edited once, then edited under another child of an already copied node",
     "a node that is already private is copied again whenever one of its children is copied",
     """static long allocs; void* operator new(size_t n) { ++allocs; return std::malloc(n); } void operator delete(void* p) noexcept { std::free(p); } void operator delete(void* p, size_t) noexcept { std::free(p); }
int main() { BppTree<int, 64, 128>::mixins<IndexedBuilder<>>::Transient t; for (int i = 0; i < 400; ++i) t.push_back(i); auto s = t.persistent(); t.assign_index(0, 7); long a = allocs; t.assign_index(30, 8); CHECK(allocs - a < (long)t.depth()); a = allocs; t.assign_index(0, 9); CHECK(allocs == a); }
""", flags="")
seed("zero-children", "P11", [(D + "summed_detail.hpp", """        while (index < this->length - 1) {
            if (child_sums[index] < remainder) {""", """        while (index < this->length - 1) {
            // a subtree of zeros cannot contain the element that crosses the target
            if (child_sums[index] < remainder || child_sums[index] == SumType{}) {""")],
     "a whole leading subtree whose values are all zero and a target that is already reached there (zero)",
     "the search skips subtrees with sum zero although the first element already reaches the target",
     """int main() { BppTree<int, 64, 128>::mixins<IndexedBuilder<>, SummedBuilder<>>::Transient t; for (int i = 0; i < 100; ++i) t.push_back(i < 40 ? 0 : 1); auto it = t.sum_lower_bound(0); CHECK(t.order(it) == 0); it = t.sum_lower_bound(1); CHECK(t.order(it) == 40); }
""")
seed("mod-count-narrow", "P17", [("include/bpptree/bpptree.hpp", "uint64_t mod_count = 0;", "uint16_t mod_count = 0;"), (D + "iterator.hpp", "mutable uint64_t mod_count;", "mutable uint16_t mod_count;")],
     "exactly 65536 replacements between two uses of one iterator, one of which copied the leaf it points into",
     "the iterator takes its cached leaf for current and reads an old or freed node",
     """int main() { BppTree<int, 64, 128>::mixins<IndexedBuilder<>>::Transient t; for (int i = 0; i < 100; ++i) t.push_back(i); auto s = t.persistent(); auto it = t.find_index(50); CHECK(it.get() == 50); t.assign_index(50, -5); for (int i = 0; i < 65535; ++i) t.assign_index(3, i); CHECK(it.get() == -5); CHECK(s.at_index(50) == 50); }
""")
seed("rend-steps", "P14", [(D + "iterator.hpp", "            remainder = n - 1;\n        } else if", "            remainder = n;\n        } else if")],
     "moving back by two or more from the position before the beginning",
     "the iterator lands one element too far",
     """int main() { BppTree<int, 64, 128>::mixins<IndexedBuilder<>>::Transient t; for (int i = 0; i < 100; ++i) t.push_back(i); auto r = t.rend(); r -= 3; CHECK(r.get() == 2); auto f = t.begin(); --f; f += 1; CHECK(f.get() == 0); f -= 1; f += 40; CHECK(f.get() == 39); }
""")
seed("upper-bound-separator", "P08", [(D + "ordered_detail.hpp", """            IndexType index = find_key_index(key, comp);
            this->set_index(it, index);
            return this->pointers""", """            // the leaf decides between lower and upper bound, the way down is the same
            IndexType index = lower_bound_index(key);
            this->set_index(it, index);
            return this->pointers""")],
     "upper_bound of a key that is the last one of a leaf",
     "upper_bound stops past the end of the leaf instead of at the next element; upper_bound has no test",
     """int main() { BppTreeMap<int, int, detail::MinComparator, false, 64, 128>::mixins<>::Transient t; for (int i = 0; i < 600; ++i) t.insert_or_assign(2 * i, i);
  for (int k = 0; k < 599; ++k) { auto it = t.upper_bound(2 * k); CHECK(it.valid()); CHECK(it.get().first == 2 * k + 2); } }
""")
seed("size-before-check", "P20", [(D + "leafnodebase.hpp", """        auto [index, remainder] = finder(this->self(), search_val);
        --size;
        erase(index""", """        --size;
        auto [index, remainder] = finder(this->self(), search_val);
        erase(index""")],
     "safety checks enabled; erasing a key that is not there",
     "the exception is thrown but size() has already been decremented",
     """int main() { BppTreeMap<int, int>::mixins<>::Transient t; for (int i = 0; i < 10; ++i) t.insert_or_assign(2 * i, i); bool thrown = false; try { t.erase_key(5); } catch (std::exception const&) { thrown = true; } CHECK(thrown); CHECK(t.size() == 10); }
""", flags="-DBPPTREE_SAFETY_CHECKS -fsanitize=address,undefined")
seed("updater-steals", "P21", [(D + "leafnodebase.hpp", "assign2(index, do_replace, iter, updater(std::as_const(values[index])));", """if (this->persistent) {
            assign2(index, do_replace, iter, updater(std::as_const(values[index])));
        } else {
            // the old value is about to be overwritten, let the updater have it
            assign2(index, do_replace, iter, updater(std::move(values[index])));
        }""")],
     "an updater that takes its argument by value and throws; elements with a move constructor; a leaf that is not shared",
     "the element is lost although the update failed",
     """int main() { BppTree<std::string, 512, 512>::mixins<IndexedBuilder<>>::Transient t; for (int i = 0; i < 30; ++i) t.push_back(std::string(40, 'a' + i % 26)); try { t.update_index(7, [](std::string s) -> std::string { throw 5; }); } catch (int) {} CHECK(t.at_index(7) == std::string(40, 'h')); }
""")
seed("flag-written-again", "P23", [(D + "internalnodebase.hpp", """        if (!this->persistent) {
            this->persistent = true;
            prefetch_children(true);""", """        bool const again = this->persistent;
        this->persistent = true;
        if (!again) {
            prefetch_children(true);""")],
     "two threads that each convert or edit their own tree while the trees share internal nodes",
     "a plain write to a shared node",
     """#include <thread>
using B = BppTree<int, 64, 128>::mixins<IndexedBuilder<>>;
int main() { B::Transient t; for (int i = 0; i < 400; ++i) t.push_back(i); auto p = t.persistent(); auto keep = p; auto f = [](B::Persistent const* q) { B::Persistent c(*q); auto u = c.transient(); int s = 0; for (int i = 0; i < 50; ++i) { auto v = u.persistent(); s += v.at_index(i); } }; B::Persistent a(p), b(p); std::thread x(f, &a), y(f, &b); x.join(); y.join(); }
""", flags="-fsanitize=thread -pthread", env="TSAN_OPTIONS=exitcode=66")
seed("erase-chain", "P19", [(D + "summed_detail.hpp", """            node_info.sum = -extractor(this->values[index]);
        }
        Parent::compute_delta_erase2(index, node_info);""", """            node_info.sum = -extractor(this->values[index]);
            if (node_info.sum == SumType{}) {
                return;
            }
        }
        Parent::compute_delta_erase2(index, node_info);""")],
     "a signed sum type together with another extension that is listed after the sum, and an element that contributes zero",
     "erasing an element that is zero does not update the extensions listed after the sum",
     """int main() { BppTree<int, 64, 128>::mixins<SummedBuilder<>, IndexedBuilder<>>::Transient t; for (int i = 0; i < 100; ++i) t.push_back(i % 5); for (int i = 0; i < 40; ++i) { auto it = t.find_index(i / 2); t.erase(it); } int n = 0; for (int i = 0; i < 60; ++i) { auto it = t.find_index(i); CHECK(it.valid()); CHECK(t.order(it) == i); n += it.get(); } CHECK(n == t.sum()); CHECK(t.at_index(59) == 4); }
""")
seed("min-stale", "P12", [(D + "minmax.hpp", """            auto [BPPTREE_MINMAX, min_max_index] = BPPTREE_CONCAT(BPPTREE_MINMAX, _excluding)(index);
            if (BPPTREE_MINMAX != nullptr && comp(*BPPTREE_MINMAX, update.BPPTREE_MINMAX)) {""", """            auto [BPPTREE_MINMAX, min_max_index] = BPPTREE_CONCAT(BPPTREE_MINMAX, _excluding)(0, index);
            if (BPPTREE_MINMAX != nullptr && comp(*BPPTREE_MINMAX, update.BPPTREE_MINMAX)) {""")],
     "a tree of depth three or more; the smallest element of a node lies under a later child than the one that changes",
     "the minimum recorded for an internal node ignores the children after the edited one",
     """int main() { BppTree<int, 64, 128>::mixins<IndexedBuilder<>, MinBuilder<>>::Transient t; for (int i = 0; i < 2000; ++i) t.push_back(10000 - i); for (int i = 0; i < 2000; i += 50) { t.assign_index(i, 50000); CHECK(t.min() == 10000 - 1999); } }
""")

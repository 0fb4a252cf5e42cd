#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
D = "include/bpptree/detail/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          **({"state": [{"name": n, "meaning": m, "where": w} for n, m, w in state]} if state else {}),
                          **({"observe_at": observe} if observe else {}),
                          "hook_needed": None}})

prop("P01", "A tree behaves as a sequence under every history of positional edits",
 "After any history of positional edits (push, emplace and pop at either end, insert, erase, replace and update at any position by iterator or by index, clear), iterating the tree yields exactly the elements a plain list holds after the same edits, in the same order. Size, emptiness, front and back always agree with that list, for mutable and immutable trees alike.",
 ["histories", "inputs", "configurations"],
 "every finite history of positional edits, every position, every element value, every legal node capacity and depth",
 "The tests replay a few random histories at the default 512-byte nodes with non-overlapping values; node splits, emptied nodes, root growth and root collapse at every boundary position cannot be enumerated by samples.",
 [D+"leafnodebase.hpp", D+"internalnodebase.hpp", D+"modify.hpp", D+"operations.hpp", "include/bpptree/bpptree.hpp", "include/bpptree/indexed.hpp"],
 [("leaf insert, split and erase", D+"leafnodebase.hpp"), ("internal insert_replace, insert_split and erase", D+"internalnodebase.hpp"), ("root replacement, growth, collapse", D+"modify.hpp")],
 [("values/length", "elements of a leaf in order", D+"leafnodebase.hpp"), ("pointers/length", "children in order", D+"internalnodebase.hpp"), ("tree_size", "number of elements", "include/bpptree/bpptree.hpp")],
 ["size()", "front()/back()", "begin()..end()"])

prop("P02", "Insertion keeps nodes half full, so depth stays logarithmic",
 "In a tree built by insertions only, every node other than the ones on the right edge holds at least half of its capacity, so the depth grows logarithmically with the number of elements; pure appending leaves completely full nodes behind it. All leaves are always at the same depth, and no reachable node is ever empty (except the single leaf of an empty tree) or above its capacity.",
 ["histories", "inputs", "configurations"],
 "every insertion history, every insertion position, every capacity",
 "The tests never look at depth() or occupancy; a split that degenerates still returns right answers, only in linear depth or with wasted space.",
 [D+"leafnodebase.hpp", D+"internalnodebase.hpp", D+"nodetypes.hpp"],
 [("choice of the split point", D+"leafnodebase.hpp"), ("choice of the split point", D+"internalnodebase.hpp")],
 None, ["depth()", "max_depth()"])

prop("P03", "Immutable snapshots never change",
 "An immutable tree obtained at any time, by conversion or as the result of an immutable edit, keeps exactly the same content and the same answers to every query forever, whatever is later done to the tree it came from, to trees made from it, or to copies of either. Conversely a mutable tree made from an immutable one starts with the same content and evolves independently, and copying a mutable tree yields an independent one.",
 ["histories", "inputs"],
 "every interleaving of conversions, copies and edits among any number of trees that share structure",
 "Tests compare only the newest version with the oracle, never re-read an old snapshot after editing its descendants, and do not mix conversions in the middle of histories.",
 [D+"internalnodebase.hpp", D+"leafnodebase.hpp", "include/bpptree/bpptree.hpp", D+"nodetypes.hpp"],
 [("copy on write when the node is marked", D+"leafnodebase.hpp"), ("copy on write when the node is marked", D+"internalnodebase.hpp"), ("marking the whole tree", "include/bpptree/bpptree.hpp")],
 [("persistent", "node is shared with an immutable tree and must not be modified", D+"nodetypes.hpp")])

prop("P04", "Every stored element is constructed once and destroyed once",
 "For element and key types with non-trivial constructors, assignment and destructors, the tree never reads, assigns to or destroys an object that is not alive, never constructs over a live one, and at any time keeps alive exactly the elements its live trees hold. When the last tree is gone every element has been destroyed exactly once.",
 ["histories", "inputs", "configurations"],
 "every edit history on trees of types with non-trivial lifetime, shared or not, in every node shape",
 "Nearly all tests use integers, for which a missed destructor or an assignment to raw storage is invisible, and the suite is not run under a memory checker.",
 [D+"uninitialized_array.hpp", D+"leafnodebase.hpp", D+"internalnodebase.hpp", D+"ordered_detail.hpp", D+"minmax.hpp"],
 [("set/emplace choose between assignment and construction", D+"uninitialized_array.hpp"), ("node destructors", D+"leafnodebase.hpp"), ("erase_element2", D+"ordered_detail.hpp")])

prop("P05", "Nodes are freed exactly when no tree can reach them",
 "No edit, conversion, copy, move or destruction of a tree ever touches freed memory or frees anything twice, and memory is released as soon as the last tree that can reach it is gone. Nothing is leaked by any history.",
 ["histories", "inputs"],
 "every history of edits, conversions, copies, moves and destructions of trees sharing structure",
 "The tests count allocations in a few places only and run without a leak or address checker.",
 [D+"nodeptr.hpp", D+"internalnodebase.hpp", D+"modify.hpp", D+"nodetypes.hpp"],
 [("reference counting pointer", D+"nodeptr.hpp"), ("collapse and root replacement", D+"modify.hpp")],
 [("ref_count", "number of pointers to the node", D+"nodetypes.hpp")])

prop("P06", "Edits share structure: only the path to the edit is copied",
 "An edit of an immutable tree allocates at most two nodes per level plus at most one new root and shares every other node with the original; an edit of a mutable tree that shares nothing allocates only when a node splits or the tree becomes empty. Editing a mutable tree again at an already copied position copies nothing again.",
 ["histories", "inputs"],
 "every edit at every position of every tree shape, shared or not",
 "Results are the same when everything is copied; only cost and memory differ, which the tests do not bound.",
 [D+"internalnodebase.hpp", D+"leafnodebase.hpp", D+"nodetypes.hpp", "include/bpptree/bpptree.hpp"],
 [("in-place edit unless marked", D+"internalnodebase.hpp"), ("copies start unmarked", D+"nodetypes.hpp")])

prop("P07", "Keyed updates behave as a sorted map or set",
 "On a tree ordered by key, under any strict weak order comparator, insert-or-assign, insert-if-absent, assign, update and erase by key act exactly as on a sorted map: elements stay in strictly increasing key order without duplicates, an existing key is replaced, kept, updated or removed as asked, a new key is put in its place, and all other elements are untouched.",
 ["histories", "inputs", "configurations"],
 "every history of keyed operations with every key (below, between, equal to, above the existing ones), linear and binary search, custom comparators and extractors",
 "Random tests hit boundary keys (between two leaves, above the last key of a subtree, equal to a separator) by luck, at one node size.",
 [D+"ordered_detail.hpp", "include/bpptree/ordered.hpp", D+"leafnodebase.hpp", D+"internalnodebase.hpp"],
 [("separator maintenance", D+"ordered_detail.hpp"), ("insert_or_assign duplicate policy", D+"ordered_detail.hpp")],
 [("keys", "greatest key of each child", D+"ordered_detail.hpp")])

prop("P08", "Keyed searches return the right element or the end",
 "On a tree ordered by key, lower bound is the first element whose key is not less than the argument, upper bound the first whose key is greater, both the end position when there is none; find, contains and lookup by key succeed exactly when the key is present and yield that element. The answers are the same with linear and binary search and for mutable and immutable trees.",
 ["inputs", "histories", "configurations"],
 "every ordered tree of every shape and every search key, present or absent",
 "upper_bound has no test at all (marked TODO in the source); the others are sampled with present keys.",
 [D+"ordered_detail.hpp", "include/bpptree/ordered.hpp"],
 [("find_key_index, lower_bound_index", D+"ordered_detail.hpp"), ("seek_key", D+"ordered_detail.hpp")])

prop("P09", "Positions and elements correspond exactly on indexed trees",
 "On an indexed tree, access by index i yields the i-th element in iteration order, an iterator obtained by index i reports index i, and the rank of any iterator equals the number of elements before it (the size, for the end). This holds after every history of edits, for every index type wide enough for the size.",
 ["histories", "inputs", "configurations"],
 "every tree shape reachable by edits, every index, signed and unsigned index types",
 "The per-child counts are derived data updated incrementally on every edit; samples do not cover all update paths (split, erase of a whole child, copy on write).",
 [D+"indexed_detail.hpp", "include/bpptree/indexed.hpp"],
 [("incremental child counts", D+"indexed_detail.hpp"), ("find_index / insertion_index / order", D+"indexed_detail.hpp")],
 [("child_counts", "elements below each child", D+"indexed_detail.hpp")])

prop("P10", "Prefix sums equal the sums of the elements",
 "On a summed tree, the total, the sum up to and including an iterator, and the sum before an iterator equal the plain sums of the extracted values over those elements, after every history of edits. For unsigned sum types this is exact modulo the type's range, and for signed ones whenever no partial sum overflows.",
 ["histories", "inputs", "configurations"],
 "every edit history, every position, every element value, signed and unsigned",
 "Sums are derived data updated by deltas on each edit; an error in one delta path shows only at particular positions and shapes.",
 [D+"summed_detail.hpp", "include/bpptree/summed.hpp"],
 [("delta propagation", D+"summed_detail.hpp"), ("sum_inclusive/sum_exclusive", D+"summed_detail.hpp")],
 [("child_sums", "sum below each child", D+"summed_detail.hpp")])

prop("P11", "Searching by prefix sum finds the first element reaching the target",
 "On a summed tree whose values are not negative and whose total does not overflow, the search by prefix sum returns the first element whose inclusive prefix sum is at least the target, and the end position when the total is smaller than the target. Zero values and targets equal to a prefix sum are handled like any other.",
 ["inputs", "histories"],
 "every tree shape, every non-negative element vector, every target",
 "One test covers it, with strictly positive consecutive integers; it has no zeros, no unreachable target and no edited tree.",
 [D+"summed_detail.hpp", "include/bpptree/summed.hpp"],
 [("find_index_forward / seek_index_forward", D+"summed_detail.hpp")])

prop("P12", "The tree minimum and maximum are always exact",
 "On a tree with the min or max extension, the reported minimum (maximum) equals the least (greatest) extracted key among the elements under the given comparator, and the reported extreme element is an element of the tree with that key. This holds after every history of edits, including removal or overwriting of the current extreme.",
 ["histories", "inputs", "configurations"],
 "every edit history, every value including ties, min and max, custom comparator and extractor",
 "Cached per-child extremes must be recomputed on removal and replacement; only particular positions and values expose a stale one.",
 [D+"minmax.hpp", D+"minmax2.ipp", "include/bpptree/min.hpp", "include/bpptree/max.hpp"],
 [("min/max excluding the changed child", D+"minmax.hpp")],
 [("mins/maxs", "extreme key below each child", D+"minmax.hpp")])

prop("P13", "Range minimum and maximum queries are exact",
 "For every non-empty range given by two iterators, forward or reverse, the range minimum (maximum) equals the least (greatest) extracted key among exactly the elements of that range, and the range's extreme-element query returns an iterator to an element inside that range with that key.",
 ["inputs", "histories"],
 "every tree shape, every pair of positions, every values, forward and reverse iterators",
 "Tests sample ranges at one node size; a range that starts or ends at a node boundary or lies in one leaf is a matter of chance.",
 [D+"minmax.hpp", D+"minmax2.ipp"],
 [("min_before/min_after/min over a range", D+"minmax.hpp")])

prop("P14", "Iterators walk the sequence exactly, in both directions",
 "Stepping an iterator visits the elements in order without skipping or repeating, decrementing undoes incrementing, and reverse iterators visit the same elements in exactly the opposite order, on every kind of tree. Moving by n equals n single steps, and moving beyond either end stops at the end position or before-the-beginning position, from which the iterator can come back.",
 ["inputs", "histories", "configurations"],
 "every tree shape, every start position, every displacement, indexed or not, mutable or immutable",
 "Tests walk full ranges by one and use few random jumps; jumps across several levels, by exact subtree sizes, or past the ends are not sampled systematically.",
 [D+"iterator.hpp", D+"internalnodebase.hpp", D+"indexed_detail.hpp", D+"leafnodebase.hpp"],
 [("advance", D+"iterator.hpp"), ("advance over children", D+"internalnodebase.hpp"), ("advance by counts", D+"indexed_detail.hpp")],
 [("iter", "path of child indexes packed in 64 bits", D+"iterator.hpp")])

prop("P15", "Iterator comparison and distance agree with position",
 "For two iterators into the same tree of the same direction, equality and the orderings <, <=, >, >= agree with their positions in that direction, end and before-the-beginning positions included, and the orderings are mutually consistent (an iterator is never less than itself). On indexed trees the difference of two iterators is the number of steps between them, in either direction.",
 ["inputs", "histories"],
 "every tree shape, every pair of positions including the end positions, forward and reverse",
 "Only a few comparisons are tested, never an iterator with itself or with an equal reverse iterator.",
 [D+"iterator.hpp"],
 [("operator<, operator==, operator-", D+"iterator.hpp")])

prop("P16", "Insert and erase through an iterator leave it at the right element",
 "After inserting through an iterator it refers to the new element; after erasing through an iterator it refers to the element that followed in the iterator's direction, or to the end position if there is none. The iterator remains fully usable: dereference, stepping and further insertions and erasures through it work as on a freshly obtained iterator.",
 ["histories", "inputs"],
 "every tree shape, every position, forward and reverse iterators, chains of edits through one iterator",
 "Two tests cover the front, the back and the middle; the repositioning across emptied leaves and inner nodes, splits and root collapse depends on the exact shape.",
 [D+"internalnodebase.hpp", D+"leafnodebase.hpp", "include/bpptree/bpptree.hpp", D+"modify.hpp"],
 [("carry on erase", D+"internalnodebase.hpp"), ("new element side on split", D+"internalnodebase.hpp"), ("lazy leaf refresh", D+"iterator.hpp")])

prop("P17", "Replacing elements does not disturb existing iterators",
 "Assigning or updating elements of a mutable tree, directly or through any iterator or reference, leaves every iterator into it valid, at the same position, and reading the current value. Iterators into an immutable tree stay valid and keep reading the same elements while that tree exists, whatever happens to trees that share structure with it.",
 ["histories", "inputs"],
 "every set of outstanding iterators, every sequence of replacements, with copy on write happening under the iterator",
 "Tests hold at most one other iterator across an assignment and not while nodes are shared with a snapshot.",
 [D+"iterator.hpp", D+"modify.hpp", "include/bpptree/bpptree.hpp"],
 [("modification count and leaf refresh", D+"iterator.hpp")],
 [("mod_count", "number of modifications seen by the tree / by the iterator", D+"iterator.hpp")])

prop("P18", "Proxy references act like real references",
 "Reading, assigning, compound-assigning, incrementing, decrementing, comparing or combining through the reference returned by indexing or by dereferencing an iterator has the same effect and result as on a real reference to that element, swapping two of them swaps the elements, and derived data is kept up to date. Assigning through a key reference inserts the key when absent.",
 ["inputs", "histories"],
 "every operator, every position or key, every operand",
 "Few operators are exercised by the tests, and rarely with a check that derived data and neighbours are intact.",
 [D+"proxy_operators.hpp", D+"iterator.hpp", "include/bpptree/indexed.hpp", "include/bpptree/ordered.hpp"],
 [("ProxyOperators", D+"proxy_operators.hpp")])

prop("P19", "Extensions compose without disturbing each other",
 "A tree with any combination and order of the key, index, sum, min and max extensions keeps every extension's answers exact at the same time, after every history of edits and on snapshots. Positional edits on such a tree update all of them.",
 ["configurations", "histories", "inputs"],
 "every combination and order of extensions, every edit history",
 "The tests instantiate a handful of combinations, mostly two at a time.",
 [D+"indexed_detail.hpp", D+"summed_detail.hpp", D+"ordered_detail.hpp", D+"minmax.hpp", D+"nodetypes.hpp", D+"sandwich.hpp"],
 [("chained hooks of the mixins", D+"internalnodebase.hpp"), ("Chain", D+"sandwich.hpp")])

prop("P20", "Checked mode rejects bad requests and leaves the tree unchanged",
 "With safety checks enabled, looking up, assigning, updating or erasing a missing key, storing an element under a different key than the one addressed, taking the minimum or maximum of an empty tree or range, and ordering iterators of different trees are reported by an exception. The tree's content and answers are then exactly as before, and it remains usable.",
 ["inputs", "histories"],
 "every tree shape, every absent key, every empty range",
 "No test ever expects an exception.",
 [D+"ordered_detail.hpp", "include/bpptree/ordered.hpp", D+"minmax.hpp", D+"iterator.hpp", D+"leafnodebase.hpp"],
 [("find_key_index_checked", D+"ordered_detail.hpp"), ("min/max range check", D+"minmax.hpp")])

prop("P21", "An exception from a user's updater leaves the tree unchanged",
 "If the function given to an update of one element (by key, index, iterator or through a reference) throws, the exception reaches the caller and the tree's content, size, answers and outstanding iterators are as if the update had not been called. Nothing is leaked.",
 ["inputs", "histories"],
 "every position, every shape, shared or not, every kind of update",
 "No test throws from an updater.",
 [D+"leafnodebase.hpp", "include/bpptree/ordered.hpp", D+"modify.hpp"],
 [("updater called before any change", D+"leafnodebase.hpp")])

prop("P22", "Arguments may refer to elements of the same tree",
 "Inserting, assigning or updating with an argument (value or key) that refers to an element stored in the same tree has the same effect as passing a copy of that element made before the call.",
 ["inputs", "histories"],
 "every operation, every position of the edit and of the referenced element, trivial and non-trivial types",
 "No test passes a reference into the tree; the outcome depends on the relative position of source and destination inside one leaf.",
 [D+"leafnodebase.hpp", D+"uninitialized_array.hpp", "include/bpptree/ordered.hpp"],
 [("in-place shifting before construction", D+"leafnodebase.hpp"), ("destroy then construct in place", D+"uninitialized_array.hpp")])

prop("P23", "Trees sharing structure can be used from different threads",
 "Threads that each use their own tree object may read, edit, copy and destroy them freely even when those trees share structure: no operation writes shared node memory other than the reference count, every access to the reference count is atomic, and a node is destroyed only after all other threads' uses of it.",
 ["schedules", "histories"],
 "every interleaving of operations on trees that share nodes",
 "The test suite is single threaded.",
 [D+"nodeptr.hpp", D+"nodetypes.hpp", D+"leafnodebase.hpp", D+"internalnodebase.hpp"],
 [("atomic reference count with release/acquire on the last release", D+"nodeptr.hpp"), ("marked nodes are never written", D+"internalnodebase.hpp")],
 [("ref_count", "atomic count of owners", D+"nodetypes.hpp"), ("persistent", "node may be shared", D+"nodetypes.hpp")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))

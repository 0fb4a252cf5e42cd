From 84c9c11be50a628628ce1f20fd6e5a321dd81d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:28 +0000
Subject: [PATCH 1/9] fix: pop_back must erase the last element, not the
 position after it

pop_back used the insertion finder, whose index on the leaf is length. The
leaf then computed the deltas of values[length], so sums, minima, maxima and
keys went wrong, and on a full leaf it read out of bounds.
---
 include/bpptree/bpptree.hpp           | 2 +-
 include/bpptree/detail/operations.hpp | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/bpptree/bpptree.hpp b/include/bpptree/bpptree.hpp
index c15c013..ed91530 100644
--- a/include/bpptree/bpptree.hpp
+++ b/include/bpptree/bpptree.hpp
@@ -322,7 +322,7 @@ public:
 
         Value pop_back() {
             Value ret = this->self().back();
-            this->self().dispatch(Modify<Erase>(), find_last, Empty::empty);
+            this->self().dispatch(Modify<Erase>(), find_back, Empty::empty);
             return ret;
         }
 
diff --git a/include/bpptree/detail/operations.hpp b/include/bpptree/detail/operations.hpp
index c817d28..b15a1a0 100644
--- a/include/bpptree/detail/operations.hpp
+++ b/include/bpptree/detail/operations.hpp
@@ -71,6 +71,10 @@ inline constexpr auto find_last = [](auto const& node, Empty const&) {
     }
 };
 
+inline constexpr auto find_back = [](auto const& node, Empty const&) {
+    return std::tuple<int32_t, Empty>(node.length - 1, Empty::empty);
+};
+
 inline constexpr auto find_iterator = [](auto const& node, uint64_t const& it) {
     return std::tuple<int32_t, uint64_t>(node.get_index(it), it);
 };
-- 
2.43.0


From c319b6dc742bfef3389d936490b405b150e2f914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:28 +0000
Subject: [PATCH 2/9] fix: inserting a reference to an element of the same leaf

An unshared leaf was shifted in place before the new element was constructed
from its arguments, so t.push_front(t.back()) inserted another element.
---
 include/bpptree/detail/leafnodebase.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/bpptree/detail/leafnodebase.hpp b/include/bpptree/detail/leafnodebase.hpp
index 45d659a..097e6d0 100644
--- a/include/bpptree/detail/leafnodebase.hpp
+++ b/include/bpptree/detail/leafnodebase.hpp
@@ -159,7 +159,9 @@ struct LeafNodeBase : public Parent {
                 insert_no_split(*replace.delta.ptr, index, std::forward<Args>(args)...);
                 do_replace(replace);
             } else {
-                insert_no_split(this->self(), index, std::forward<Args>(args)...);
+                // args may refer to an element of this leaf, which is about to be shifted
+                Value value(std::forward<Args>(args)...);
+                insert_no_split(this->self(), index, std::move(value));
                 do_replace(replace);
             }
         } else {
@@ -169,7 +171,8 @@ struct LeafNodeBase : public Parent {
                 bool new_element_left = insert_split(*left, *right, index, iter, right_most, std::forward<Args>(args)...);
                 do_split(SplitType(std::move(left), std::move(right), true, new_element_left));
             } else {
-                bool new_element_left = insert_split(this->self(), *right, index, iter, right_most, std::forward<Args>(args)...);
+                Value value(std::forward<Args>(args)...);
+                bool new_element_left = insert_split(this->self(), *right, index, iter, right_most, std::move(value));
                 do_split(SplitType(&(this->self()), std::move(right), false, new_element_left));
             }
         }
-- 
2.43.0


From 1056df8ede32f755a780ae764ee83d5f801fc47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:28 +0000
Subject: [PATCH 3/9] fix: replacing an element with arguments that refer to it

emplace_unchecked destroyed the old element before constructing the new one
from arguments that may refer to its parts, for example its key.
---
 include/bpptree/detail/uninitialized_array.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/bpptree/detail/uninitialized_array.hpp b/include/bpptree/detail/uninitialized_array.hpp
index 01f3a94..1c290fa 100644
--- a/include/bpptree/detail/uninitialized_array.hpp
+++ b/include/bpptree/detail/uninitialized_array.hpp
@@ -127,8 +127,9 @@ public:
             (*this)[index] = (..., std::forward<Us>(us));
             return (*this)[index];
         }
-        (*this)[index].~T();
-        return *new(un.data + index) T(std::forward<Us>(us)...);
+        // us may refer to parts of the element being replaced
+        (*this)[index] = T(std::forward<Us>(us)...);
+        return (*this)[index];
     }
 
     T* begin() {
-- 
2.43.0


From 4d83454961baec7156441093916c150be0873395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:28 +0000
Subject: [PATCH 4/9] fix: a reverse iterator is not less than itself

Negating < for reverse iterators gave >=, so a < a was true and a <= a false.
---
 include/bpptree/detail/iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bpptree/detail/iterator.hpp b/include/bpptree/detail/iterator.hpp
index 694ddf9..4041409 100644
--- a/include/bpptree/detail/iterator.hpp
+++ b/include/bpptree/detail/iterator.hpp
@@ -264,7 +264,7 @@ struct IteratorDetail : public IteratorBase<Tree, is_const> {
             throw std::logic_error("cannot compare iterators from different trees");
         }
 #endif
-        return reverse ^ (iter + 1 < rhs.iter + 1);
+        return reverse ? rhs.iter + 1 < iter + 1 : iter + 1 < rhs.iter + 1;
     }
 
     template <typename RHS>
-- 
2.43.0


From 8226c98fa96064f8ca516317b8e9aa24a278d9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:28 +0000
Subject: [PATCH 5/9] fix: difference with a forward iterator before the
 beginning

An iterator decremented past begin() holds the rend marker; the forward
difference passed it to order(), which read far outside the nodes.
---
 include/bpptree/detail/iterator.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/bpptree/detail/iterator.hpp b/include/bpptree/detail/iterator.hpp
index 4041409..3305447 100644
--- a/include/bpptree/detail/iterator.hpp
+++ b/include/bpptree/detail/iterator.hpp
@@ -252,7 +252,9 @@ struct IteratorDetail : public IteratorBase<Tree, is_const> {
             ret += it.iter == rend ? -1 : static_cast<ssize>(tree->order(it));
             return ret;
         } else {
-            return static_cast<ssize>(tree->order(*this)) - static_cast<ssize>(tree->order(it));
+            ssize ret = iter == rend ? -1 : static_cast<ssize>(tree->order(*this));
+            ret -= it.iter == rend ? -1 : static_cast<ssize>(tree->order(it));
+            return ret;
         }
     }
 
-- 
2.43.0


From 005f90f081f041c38979a8a0b13d582f004c128c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:28 +0000
Subject: [PATCH 6/9] fix: do not write the persistent flag of leaves that are
 already shared

make_persistent of a mutable tree visits leaves it shares with immutable trees
of other threads; writing their flag again is a data race.
---
 include/bpptree/detail/leafnodebase.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/bpptree/detail/leafnodebase.hpp b/include/bpptree/detail/leafnodebase.hpp
index 097e6d0..9256cfc 100644
--- a/include/bpptree/detail/leafnodebase.hpp
+++ b/include/bpptree/detail/leafnodebase.hpp
@@ -276,7 +276,10 @@ struct LeafNodeBase : public Parent {
     }
 
     void make_persistent() {
-        this->persistent = true;
+        // a leaf that is already persistent may be shared with other threads and must not be written
+        if (!this->persistent) {
+            this->persistent = true;
+        }
     }
 
     void seek_first(uint64_t& it) const {
-- 
2.43.0


From dd88dd95b40451b1386a89404d6498e861a710ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:10 +0000
Subject: [PATCH 7/9] fix: a copy of a mutable tree must be independent of the
 original

Copying a transient tree shared its nodes without marking them, so an edit
of either tree changed the other one in place.
---
 include/bpptree/bpptree.hpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/bpptree/bpptree.hpp b/include/bpptree/bpptree.hpp
index ed91530..f595107 100644
--- a/include/bpptree/bpptree.hpp
+++ b/include/bpptree/bpptree.hpp
@@ -243,6 +243,25 @@ public:
         template <typename... Us>
         explicit Transient(Us&&... us) : Parent(std::forward<Us>(us)...) {}
 
+        // a copy shares its nodes with the original, so neither may modify them in place any more
+        Transient(Transient const& other) : Parent(other), mod_count(other.mod_count) {
+            this->self().dispatch([](auto&, auto& root) {
+                root->make_persistent();
+            });
+        }
+
+        Transient(Transient& other) : Transient(std::as_const(other)) {}
+
+        Transient(Transient&& other) = default;
+
+        Transient& operator=(Transient const& other) {
+            return *this = Transient(other);
+        }
+
+        Transient& operator=(Transient&& other) = default;
+
+        ~Transient() = default;
+
         [[nodiscard]] Persistent persistent() const& {
             return Persistent(this->root_variant, this->tree_size);
         }
-- 
2.43.0


From febd88c1f69466872ec18fbb87ad50143afa72c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:29 +0000
Subject: [PATCH 8/9] fix: checked range min/max must reject every empty range

---
 include/bpptree/detail/minmax2.ipp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/bpptree/detail/minmax2.ipp b/include/bpptree/detail/minmax2.ipp
index 1bf721b..7019b1a 100644
--- a/include/bpptree/detail/minmax2.ipp
+++ b/include/bpptree/detail/minmax2.ipp
@@ -18,6 +18,11 @@ template <typename Value, typename KeyExtractor, typename Comp>
 template <typename Parent>
 template <typename It>
 typename BPPTREE_MINMAX_UPPER<Value, KeyExtractor, Comp>::KeyRef BPPTREE_MINMAX_UPPER<Value, KeyExtractor, Comp>::Shared<Parent>::BPPTREE_MINMAX(const It& begin, const It& end) const {
+#ifdef BPPTREE_SAFETY_CHECKS
+    if (!(begin < end)) {
+        throw std::out_of_range("cannot call " BPPTREE_MINMAXSTR " on empty range");
+    }
+#endif
     return this->self().dispatch(
             [&begin, &end](auto const& root) -> decltype(auto) {
                 if constexpr (It::is_reversed) {
@@ -42,6 +47,11 @@ template <typename Value, typename KeyExtractor, typename Comp>
 template <typename Parent>
 template <typename OutIt, typename InIt>
 void BPPTREE_MINMAX_UPPER<Value, KeyExtractor, Comp>::Shared<Parent>::BPPTREE_CONCAT(seek_, BPPTREE_MINMAX)(OutIt& out, const InIt& begin, const InIt& end) const {
+#ifdef BPPTREE_SAFETY_CHECKS
+    if (!(begin < end)) {
+        throw std::out_of_range("cannot call " BPPTREE_MINMAXSTR " on empty range");
+    }
+#endif
     this->self().dispatch(
             [&out, &begin, &end](auto const& root) {
                 if constexpr (InIt::is_reversed) {
-- 
2.43.0


From e0c8544d54853ea3a5d692d0a4112d7c79290a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:29 +0000
Subject: [PATCH 9/9] fix: advancing past the only position of an empty leaf
 must reach end()

---
 include/bpptree/detail/leafnodebase.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/bpptree/detail/leafnodebase.hpp b/include/bpptree/detail/leafnodebase.hpp
index 9256cfc..364191d 100644
--- a/include/bpptree/detail/leafnodebase.hpp
+++ b/include/bpptree/detail/leafnodebase.hpp
@@ -321,7 +321,11 @@ struct LeafNodeBase : public Parent {
         auto sum = get_index(it) + n;
         if (sum >= this->length) {
             auto ret = sum - (this->length - 1);
-            set_index(it, this->length - 1);
+            if (this->length == 0) {
+                clear_index(it);
+            } else {
+                set_index(it, this->length - 1);
+            }
             return ret;
         }
         if (sum < 0) {
-- 
2.43.0


From 05e369db14db1a06d37c0fda7278378244a8fa69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 01/18] hook: report the tree shape under
 BOOST_SEGMENTED_TREE_VERIFY

---
 include/boost/segmented_tree/seq.hpp | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index 06ea217..69ea54f 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -3771,6 +3771,34 @@ class seq {
   ///   No-throw if the allocator propagates on swap or the allocator doesn't
   ///   throw on swap. Strong otherwise.
   friend void swap(seq& a, seq& b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
+
+#ifdef BOOST_SEGMENTED_TREE_VERIFY
+  // Verification hook: reports the shape of the tree as a stream of numbers, in
+  // preorder, so that a state explorer can recognise states it has seen.
+  template <typename F>
+  void verify_shape(F&& f) const {
+    f(get_size());
+    f(get_height());
+    if (get_height() < 2) return;
+    auto root = static_traits::cast_node(get_root());
+    f(root->parent_pointer == nullptr ? 1 : 0);
+    verify_shape_node(root, get_height(), f);
+  }
+
+ private:
+  template <typename F>
+  void verify_shape_node(node_pointer pointer, size_type ht, F& f) const {
+    f(pointer->length());
+    for (size_type i = 0, e = pointer->length(); i != e; ++i) {
+      f(pointer->sizes[i]);
+      if (ht == 2) continue;
+      auto child = static_traits::cast_node(pointer->pointers[i]);
+      f(child->parent_pointer == pointer ? 1 : 0);
+      f(child->parent_index());
+      verify_shape_node(child, ht - 1, f);
+    }
+  }
+#endif
 };
 }
 }
-- 
2.43.0


From f9f9425402f2d3ba01567be0aec2f83855270786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:40 +0000
Subject: [PATCH 02/18] fix: before_segment(count) moves back count elements
 past the last element of the previous segment

---
 include/boost/segmented_tree/seq.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index 69ea54f..fada557 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -695,8 +695,8 @@ struct static_traits_t {
   }
 
   static void move_before_segment_count(iterator_data& it, size_type count) {
-    it.pos -= it.entry.segment.index + 1 - count;
-    move_prev_leaf_count(it.entry, count);
+    it.pos -= it.entry.segment.index + 1 + count;
+    move_prev_leaf_count(it.entry, count + 1);
   }
 };
 }
-- 
2.43.0


From c63128752b32ceb261cd0137a5241bc289fea7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:40 +0000
Subject: [PATCH 03/18] fix: do not deallocate a null segment when an empty
 sequence is purged

---
 include/boost/segmented_tree/seq.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index fada557..af23c3d 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -1263,6 +1263,7 @@ class seq {
   }
 
   void purge_root(void_pointer pointer, size_type sz, size_type ht) {
+    if (ht == 0) return;
     if (ht < 2)
       purge_segment(static_traits::cast_segment(pointer), sz);
     else
-- 
2.43.0


From 9d46beb87964346de6ed8b74a5aa2a460279d5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:40 +0000
Subject: [PATCH 04/18] fix: count insert and resize accept a reference to an
 element of the sequence

---
 include/boost/segmented_tree/seq.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index af23c3d..8fda163 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -3121,7 +3121,9 @@ class seq {
   /// \par Exception safety
   ///   Basic.
   iterator insert(const_iterator pos, size_type count, T const& value) {
-    return emplace_count(pos.it_, count, value);
+    // value may refer to an element of *this.
+    value_type const copy(value);
+    return emplace_count(pos.it_, count, copy);
   }
 
   /// \par Effects
@@ -3360,7 +3362,9 @@ class seq {
   /// \par Exception safety
   ///   Basic.
   void resize(size_type count, value_type const& value) {
-    resize_count(count, value);
+    // value may refer to an element of *this.
+    value_type const copy(value);
+    resize_count(count, copy);
   }
 
   /// \par Effects
-- 
2.43.0


From aba18136ffe2c1a9d4d8d86ab783dfb6c86b73cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:40 +0000
Subject: [PATCH 05/18] fix: remove accepts a reference to an element of the
 sequence

---
 include/boost/segmented_tree/seq.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index 8fda163..083496a 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -3574,7 +3574,20 @@ class seq {
   /// \par Exception safety
   ///   Basic.
   void remove(const T& value) {
-    erase(std::remove(begin(), end(), value), end());
+    auto last = end();
+    auto dest = std::find(begin(), last, value);
+    if (dest == last) return;
+
+    // value may refer to an element of *this, so compare to a removed element.
+    value_type const removed(std::move(*dest));
+    auto source = dest;
+    for (++source; source != last; ++source) {
+      if (!(*source == removed)) {
+        *dest = std::move(*source);
+        ++dest;
+      }
+    }
+    erase(dest, last);
   }
 
   /// \par Effects
-- 
2.43.0


From d71a19e0851a59ace4270278dd76df484e12d1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:40 +0000
Subject: [PATCH 06/18] fix: a failed resize leaves the sequence as it was

---
 include/boost/segmented_tree/seq.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index 083496a..be4cb0d 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -2221,8 +2221,14 @@ class seq {
     auto last = find_end();
     if (count < sz)
       erase_range(find_index(count), last);
-    else
-      emplace_count(last, count - sz, std::forward<Args>(args)...);
+    else {
+      try {
+        emplace_count(last, count - sz, std::forward<Args>(args)...);
+      } catch (...) {
+        erase_range(nth(sz).it_, find_end());
+        throw;
+      }
+    }
   }
 
   void copy_assign_alloc(seq const& other) {
-- 
2.43.0


From 02dbca9126af9805a6f9928ec9ea676f9424c4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:40 +0000
Subject: [PATCH 07/18] fix: a throwing move during insertion without a split
 leaves a valid sequence

---
 include/boost/segmented_tree/seq.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index be4cb0d..ebe4124 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -1614,19 +1614,24 @@ class seq {
 
     if (index != length && length != static_traits::segment_max()) {
       move_segment(pointer, length - 1, pointer, length);
-      assign_forward_segment(pointer, length - 1, index, 1);
-      assign_segment(pointer, index, std::move(value));
       ++entry.segment.length;
       increment_sizes(parent_pointer, parent_index);
+      assign_forward_segment(pointer, length - 1, index, 1);
+      assign_segment(pointer, index, std::move(value));
       return;
     }
 
     if (pointer == nullptr) {
       auto alloc = allocate_segment();
+      try {
+        construct_segment(alloc, 0, std::move(value));
+      } catch (...) {
+        deallocate_segment(alloc);
+        throw;
+      }
       get_root() = alloc;
       get_size() = 1;
       get_height() = 1;
-      construct_segment(alloc, 0, std::move(value));
       entry.segment.pointer = alloc;
       entry.segment.length = 1;
       return;
-- 
2.43.0


From 4db67bc9c4c3246f50208e8b622d984e6315c682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:40 +0000
Subject: [PATCH 08/18] fix: splice of one element moves it instead of copying
 it

---
 include/boost/segmented_tree/seq.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index ebe4124..899acb3 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -3516,7 +3516,7 @@ class seq {
   /// \par Exception safety
   ///   Basic.
   void splice(const_iterator pos, seq& other, const_iterator it) {
-    insert(pos, std::move(*it));
+    insert(pos, std::move(*iterator{it.it_}));
     other.erase(it);
   }
 
-- 
2.43.0


From a82c6aa5eac8b2bf7f50b9bcd1b566833a7dc2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:40 +0000
Subject: [PATCH 09/18] fix: destroy trivial elements through an allocator that
 supplies destroy

---
 include/boost/segmented_tree/seq.hpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index 899acb3..9e478bb 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -54,6 +54,21 @@ struct is_alloc_move_construct_default {
       decltype(test<Alloc>(std::declval<Alloc>()))::value;
 };
 
+template <typename T, typename Alloc>
+struct is_alloc_destroy_default {
+ private:
+  template <typename U>
+  static auto test(U alloc)
+      -> decltype(alloc.destroy(std::declval<T*>()), std::false_type{});
+  template <typename>
+  static std::true_type test(...);
+
+ public:
+  static bool constexpr value =
+      std::is_same<Alloc, std::allocator<T>>::value ||
+      decltype(test<Alloc>(std::declval<Alloc>()))::value;
+};
+
 template <typename T, typename VoidPointer, typename SizeType,
           std::size_t segment_target, std::size_t base_target>
 struct static_traits_t {
@@ -1242,7 +1257,9 @@ class seq {
     purge_segment(
         pointer, sz,
         std::integral_constant<bool,
-                               std::is_trivially_destructible<T>::value>{});
+                               std::is_trivially_destructible<T>::value &&
+                                   detail::is_alloc_destroy_default<
+                                       value_type, allocator_type>::value>{});
     deallocate_segment(pointer);
   }
 
@@ -1394,6 +1411,8 @@ class seq {
         source, source_index, dest, dest_index, count,
         std::integral_constant < bool,
         std::is_trivially_copyable<T>::value &&
+            detail::is_alloc_destroy_default<value_type,
+                                             allocator_type>::value &&
             (std::is_same<allocator_type, std::allocator<value_type>>::value ||
              detail::is_alloc_move_construct_default<value_type,
                                                      allocator_type>::value) >
-- 
2.43.0


From 46c7ba76d6f8ab7b52f20b4ef4f950ad6d2ed681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:40 +0000
Subject: [PATCH 10/18] fix: limit the children of a node to what its 16-bit
 length can count

---
 include/boost/segmented_tree/seq.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index 9e478bb..39fdd29 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -125,7 +125,8 @@ struct static_traits_t {
   }
 
   static constexpr std::size_t base_max() {
-    return base_fit() > 3 ? base_fit() : 3;
+    // A node stores its length and its index in its parent in 16 bits.
+    return base_fit() > 3 ? base_fit() < 65535 ? base_fit() : 65535 : 3;
   }
 
   static constexpr std::size_t segment_min() { return (segment_max() + 1) / 2; }
-- 
2.43.0


From 42fc67e63de1e5b52ed8b981f5573c2f4f3a07c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 11/18] fix: constructors work for element types that an
 allocator converts to

---
 include/boost/segmented_tree/seq.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index 39fdd29..a4527cd 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -2363,7 +2363,7 @@ class seq {
   /// \par Complexity
   ///   NlogN, where N is count.
   seq(size_type count, T const& value, Allocator const& alloc = Allocator())
-      : seq{alloc} {
+      : seq(alloc) {
     emplace_count(find_end(), count, value);
   }
 
@@ -2374,7 +2374,7 @@ class seq {
   /// \par Complexity
   ///   NlogN, where N is count.
   explicit seq(size_type count, Allocator const& alloc = Allocator())
-      : seq{alloc} {
+      : seq(alloc) {
     emplace_count(find_end(), count);
   }
 
@@ -2387,7 +2387,7 @@ class seq {
   template <class InputIt,
             typename = typename std::iterator_traits<InputIt>::pointer>
   seq(InputIt first, InputIt last, Allocator const& alloc = Allocator())
-      : seq{alloc} {
+      : seq(alloc) {
     emplace_range(find_end(), first, last);
   }
 
@@ -2397,8 +2397,8 @@ class seq {
   /// \par Complexity
   ///   NlogN, where N is other.size().
   seq(seq const& other)
-      : seq{element_traits::select_on_container_copy_construction(
-            other.get_element_allocator())} {
+      : seq(element_traits::select_on_container_copy_construction(
+            other.get_element_allocator())) {
     emplace_range(find_end(), other.begin(), other.end());
   }
 
@@ -2407,7 +2407,7 @@ class seq {
   ///
   /// \par Complexity
   ///   NlogN, where N is other.size().
-  seq(seq const& other, Allocator const& alloc) : seq{alloc} {
+  seq(seq const& other, Allocator const& alloc) : seq(alloc) {
     emplace_range(find_end(), other.begin(), other.end());
   }
 
@@ -2432,7 +2432,7 @@ class seq {
   /// \par Complexity
   ///   Constant if alloc compares equal to other's allocator. NlogN, where N is
   ///   other.size() otherwise.
-  seq(seq&& other, Allocator const& alloc) : seq{alloc} {
+  seq(seq&& other, Allocator const& alloc) : seq(alloc) {
     if (get_element_allocator() == other.get_element_allocator())
       steal(other);
     else
@@ -2447,7 +2447,7 @@ class seq {
   /// \par Complexity
   ///   NlogN, where N is init.size().
   seq(std::initializer_list<T> init, Allocator const& alloc = Allocator())
-      : seq{alloc} {
+      : seq(alloc) {
     emplace_range(find_end(), init.begin(), init.end());
   }
 
-- 
2.43.0


From d960e20322ac11aab2acaf48d748fb0a56448ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:01 +0000
Subject: [PATCH 12/18] fix: a throwing move during a split or merge leaves a
 valid, leak-free sequence

---
 include/boost/segmented_tree/seq.hpp | 107 +++++++++++++++++++--------
 1 file changed, 77 insertions(+), 30 deletions(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index a4527cd..8bd2444 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -1381,7 +1381,28 @@ class seq {
     return child_sz;
   }
 
-  // construct_range
+  // destroy_range
+  void destroy_range_segment(element_pointer, size_type, size_type,
+                             std::true_type) {}
+
+  void destroy_range_segment(element_pointer pointer, size_type index,
+                             size_type count, std::false_type) {
+    for (size_type last = index + count; index != last; ++index)
+      destroy_segment(pointer, index);
+  }
+
+  void destroy_range_segment(element_pointer pointer, size_type index,
+                             size_type count) {
+    destroy_range_segment(
+        pointer, index, count,
+        std::integral_constant<bool,
+                               std::is_trivially_destructible<T>::value &&
+                                   detail::is_alloc_destroy_default<
+                                       value_type, allocator_type>::value>{});
+  }
+
+  // construct_range, the source is left to be destroyed, nothing remains
+  // constructed in dest if this throws
   void construct_range_segment(element_pointer source, size_type source_index,
                                element_pointer dest, size_type dest_index,
                                size_type count, std::true_type) {
@@ -1392,15 +1413,14 @@ class seq {
   void construct_range_segment(element_pointer source, size_type source_index,
                                element_pointer dest, size_type dest_index,
                                size_type count, std::false_type) {
-    auto from = source_index;
-    auto last = source_index + count;
-    auto to = dest_index;
-
-    while (from != last) {
-      construct_segment(dest, to, std::move(source[from]));
-      destroy_segment(source, from);
-      ++from;
-      ++to;
+    size_type i = 0;
+    try {
+      for (; i != count; ++i)
+        construct_segment(dest, dest_index + i,
+                          std::move(source[source_index + i]));
+    } catch (...) {
+      destroy_range_segment(dest, dest_index, i);
+      throw;
     }
   }
 
@@ -1609,17 +1629,22 @@ class seq {
         pointer = pointer->parent_pointer;
       }
     } catch (...) {
-      deallocate_segment(segment_alloc);
-
-      while (alloc != nullptr) {
-        auto temp = alloc->parent_pointer;
-        deallocate_node(alloc);
-        alloc = temp;
-      }
+      dealloc_nodes_single(alloc, segment_alloc);
       throw;
     }
   }
 
+  // dealloc_nodes_single
+  void dealloc_nodes_single(node_pointer alloc, element_pointer segment_alloc) {
+    deallocate_segment(segment_alloc);
+
+    while (alloc != nullptr) {
+      auto temp = alloc->parent_pointer;
+      deallocate_node(alloc);
+      alloc = temp;
+    }
+  }
+
   //   insert_single
   void insert_single_iterator(iterator_data& it, value_type value) {
     insert_single_segment(it.entry, std::move(value));
@@ -1673,20 +1698,37 @@ class seq {
 
     if (index < pointer_length) {
       auto left_index = pointer_length - 1;
-      move_segment(pointer, left_index, alloc, 0);
-      construct_range_segment(pointer, left_index + 1, alloc, 1,
-                              alloc_length - 1);
-      assign_forward_segment(pointer, left_index, index, 1);
-      assign_segment(pointer, index, std::move(value));
+      try {
+        construct_range_segment(pointer, left_index, alloc, 0, alloc_length);
+      } catch (...) {
+        dealloc_nodes_single(leaf_alloc, alloc);
+        throw;
+      }
+      destroy_range_segment(pointer, left_index + 1, alloc_length - 1);
 
       entry.segment.length = pointer_length;
+      insert_single_leaf(entry, pointer, parent_pointer, parent_index + 1,
+                         leaf_alloc, alloc, alloc_length);
+      assign_forward_segment(pointer, left_index, index, 1);
+      assign_segment(pointer, index, std::move(value));
+      return;
     } else {
       auto new_index = index - pointer_length;
       auto move_length = length - index;
-      construct_range_segment(pointer, pointer_length, alloc, 0, new_index);
-      construct_range_segment(pointer, index, alloc, new_index + 1,
-                              move_length);
-      construct_segment(alloc, new_index, std::move(value));
+      size_type constructed = 0;
+      try {
+        construct_range_segment(pointer, pointer_length, alloc, 0, new_index);
+        constructed = new_index;
+        construct_segment(alloc, new_index, std::move(value));
+        ++constructed;
+        construct_range_segment(pointer, index, alloc, new_index + 1,
+                                move_length);
+      } catch (...) {
+        destroy_range_segment(alloc, 0, constructed);
+        dealloc_nodes_single(leaf_alloc, alloc);
+        throw;
+      }
+      destroy_range_segment(pointer, pointer_length, length - pointer_length);
       entry.segment.length = alloc_length;
       entry.segment.pointer = alloc;
       entry.segment.index = new_index;
@@ -1888,9 +1930,14 @@ class seq {
       }
 
       construct_range_segment(pointer, 0, prev_pointer, prev_length, index);
-      construct_range_segment(pointer, index + 1, prev_pointer,
-                              prev_length + index, length - index);
-      destroy_segment(pointer, index);
+      try {
+        construct_range_segment(pointer, index + 1, prev_pointer,
+                                prev_length + index, length - index);
+      } catch (...) {
+        destroy_range_segment(prev_pointer, prev_length, index);
+        throw;
+      }
+      destroy_range_segment(pointer, 0, length + 1);
       deallocate_segment(pointer);
       sizes[prev_index] = merge_size;
       erase_index = parent_index;
@@ -1919,9 +1966,9 @@ class seq {
 
       assign_backward_segment(pointer, length, index, 1);
       move_assign_segment(next_pointer, 0, pointer, length);
-      destroy_segment(next_pointer, 0);
       construct_range_segment(next_pointer, 1, pointer, length + 1,
                               next_length - 1);
+      destroy_range_segment(next_pointer, 0, next_length);
       deallocate_segment(next_pointer);
 
       sizes[parent_index] = merge_size;
-- 
2.43.0


From 03f1fc3e17976145f76f85858dc5056fc14342a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:39 +0000
Subject: [PATCH 13/18] fix: swap compiles for allocators that cannot be
 swapped or assigned

---
 include/boost/segmented_tree/seq.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index 8bd2444..b29a153 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -29,8 +29,14 @@ using std::swap;
 
 template <typename T>
 struct test {
-  static bool const value =
-      noexcept(swap(std::declval<T&>(), std::declval<T&>()));
+  template <typename U>
+  static auto check(int)
+      -> std::integral_constant<bool, noexcept(swap(std::declval<U&>(),
+                                                    std::declval<U&>()))>;
+  template <typename>
+  static std::false_type check(...);
+
+  static bool const value = decltype(check<T>(0))::value;
 };
 }
 
-- 
2.43.0


From c91ae3a1a234df027fda5cf2955bba4d23c25d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:04 +0000
Subject: [PATCH 14/18] fix: construct and destroy the pointers in index nodes

Index nodes are raw storage, but their element, child and parent pointers
were assigned to without being constructed and never destroyed. For an
allocator with class-type pointers that is undefined behaviour.
---
 include/boost/segmented_tree/seq.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index b29a153..e7b5e00 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -1228,7 +1228,10 @@ class seq {
   }
 
   node_pointer allocate_node() {
-    return node_traits::allocate(get_node_allocator(), 1);
+    auto pointer = node_traits::allocate(get_node_allocator(), 1);
+    ::new (static_cast<void*>(std::addressof(pointer->parent_pointer)))
+        node_pointer(nullptr);
+    return pointer;
   }
 
   // destroy
@@ -1248,6 +1251,7 @@ class seq {
   }
 
   void deallocate_node(node_pointer pointer) {
+    pointer->parent_pointer.~node_pointer();
     node_traits::deallocate(get_node_allocator(), pointer, 1);
   }
 
@@ -1456,7 +1460,8 @@ class seq {
     auto to = dest_index;
 
     while (from != last) {
-      copy_size += move_assign_leaf(source, from, dest, to);
+      copy_size += move_leaf(source, from, dest, to);
+      destroy_node(source, from);
       ++from;
       ++to;
     }
@@ -1473,7 +1478,8 @@ class seq {
     auto to = dest_index;
 
     while (from != last) {
-      copy_size += move_assign_branch(source, from, dest, to);
+      copy_size += move_branch(source, from, dest, to);
+      destroy_node(source, from);
       ++from;
       ++to;
     }
-- 
2.43.0


From 7c2ea69235d975ee9c8db3cf8575aace5884927e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:52 +0000
Subject: [PATCH 15/18] fix: construct the new element first when a block is
 split

---
 include/boost/segmented_tree/seq.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index e7b5e00..0f825a6 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -1727,16 +1727,18 @@ class seq {
     } else {
       auto new_index = index - pointer_length;
       auto move_length = length - index;
-      size_type constructed = 0;
+      // The new element comes first, nothing has been moved if it throws.
+      size_type first = new_index;
+      size_type last = new_index;
       try {
-        construct_range_segment(pointer, pointer_length, alloc, 0, new_index);
-        constructed = new_index;
         construct_segment(alloc, new_index, std::move(value));
-        ++constructed;
+        ++last;
+        construct_range_segment(pointer, pointer_length, alloc, 0, new_index);
+        first = 0;
         construct_range_segment(pointer, index, alloc, new_index + 1,
                                 move_length);
       } catch (...) {
-        destroy_range_segment(alloc, 0, constructed);
+        destroy_range_segment(alloc, first, last - first);
         dealloc_nodes_single(leaf_alloc, alloc);
         throw;
       }
-- 
2.43.0


From a64b2475c0a900015e0a6791c4ddb14ba06eca37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:46 +0000
Subject: [PATCH 16/18] fix: include what std::uint16_t and std::out_of_range
 need, so that the header compiles on its own

---
 include/boost/segmented_tree/seq.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index 0f825a6..e3733da 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -9,9 +9,11 @@
 
 #include <algorithm>
 #include <array>
+#include <cstdint>
 #include <cstring>
 #include <functional>
 #include <limits>
+#include <stdexcept>
 #include <type_traits>
 #include <utility>
 
-- 
2.43.0


From 23b75de8f37035fa1fe0a2ba3ce74353e9019d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:46 +0000
Subject: [PATCH 17/18] fix: the default constructor was explicit, so that {}
 could not initialise a sequence (as in LWG 2193)

---
 include/boost/segmented_tree/seq.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index e3733da..fb15e52 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -2408,7 +2408,7 @@ class seq {
   ///
   /// \par Complexity
   ///   Constant.
-  explicit seq() noexcept(
+  seq() noexcept(
       std::is_nothrow_default_constructible<allocator_type>::value) {}
 
   /// \par Effects
-- 
2.43.0


From 46d04381649cad208bf997765ab456fc879fcefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:46 +0000
Subject: [PATCH 18/18] fix: comparing or subtracting iterators did not compile
 with the mutable one on the left and a const one on the right

---
 include/boost/segmented_tree/seq.hpp | 29 ++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index fb15e52..d18ac87 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -944,8 +944,9 @@ class iterator_t {
   ///
   /// \par Complexity
   ///   Constant.
-  difference_type operator-(iterator_t const& other) const {
-    return static_traits::difference(it_, other.it_);
+  friend difference_type operator-(iterator_t const& lhs,
+                                   iterator_t const& rhs) {
+    return static_traits::difference(lhs.it_, rhs.it_);
   }
 
   /// \par Effects
@@ -1076,8 +1077,8 @@ class iterator_t {
   ///
   /// \par Complexity
   ///   Constant.
-  bool operator!=(iterator_t const& other) const {
-    return it_.pos != other.it_.pos;
+  friend bool operator!=(iterator_t const& lhs, iterator_t const& rhs) {
+    return lhs.it_.pos != rhs.it_.pos;
   }
 
   /// \par Returns
@@ -1085,8 +1086,8 @@ class iterator_t {
   ///
   /// \par Complexity
   ///   Constant.
-  bool operator==(iterator_t const& other) const {
-    return it_.pos == other.it_.pos;
+  friend bool operator==(iterator_t const& lhs, iterator_t const& rhs) {
+    return lhs.it_.pos == rhs.it_.pos;
   }
 
   /// \par Returns
@@ -1094,8 +1095,8 @@ class iterator_t {
   ///
   /// \par Complexity
   ///   Constant.
-  bool operator<(iterator_t const& other) const {
-    return it_.pos < other.it_.pos;
+  friend bool operator<(iterator_t const& lhs, iterator_t const& rhs) {
+    return lhs.it_.pos < rhs.it_.pos;
   }
 
   /// \par Returns
@@ -1103,8 +1104,8 @@ class iterator_t {
   ///
   /// \par Complexity
   ///   Constant.
-  bool operator>(iterator_t const& other) const {
-    return it_.pos > other.it_.pos;
+  friend bool operator>(iterator_t const& lhs, iterator_t const& rhs) {
+    return lhs.it_.pos > rhs.it_.pos;
   }
 
   /// \par Returns
@@ -1113,8 +1114,8 @@ class iterator_t {
   ///
   /// \par Complexity
   ///   Constant.
-  bool operator<=(iterator_t const& other) const {
-    return it_.pos <= other.it_.pos;
+  friend bool operator<=(iterator_t const& lhs, iterator_t const& rhs) {
+    return lhs.it_.pos <= rhs.it_.pos;
   }
 
   /// \par Returns
@@ -1123,8 +1124,8 @@ class iterator_t {
   ///
   /// \par Complexity
   ///   Constant.
-  bool operator>=(iterator_t const& other) const {
-    return it_.pos >= other.it_.pos;
+  friend bool operator>=(iterator_t const& lhs, iterator_t const& rhs) {
+    return lhs.it_.pos >= rhs.it_.pos;
   }
 
   /// \par Returns
-- 
2.43.0


From c87d4dc8788a24fc925c4910b72b9e079f5d1047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:56 +0000
Subject: [PATCH 01/44] fix: keep elements alive when a range is relocated onto
 itself

Inserting or erasing an empty range in the middle of a FixedVector or FixedDeque
of a non-trivial type moved every following element onto itself and then
destroyed it.
---
 include/fixed_containers/algorithm.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/fixed_containers/algorithm.hpp b/include/fixed_containers/algorithm.hpp
index c305bb1..1a415d8 100644
--- a/include/fixed_containers/algorithm.hpp
+++ b/include/fixed_containers/algorithm.hpp
@@ -11,6 +11,12 @@ namespace fixed_containers::algorithm
 template <class FwdIt1, class FwdIt2>
 constexpr FwdIt2 uninitialized_relocate(FwdIt1 first, FwdIt1 last, FwdIt2 d_first)
 {
+    if (first == d_first)
+    {
+        // Nothing to relocate: every element is already in place and has to stay alive
+        return last;
+    }
+
     while (first != last)
     {
         memory::construct_at_address_of(*d_first, std::move(*first));
@@ -26,6 +32,12 @@ constexpr FwdIt2 uninitialized_relocate(FwdIt1 first, FwdIt1 last, FwdIt2 d_firs
 template <class BidirIt1, class BidirIt2>
 constexpr BidirIt2 uninitialized_relocate_backward(BidirIt1 first, BidirIt1 last, BidirIt2 d_last)
 {
+    if (last == d_last)
+    {
+        // Nothing to relocate: every element is already in place and has to stay alive
+        return first;
+    }
+
     while (first != last)
     {
         --d_last;
-- 
2.43.0


From 4f6fc4ce99f162aca935b24e475ed7f71dcf2b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:57 +0000
Subject: [PATCH 02/44] fix: no signed overflow in
 decrement_index_with_wraparound

A FixedDeque of capacity 1 starts at a cycle count that does not fit in an
int64_t once negated, so the first push_front() was undefined behavior.
---
 include/fixed_containers/circular_indexing.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/circular_indexing.hpp b/include/fixed_containers/circular_indexing.hpp
index 6ee5a23..401b601 100644
--- a/include/fixed_containers/circular_indexing.hpp
+++ b/include/fixed_containers/circular_indexing.hpp
@@ -63,7 +63,8 @@ constexpr CyclesAndInteger decrement_index_with_wraparound(const IntegerRangeTyp
         int_math::safe_subtract(negative_cycles * range_size, n).template cast<std::size_t>();
 
     CyclesAndInteger out = increment_index_with_wraparound(range, index, positive_modulo);
-    out.cycles -= static_cast<std::int64_t>(negative_cycles);
+    // Unsigned arithmetic: `negative_cycles` does not have to fit in an int64_t
+    out.cycles = static_cast<std::int64_t>(static_cast<std::size_t>(out.cycles) - negative_cycles);
     return out;
 }
 }  // namespace fixed_containers::circular_indexing
-- 
2.43.0


From 32bc31abf9f35554f73cd2ab71e9c242da956eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:57 +0000
Subject: [PATCH 03/44] fix: FixedList::insert of an empty range returns pos

It returned end() regardless of pos.
---
 include/fixed_containers/fixed_list.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/fixed_list.hpp b/include/fixed_containers/fixed_list.hpp
index 7f93649..a93ec27 100644
--- a/include/fixed_containers/fixed_list.hpp
+++ b/include/fixed_containers/fixed_list.hpp
@@ -504,7 +504,7 @@ private:
             }
         }
 
-        return create_iterator(inserted_point);
+        return create_iterator(inserted_point == NULL_INDEX ? insertion_point : inserted_point);
     }
 
     template <InputIterator InputIt>
@@ -537,7 +537,7 @@ private:
             Checking::length_error(MAXIMUM_SIZE + excess_element_count, loc);
         }
 
-        return create_iterator(inserted_point);
+        return create_iterator(inserted_point == NULL_INDEX ? insertion_point : inserted_point);
     }
 
     constexpr iterator create_iterator(const std::size_t offset_from_start) noexcept
-- 
2.43.0


From d914ee773f5ed81263442f61fbd89b72d4286e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:07 +0000
Subject: [PATCH 04/44] fix: vector and deque insert/emplace of a reference to
 an own element

The elements were shifted before the argument was read, so inserting
v[i] into v stored the wrong element (or read a destroyed one).
---
 include/fixed_containers/fixed_deque.hpp  | 10 ++++------
 include/fixed_containers/fixed_vector.hpp | 10 ++++------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/include/fixed_containers/fixed_deque.hpp b/include/fixed_containers/fixed_deque.hpp
index cc1d09f..46f25be 100644
--- a/include/fixed_containers/fixed_deque.hpp
+++ b/include/fixed_containers/fixed_deque.hpp
@@ -324,9 +324,8 @@ public:
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
         check_not_full(loc);
-        auto entry_it = advance_all_after_iterator_by_n(pos, 1);
-        memory::construct_at_address_of(*entry_it, value);
-        return entry_it;
+        // `value` may refer to an element of this container, so copy it before shifting
+        return insert(pos, value_type(value), loc);
     }
     constexpr iterator insert(
         const_iterator pos,
@@ -361,9 +360,8 @@ public:
     constexpr iterator emplace(const_iterator pos, Args&&... args)
     {
         check_not_full(std_transition::source_location::current());
-        auto entry_it = advance_all_after_iterator_by_n(pos, 1);
-        memory::construct_at_address_of(*entry_it, std::forward<Args>(args)...);
-        return entry_it;
+        // `args` may refer to elements of this container, so use them before shifting
+        return insert(pos, value_type(std::forward<Args>(args)...));
     }
 
     constexpr void assign(
diff --git a/include/fixed_containers/fixed_vector.hpp b/include/fixed_containers/fixed_vector.hpp
index ef4ba81..55bdc03 100644
--- a/include/fixed_containers/fixed_vector.hpp
+++ b/include/fixed_containers/fixed_vector.hpp
@@ -294,9 +294,8 @@ public:
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
         check_not_full(loc);
-        auto entry_it = advance_all_after_iterator_by_n(pos, 1);
-        memory::construct_at_address_of(*entry_it, value);
-        return entry_it;
+        // `value` may refer to an element of this container, so copy it before shifting
+        return insert(pos, value_type(value), loc);
     }
     constexpr iterator insert(
         const_iterator pos,
@@ -335,9 +334,8 @@ public:
     constexpr iterator emplace(const_iterator pos, Args&&... args)
     {
         check_not_full(std_transition::source_location::current());
-        auto entry_it = advance_all_after_iterator_by_n(pos, 1);
-        memory::construct_at_address_of(*entry_it, std::forward<Args>(args)...);
-        return entry_it;
+        // `args` may refer to elements of this container, so use them before shifting
+        return insert(pos, value_type(std::forward<Args>(args)...));
     }
 
     /**
-- 
2.43.0


From fdda4f4fd3bc491e919263a45f7c87221bc88af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:07 +0000
Subject: [PATCH 05/44] fix: circular deque single-pass range insert at the
 front when full

With no room before the barrier the overwrite loop wrote through end().
---
 include/fixed_containers/fixed_circular_deque.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/fixed_circular_deque.hpp b/include/fixed_containers/fixed_circular_deque.hpp
index 1aaa04d..0cf6f87 100644
--- a/include/fixed_containers/fixed_circular_deque.hpp
+++ b/include/fixed_containers/fixed_circular_deque.hpp
@@ -424,7 +424,8 @@ private:
         {
             auto left2_it = middle_it;
             auto right2_it = end();
-            for (; first != last; ++first)
+            // If nothing could be inserted, all incoming elements are dropped.
+            for (; first != last && left2_it != right2_it; ++first)
             {
                 *left2_it = *first;
                 ++left2_it;
-- 
2.43.0


From 35296baedda2e54756b5c50bad7c0621efb79052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:07 +0000
Subject: [PATCH 06/44] fix: circular deque insert/emplace at the front when
 full

The front was popped first, which invalidated pos and aborted in the
underlying deque. Treat pos as the barrier, as range insertion does.
---
 include/fixed_containers/fixed_circular_deque.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/fixed_containers/fixed_circular_deque.hpp b/include/fixed_containers/fixed_circular_deque.hpp
index 0cf6f87..d6d2006 100644
--- a/include/fixed_containers/fixed_circular_deque.hpp
+++ b/include/fixed_containers/fixed_circular_deque.hpp
@@ -154,14 +154,20 @@ public:
         const value_type& value,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
-        pop_front_if_full(loc);
-        return deque().insert(pos, value, loc);
+        // `value` may refer to the element that is about to be dropped
+        return insert(pos, value_type(value), loc);
     }
     constexpr iterator insert(
         const_iterator pos,
         value_type&& value,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
+        if (not empty() && is_full(deque()) && pos == cbegin())
+        {
+            // Same as inserting a range: `pos` is an uncrossable barrier, so the incoming element
+            // is the one to be dropped
+            return begin();
+        }
         pop_front_if_full(loc);
         return deque().insert(pos, std::move(value), loc);
     }
@@ -187,8 +193,7 @@ public:
     template <class... Args>
     constexpr iterator emplace(const_iterator pos, Args&&... args)
     {
-        pop_front_if_full(std_transition::source_location::current());
-        return deque().emplace(pos, std::forward<Args>(args)...);
+        return insert(pos, value_type(std::forward<Args>(args)...));
     }
 
     constexpr void assign(
-- 
2.43.0


From 35658250cf33267972ec5ecf55855312f9dbaa86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:07 +0000
Subject: [PATCH 07/44] fix: circular deque push of a reference to the dropped
 element

The dropped element was destroyed before the argument was copied.
---
 include/fixed_containers/fixed_circular_deque.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fixed_containers/fixed_circular_deque.hpp b/include/fixed_containers/fixed_circular_deque.hpp
index d6d2006..f41192e 100644
--- a/include/fixed_containers/fixed_circular_deque.hpp
+++ b/include/fixed_containers/fixed_circular_deque.hpp
@@ -97,8 +97,8 @@ public:
         const value_type& value,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
-        pop_front_if_full(loc);
-        deque().push_back(value, loc);
+        // `value` may refer to the element that is about to be dropped
+        push_back(value_type(value), loc);
     }
     constexpr void push_back(
         value_type&& value,
@@ -125,8 +125,8 @@ public:
         const value_type& value,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
-        pop_back_if_full(loc);
-        deque().push_front(value, loc);
+        // `value` may refer to the element that is about to be dropped
+        push_front(value_type(value), loc);
     }
     constexpr void push_front(
         value_type&& value,
-- 
2.43.0


From 2c44d715340b7df84a499443712d044f80756522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:21 +0000
Subject: [PATCH 08/44] fix: FixedList::remove of a reference to an own element

The element value refers to was destroyed before the traversal ended.
---
 include/fixed_containers/fixed_list.hpp | 34 ++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/fixed_list.hpp b/include/fixed_containers/fixed_list.hpp
index a93ec27..35af88b 100644
--- a/include/fixed_containers/fixed_list.hpp
+++ b/include/fixed_containers/fixed_list.hpp
@@ -14,6 +14,7 @@
 #include <cstddef>
 #include <initializer_list>
 #include <iterator>
+#include <memory>
 #include <type_traits>
 
 namespace fixed_containers
@@ -371,7 +372,38 @@ public:
     }
     constexpr size_type remove(const T& value)
     {
-        return remove_if([&value](const T& entry) { return entry == value; });
+        // `value` may refer to an element of this container, so that one has to be removed last
+        const std::size_t last_index = end_index();
+        std::size_t aliased_index = last_index;
+        size_type removed_counter = 0;
+
+        for (std::size_t i = front_index(); i != last_index;)
+        {
+            const std::size_t current_index = i;
+            i = list().next_of(i);
+            const T& entry = list().at(current_index);
+            if (not(entry == value))
+            {
+                continue;
+            }
+
+            ++removed_counter;
+            if (std::addressof(entry) == std::addressof(value))
+            {
+                aliased_index = current_index;
+            }
+            else
+            {
+                list().delete_at_and_return_next_index(current_index);
+            }
+        }
+
+        if (aliased_index != last_index)
+        {
+            list().delete_at_and_return_next_index(aliased_index);
+        }
+
+        return removed_counter;
     }
 
     constexpr iterator erase(const_iterator first,
-- 
2.43.0


From 6699f1e5925f55d4c97154f74b37a679153fc886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:33 +0000
Subject: [PATCH 09/44] fix: FixedString::substr accepts pos == length()

std::string returns an empty substring there (for example substr() of an
empty string); FixedString reported out_of_range.
---
 include/fixed_containers/fixed_string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fixed_containers/fixed_string.hpp b/include/fixed_containers/fixed_string.hpp
index 680b717..7cfb1fe 100644
--- a/include/fixed_containers/fixed_string.hpp
+++ b/include/fixed_containers/fixed_string.hpp
@@ -603,7 +603,7 @@ public:
         const std_transition::source_location& loc =
             std_transition::source_location::current()) const
     {
-        if (preconditions::test(pos < length()))
+        if (preconditions::test(pos <= length()))
         {
             Checking::out_of_range(pos, length(), loc);
         }
-- 
2.43.0


From 0e2516c0eaecfaefd88da4a65ab8aa622686a108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:53 +0000
Subject: [PATCH 10/44] fix: FixedString::operator+=(char) could not be
 instantiated

There is no append(char); use push_back.
---
 include/fixed_containers/fixed_string.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/fixed_string.hpp b/include/fixed_containers/fixed_string.hpp
index 7cfb1fe..e1b66e0 100644
--- a/include/fixed_containers/fixed_string.hpp
+++ b/include/fixed_containers/fixed_string.hpp
@@ -342,7 +342,8 @@ public:
 
     constexpr FixedString& operator+=(CharT character)
     {
-        return append(character, std_transition::source_location::current());
+        push_back(character, std_transition::source_location::current());
+        return *this;
     }
     constexpr FixedString& operator+=(const CharT* char_ptr)
     {
-- 
2.43.0


From 547d2e4043c5fd94144f6d3753e08aba84e8e5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:19 +0000
Subject: [PATCH 11/44] fix: const conversion and default construction of
 reverse iterators

Both went through the constructor that steps a base position once, so a
converted reverse iterator skipped an element and a default-constructed
one stepped a null provider.
---
 include/fixed_containers/bidirectional_iterator.hpp | 4 ++--
 include/fixed_containers/random_access_iterator.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fixed_containers/bidirectional_iterator.hpp b/include/fixed_containers/bidirectional_iterator.hpp
index 180181d..b04753d 100644
--- a/include/fixed_containers/bidirectional_iterator.hpp
+++ b/include/fixed_containers/bidirectional_iterator.hpp
@@ -68,7 +68,7 @@ private:
 
 public:
     constexpr BidirectionalIterator() noexcept
-      : BidirectionalIterator{EntryProvider{}}
+      : reference_provider_{}
     {
     }
 
@@ -87,7 +87,7 @@ public:
     // Mutable iterator needs to be convertible to const iterator
     constexpr BidirectionalIterator(const Sibling& other) noexcept
         requires(CONSTNESS == IteratorConstness::CONSTANT_ITERATOR)
-      : BidirectionalIterator{other.reference_provider_}
+      : reference_provider_(other.reference_provider_)
     {
     }
 
diff --git a/include/fixed_containers/random_access_iterator.hpp b/include/fixed_containers/random_access_iterator.hpp
index 8adf210..dbbabea 100644
--- a/include/fixed_containers/random_access_iterator.hpp
+++ b/include/fixed_containers/random_access_iterator.hpp
@@ -70,7 +70,7 @@ private:
 
 public:
     constexpr RandomAccessIterator() noexcept
-      : RandomAccessIterator{EntryProvider{}}
+      : reference_provider_{}
     {
     }
 
@@ -89,7 +89,7 @@ public:
     // Mutable iterator needs to be convertible to const iterator
     constexpr RandomAccessIterator(const Sibling& other) noexcept
         requires(CONSTNESS == IteratorConstness::CONSTANT_ITERATOR)
-      : RandomAccessIterator{other.reference_provider_}
+      : reference_provider_(other.reference_provider_)
     {
     }
 
-- 
2.43.0


From 61909df5ecfc96456136d8535e8a459ebe47db56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:19 +0000
Subject: [PATCH 12/44] fix: FixedSet::rend() starts at the smallest key, not
 at slot 0

Reverse iteration over a set whose smallest key was not in slot 0 (or an
empty set) ended early or never.
---
 include/fixed_containers/fixed_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fixed_containers/fixed_set.hpp b/include/fixed_containers/fixed_set.hpp
index 552d985..a0fb91d 100644
--- a/include/fixed_containers/fixed_set.hpp
+++ b/include/fixed_containers/fixed_set.hpp
@@ -183,7 +183,7 @@ public:
     }
     [[nodiscard]] constexpr const_reverse_iterator crend() const noexcept
     {
-        return create_const_reverse_iterator(0);
+        return create_const_reverse_iterator(tree().index_of_min_at());
     }
     [[nodiscard]] constexpr const_reverse_iterator rbegin() const noexcept { return crbegin(); }
     [[nodiscard]] constexpr const_reverse_iterator rend() const noexcept { return crend(); }
-- 
2.43.0


From 848e01007dc6752b0ad0e725772deb3783ca2188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:09 +0000
Subject: [PATCH 13/44] fix: EnumMap::insert_or_assign for values that are not
 trivially assignable

---
 include/fixed_containers/enum_map.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/enum_map.hpp b/include/fixed_containers/enum_map.hpp
index ec97eda..4685b0d 100644
--- a/include/fixed_containers/enum_map.hpp
+++ b/include/fixed_containers/enum_map.hpp
@@ -471,8 +471,13 @@ public:
         {
             increment_size();
             array_set_unchecked_at(ordinal) = true;
+            memory::construct_at_address_of(
+                values_unchecked_at(ordinal), std::in_place, std::forward<M>(obj));
+        }
+        else
+        {
+            unchecked_at(ordinal) = std::forward<M>(obj);
         }
-        values_unchecked_at(ordinal) = OptionalV(std::forward<M>(obj));
         return {create_iterator(ordinal), is_insertion};
     }
     template <class M>
-- 
2.43.0


From 191022052b9a3de0fde02eddcf7bea49745847ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:27 +0000
Subject: [PATCH 14/44] fix: FixedString reports a length that exceeds the
 maximum by one before modifying

---
 include/fixed_containers/fixed_string.hpp | 34 ++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/fixed_string.hpp b/include/fixed_containers/fixed_string.hpp
index e1b66e0..9981995 100644
--- a/include/fixed_containers/fixed_string.hpp
+++ b/include/fixed_containers/fixed_string.hpp
@@ -11,6 +11,7 @@
 #include <cstddef>
 #include <cstdlib>
 #include <istream>
+#include <iterator>
 #include <string_view>
 
 namespace fixed_containers
@@ -111,6 +112,7 @@ public:
         CharT character,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
+        check_target_length(count, loc);
         vec().assign(count, character, loc);
         null_terminate(loc);
         return *this;
@@ -245,6 +247,7 @@ public:
         CharT character,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
+        check_target_length(length() + 1, loc);
         const ScopedNullTermination guard{this, loc};
         return vec().insert(pos, character, loc);
     }
@@ -255,6 +258,7 @@ public:
         InputIt last,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
+        check_range_fits(first, last, loc);
         const ScopedNullTermination guard{this, loc};
         return vec().insert(pos, first, last, loc);
     }
@@ -263,6 +267,7 @@ public:
         std::initializer_list<CharT> ilist,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
+        check_range_fits(ilist.begin(), ilist.end(), loc);
         const ScopedNullTermination guard{this, loc};
         return vec().insert(pos, ilist, loc);
     }
@@ -271,6 +276,7 @@ public:
         std::string_view view,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
+        check_range_fits(view.begin(), view.end(), loc);
         const ScopedNullTermination guard{this, loc};
         return vec().insert(pos, view.begin(), view.end(), loc);
     }
@@ -295,6 +301,7 @@ public:
         CharT character,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
+        check_target_length(length() + 1, loc);
         vec().push_back(character, loc);
         null_terminate(loc);
     }
@@ -319,6 +326,7 @@ public:
         InputIt last,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
+        check_range_fits(first, last, loc);
         vec().insert(vec().cend(), first, last, loc);
         null_terminate(loc);
         return *this;
@@ -327,6 +335,7 @@ public:
         std::initializer_list<CharT> ilist,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
+        check_range_fits(ilist.begin(), ilist.end(), loc);
         vec().insert(vec().cend(), ilist, loc);
         null_terminate(loc);
         return *this;
@@ -335,6 +344,7 @@ public:
         const std::string_view& view,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
+        check_range_fits(view.begin(), view.end(), loc);
         vec().insert(vec().cend(), view.begin(), view.end(), loc);
         null_terminate(loc);
         return *this;
@@ -624,11 +634,33 @@ public:
         CharT character,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
+        check_target_length(count, loc);
         vec().resize(count, character, loc);
         null_terminate(loc);
     }
 
 private:
+    // The underlying vector also has room for the null terminator, so it does not catch a target
+    // length that exceeds the maximum by one.
+    static constexpr void check_target_length(const size_type target_length,
+                                              const std_transition::source_location& loc)
+    {
+        if (preconditions::test(target_length <= MAXIMUM_LENGTH))
+        {
+            Checking::length_error(target_length, loc);
+        }
+    }
+    template <class InputIt>
+    constexpr void check_range_fits(InputIt first,
+                                    InputIt last,
+                                    const std_transition::source_location& loc) const
+    {
+        if constexpr (std::forward_iterator<InputIt>)
+        {
+            check_target_length(length() + static_cast<size_type>(std::distance(first, last)), loc);
+        }
+    }
+
     constexpr void null_terminate(std::size_t n)
     {
         // This bypasses the vector's bounds check
@@ -640,7 +672,7 @@ private:
         const std::size_t len = length();
         if (preconditions::test(len <= MAXIMUM_LENGTH))
         {
-            Checking::length_error(len + 1, loc);
+            Checking::length_error(len, loc);
         }
 
         null_terminate(length());
-- 
2.43.0


From b165cadf178ab3a399cc287c222209b41af5b98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:48 +0000
Subject: [PATCH 15/44] fix: moved-from unordered containers no longer keep
 buckets referring to dead values

---
 .../fixed_robinhood_hashtable.hpp             | 49 +++++++++++++++++--
 1 file changed, 45 insertions(+), 4 deletions(-)

diff --git a/include/fixed_containers/fixed_robinhood_hashtable.hpp b/include/fixed_containers/fixed_robinhood_hashtable.hpp
index 69094d9..7b893e5 100644
--- a/include/fixed_containers/fixed_robinhood_hashtable.hpp
+++ b/include/fixed_containers/fixed_robinhood_hashtable.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include "fixed_containers/concepts.hpp"
 #include "fixed_containers/fixed_doubly_linked_list.hpp"
 #include "fixed_containers/map_entry.hpp"
 
@@ -123,8 +124,10 @@ public:
     // 0 size is problematic because it leads to modulo 0 (undefined behavior)
     static constexpr std::size_t INTERNAL_TABLE_SIZE = std::max<std::size_t>(1, BUCKET_COUNT);
 
-    fixed_doubly_linked_list_detail::FixedDoublyLinkedList<PairType, CAPACITY, SizeType>
-        IMPLEMENTATION_DETAIL_DO_NOT_USE_value_storage_{};
+    using ValueStorageType =
+        fixed_doubly_linked_list_detail::FixedDoublyLinkedList<PairType, CAPACITY, SizeType>;
+
+    ValueStorageType IMPLEMENTATION_DETAIL_DO_NOT_USE_value_storage_{};
     std::array<Bucket, INTERNAL_TABLE_SIZE> IMPLEMENTATION_DETAIL_DO_NOT_USE_bucket_array_{};
 
     Hash IMPLEMENTATION_DETAIL_DO_NOT_USE_hash_{};
@@ -386,9 +389,47 @@ public:
         requires(!IsReference<V>)
     = default;
 
-    constexpr FixedRobinhoodHashtable(FixedRobinhoodHashtable&& other) = default;
+    constexpr FixedRobinhoodHashtable(FixedRobinhoodHashtable&& other)
+        requires TriviallyMoveConstructible<ValueStorageType>
+    = default;
     constexpr FixedRobinhoodHashtable& operator=(const FixedRobinhoodHashtable& other) = default;
-    constexpr FixedRobinhoodHashtable& operator=(FixedRobinhoodHashtable&& other) = default;
+    constexpr FixedRobinhoodHashtable& operator=(FixedRobinhoodHashtable&& other)
+        requires TriviallyMoveAssignable<ValueStorageType>
+    = default;
+
+    // A non-trivial move leaves `other` without values or with moved-from keys. Its buckets would no
+    // longer match them and even `clear()` would misbehave, so `other` is left empty.
+    constexpr FixedRobinhoodHashtable(FixedRobinhoodHashtable&& other) noexcept
+      : IMPLEMENTATION_DETAIL_DO_NOT_USE_value_storage_(
+            std::move(other.IMPLEMENTATION_DETAIL_DO_NOT_USE_value_storage_))
+      , IMPLEMENTATION_DETAIL_DO_NOT_USE_bucket_array_(
+            other.IMPLEMENTATION_DETAIL_DO_NOT_USE_bucket_array_)
+      , IMPLEMENTATION_DETAIL_DO_NOT_USE_hash_(
+            std::move(other.IMPLEMENTATION_DETAIL_DO_NOT_USE_hash_))
+      , IMPLEMENTATION_DETAIL_DO_NOT_USE_key_equal_(
+            std::move(other.IMPLEMENTATION_DETAIL_DO_NOT_USE_key_equal_))
+    {
+        other.IMPLEMENTATION_DETAIL_DO_NOT_USE_bucket_array_.fill({});
+    }
+    constexpr FixedRobinhoodHashtable& operator=(FixedRobinhoodHashtable&& other) noexcept
+    {
+        if (this == &other)
+        {
+            return *this;
+        }
+
+        IMPLEMENTATION_DETAIL_DO_NOT_USE_value_storage_ =
+            std::move(other.IMPLEMENTATION_DETAIL_DO_NOT_USE_value_storage_);
+        IMPLEMENTATION_DETAIL_DO_NOT_USE_bucket_array_ =
+            other.IMPLEMENTATION_DETAIL_DO_NOT_USE_bucket_array_;
+        IMPLEMENTATION_DETAIL_DO_NOT_USE_hash_ =
+            std::move(other.IMPLEMENTATION_DETAIL_DO_NOT_USE_hash_);
+        IMPLEMENTATION_DETAIL_DO_NOT_USE_key_equal_ =
+            std::move(other.IMPLEMENTATION_DETAIL_DO_NOT_USE_key_equal_);
+        other.IMPLEMENTATION_DETAIL_DO_NOT_USE_value_storage_.clear();
+        other.IMPLEMENTATION_DETAIL_DO_NOT_USE_bucket_array_.fill({});
+        return *this;
+    }
 };
 
 constexpr std::size_t default_bucket_count(std::size_t value_count)
-- 
2.43.0


From e2beb7cbaf322404052d3d76608220192cb70d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:16 +0000
Subject: [PATCH 16/44] fix: copies and moves of ordered maps and sets with
 non-trivial elements take the comparator along

---
 include/fixed_containers/fixed_red_black_tree.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/fixed_red_black_tree.hpp b/include/fixed_containers/fixed_red_black_tree.hpp
index 125b7e8..8fc7cc6 100644
--- a/include/fixed_containers/fixed_red_black_tree.hpp
+++ b/include/fixed_containers/fixed_red_black_tree.hpp
@@ -896,7 +896,7 @@ public:
 
     // TODO: Use O(N) algorithm. Do non-recursive
     constexpr FixedRedBlackTree(const FixedRedBlackTree& other)
-      : FixedRedBlackTree()
+      : FixedRedBlackTree(other.IMPLEMENTATION_DETAIL_DO_NOT_USE_comparator_)
     {
         for (NodeIndex i = other.index_of_min_at(); i != NULL_INDEX;
              i = other.index_of_successor_at(i))
@@ -914,7 +914,7 @@ public:
         }
     }
     constexpr FixedRedBlackTree(FixedRedBlackTree&& other) noexcept
-      : FixedRedBlackTree()
+      : FixedRedBlackTree(other.IMPLEMENTATION_DETAIL_DO_NOT_USE_comparator_)
     {
         for (NodeIndex i = other.index_of_min_at(); i != NULL_INDEX;
              i = other.index_of_successor_at(i))
@@ -943,6 +943,8 @@ public:
         }
 
         this->clear();
+        this->IMPLEMENTATION_DETAIL_DO_NOT_USE_comparator_ =
+            other.IMPLEMENTATION_DETAIL_DO_NOT_USE_comparator_;
         for (NodeIndex i = other.index_of_min_at(); i != NULL_INDEX;
              i = other.index_of_successor_at(i))
         {
@@ -967,6 +969,8 @@ public:
         }
 
         this->clear();
+        this->IMPLEMENTATION_DETAIL_DO_NOT_USE_comparator_ =
+            other.IMPLEMENTATION_DETAIL_DO_NOT_USE_comparator_;
         for (NodeIndex i = other.index_of_min_at(); i != NULL_INDEX;
              i = other.index_of_successor_at(i))
         {
-- 
2.43.0


From 4a6112f452d80f42d7b6af0435b2b02c035b2105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:43 +0000
Subject: [PATCH 17/44] fix: reverse iterators of empty ordered maps and sets
 have end() as their base

---
 include/fixed_containers/fixed_map.hpp | 2 +-
 include/fixed_containers/fixed_set.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/fixed_map.hpp b/include/fixed_containers/fixed_map.hpp
index 60d952a..12d5143 100644
--- a/include/fixed_containers/fixed_map.hpp
+++ b/include/fixed_containers/fixed_map.hpp
@@ -101,8 +101,8 @@ private:
             else
             {
                 current_index_ = tree_->index_of_successor_at(current_index_);
-                current_index_ = replace_null_index_with_max_size_for_end_iterator(current_index_);
             }
+            current_index_ = replace_null_index_with_max_size_for_end_iterator(current_index_);
         }
         constexpr void recede() noexcept
         {
diff --git a/include/fixed_containers/fixed_set.hpp b/include/fixed_containers/fixed_set.hpp
index a0fb91d..18619cb 100644
--- a/include/fixed_containers/fixed_set.hpp
+++ b/include/fixed_containers/fixed_set.hpp
@@ -80,8 +80,8 @@ private:
             else
             {
                 current_index_ = tree_->index_of_successor_at(current_index_);
-                current_index_ = replace_null_index_with_max_size_for_end_iterator(current_index_);
             }
+            current_index_ = replace_null_index_with_max_size_for_end_iterator(current_index_);
         }
         constexpr void recede() noexcept
         {
-- 
2.43.0


From c93e998e80f18d596266670f328da89ec357dc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:00 +0000
Subject: [PATCH 18/44] fix: safe_add and UnsignedIntegralAndSign::cast handle
 the lowest signed value

---
 include/fixed_containers/int_math.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/int_math.hpp b/include/fixed_containers/int_math.hpp
index 1d3bf2e..fcec703 100644
--- a/include/fixed_containers/int_math.hpp
+++ b/include/fixed_containers/int_math.hpp
@@ -51,7 +51,8 @@ public:
         if (is_negative_)
         {
             // TODO: ensure the value fits in the target type
-            return -static_cast<V>(unsigned_value());
+            // Not `-static_cast<V>(...)`: the lowest value of V has no positive counterpart
+            return static_cast<V>(static_cast<V>(-static_cast<V>(unsigned_value() - 1)) - 1);
         }
 
         // TODO: ensure the value fits in the target type
@@ -85,7 +86,9 @@ constexpr UnsignedIntegralAndSign<T> safe_add(const T addend_left,
 {
     if (addend_right < 0)
     {
-        return safe_subtract(addend_left, static_cast<T>(-addend_right));
+        // Negate as unsigned: the lowest value of a signed type has no positive counterpart
+        return safe_subtract(addend_left,
+                             static_cast<T>(static_cast<T>(0) - static_cast<T>(addend_right)));
     }
 
     return UnsignedIntegralAndSign<T>::create_positive(addend_left + static_cast<T>(addend_right));
-- 
2.43.0


From 1d2dea37c7309a5005b553e7c51fc82338516f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:11 +0000
Subject: [PATCH 19/44] fix: divide_integers_rounding_up is exact for zero and
 negative dividends

---
 include/fixed_containers/int_math.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/int_math.hpp b/include/fixed_containers/int_math.hpp
index fcec703..b2e9cb2 100644
--- a/include/fixed_containers/int_math.hpp
+++ b/include/fixed_containers/int_math.hpp
@@ -98,7 +98,12 @@ template <std::integral T>
 constexpr T divide_integers_rounding_up(const T dividend, const T divisor)
 {
     assert_or_abort(divisor != static_cast<T>(0));
-    return ((dividend - static_cast<T>(1)) / divisor) + static_cast<T>(1);
+    const T quotient = dividend / divisor;
+    const T remainder = dividend % divisor;
+    // Division truncates towards zero, so only a positive inexact quotient has to be adjusted
+    const bool round_up = remainder != static_cast<T>(0) &&
+                          (remainder > static_cast<T>(0)) == (divisor > static_cast<T>(0));
+    return round_up ? static_cast<T>(quotient + static_cast<T>(1)) : quotient;
 }
 
 }  // namespace fixed_containers::int_math
-- 
2.43.0


From 8896a3159c4c496250e8b51337c653a5a2243239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:16 +0000
Subject: [PATCH 20/44] fix: reverse integer-range iterators order correctly
 for ranges starting at 0

---
 include/fixed_containers/integer_range_iterator.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/integer_range_iterator.hpp b/include/fixed_containers/integer_range_iterator.hpp
index 7ef6de7..95b9f47 100644
--- a/include/fixed_containers/integer_range_iterator.hpp
+++ b/include/fixed_containers/integer_range_iterator.hpp
@@ -74,7 +74,9 @@ public:
     constexpr auto operator<=>(const IntegerRangeEntryProvider& other) const noexcept
     {
         assert_or_abort(integer_range_ == other.integer_range_);
-        return current_index_ <=> other.current_index_;
+        // One before the start is a valid position: it must compare less, even if the start is 0
+        const std::size_t before_start = integer_range_.start_inclusive() - 1;
+        return (current_index_ - before_start) <=> (other.current_index_ - before_start);
     }
 
     constexpr std::ptrdiff_t operator-(const IntegerRangeEntryProvider& other) const
-- 
2.43.0


From 0d0cff49f87487b392079a8e85f338cedf33343d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:44 +0000
Subject: [PATCH 21/44] fix: the linked-list raw view rounds its element stride
 up to the storage's alignment

---
 .../fixed_doubly_linked_list_raw_view.hpp     | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/fixed_containers/fixed_doubly_linked_list_raw_view.hpp b/include/fixed_containers/fixed_doubly_linked_list_raw_view.hpp
index c75e441..185914b 100644
--- a/include/fixed_containers/fixed_doubly_linked_list_raw_view.hpp
+++ b/include/fixed_containers/fixed_doubly_linked_list_raw_view.hpp
@@ -65,8 +65,10 @@ public:
                                  std::size_t elem_align_bytes,
                                  std::size_t max_elem_count)
       : list_ptr_{static_cast<const std::byte*>(list_ptr)}
-      // the PoolStorage stores unions of `T`, `std::size_t`, so they are always at least that big
-      , elem_size_bytes_{std::max(elem_size_bytes, sizeof(std::size_t))}
+      // the PoolStorage stores unions of `T`, `std::size_t`, so they are always at least that big,
+      // and a multiple of the stricter of the two alignments
+      , elem_size_bytes_{round_up(std::max(elem_size_bytes, sizeof(std::size_t)),
+                                  std::max(elem_align_bytes, alignof(std::size_t)))}
       , elem_align_bytes_{std::max(elem_align_bytes, alignof(std::size_t))}
       , max_elem_count_{max_elem_count}
     {
@@ -89,12 +91,8 @@ public:
     {
         // the full PoolStorage will be aligned to the alignment of the element, which matters if it
         // aligns bigger than alignof(size_t)
-        std::size_t raw_size = (max_elem_count_ * elem_size_bytes_) + sizeof(std::size_t);
-        if (raw_size % elem_align_bytes_ != 0)
-        {
-            raw_size += elem_align_bytes_ - (raw_size % elem_align_bytes_);
-        }
-        return static_cast<std::ptrdiff_t>(raw_size);
+        const std::size_t raw_size = (max_elem_count_ * elem_size_bytes_) + sizeof(std::size_t);
+        return static_cast<std::ptrdiff_t>(round_up(raw_size, elem_align_bytes_));
     }
 
     [[nodiscard]] constexpr std::ptrdiff_t chain_size() const noexcept
@@ -127,5 +125,13 @@ public:
     {
         return *std::next(chain_start(), static_cast<std::ptrdiff_t>(index));
     }
+
+private:
+    [[nodiscard]] static constexpr std::size_t round_up(const std::size_t size,
+                                                        const std::size_t alignment) noexcept
+    {
+        const std::size_t remainder = size % alignment;
+        return remainder == 0 ? size : size + (alignment - remainder);
+    }
 };
 }  // namespace fixed_containers::fixed_doubly_linked_list_detail
-- 
2.43.0


From e533d4c115a68a85ff2870676e4f62d78671727c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:19 +0000
Subject: [PATCH 22/44] fix: OptionalReference::emplace compiles and rebinds

---
 include/fixed_containers/optional_reference.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fixed_containers/optional_reference.hpp b/include/fixed_containers/optional_reference.hpp
index aa55967..6ab6b24 100644
--- a/include/fixed_containers/optional_reference.hpp
+++ b/include/fixed_containers/optional_reference.hpp
@@ -138,10 +138,10 @@ public:
 
     constexpr void reset() noexcept { val() = nullptr; }
 
-    constexpr reference emplace(reference val) noexcept
+    constexpr reference emplace(reference new_val) noexcept
     {
-        val() = &val;
-        return val;
+        val() = std::addressof(new_val);
+        return new_val;
     }
 
 private:
-- 
2.43.0


From 71587381d445aa668f0988ec20e957b4311ef2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:23 +0000
Subject: [PATCH 23/44] fix: OptionalReferences to types with weak or partial
 ordering compare

---
 include/fixed_containers/optional_reference.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/optional_reference.hpp b/include/fixed_containers/optional_reference.hpp
index 6ab6b24..ff7a113 100644
--- a/include/fixed_containers/optional_reference.hpp
+++ b/include/fixed_containers/optional_reference.hpp
@@ -169,8 +169,8 @@ template <typename T,
           customize::OptionalReferenceChecking<T> CheckT,
           std::three_way_comparable_with<T> U,
           customize::OptionalReferenceChecking<U> CheckU>
-constexpr auto operator<=>(const OptionalReference<T, CheckT>& lhs,
-                           const OptionalReference<U, CheckU>& rhs)
+constexpr std::compare_three_way_result_t<T, U> operator<=>(
+    const OptionalReference<T, CheckT>& lhs, const OptionalReference<U, CheckU>& rhs)
 {
     if (lhs.has_value() && rhs.has_value())
     {
-- 
2.43.0


From d6d1968ce9fa6dd6447b90aa19d6d3616d998aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:01 +0000
Subject: [PATCH 24/44] fix: unscoped enums can be hashed with the default hash

---
 include/fixed_containers/wyhash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fixed_containers/wyhash.hpp b/include/fixed_containers/wyhash.hpp
index 8acd105..1eeb53e 100644
--- a/include/fixed_containers/wyhash.hpp
+++ b/include/fixed_containers/wyhash.hpp
@@ -225,7 +225,7 @@ struct hash<Enum>
 };
 
 template <typename T>
-    requires std::convertible_to<T, std::uint64_t>
+    requires(std::convertible_to<T, std::uint64_t> && !std::is_enum_v<T>)
 struct hash<T>
 {
     constexpr std::uint64_t operator()(T value) const noexcept
-- 
2.43.0


From 3cfcf6496e026661f63121a3620b7fb5d397fe8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:15 +0000
Subject: [PATCH 25/44] fix: FixedIndexBasedContiguousStorage::full() compiles

---
 include/fixed_containers/fixed_index_based_storage.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fixed_containers/fixed_index_based_storage.hpp b/include/fixed_containers/fixed_index_based_storage.hpp
index fb2bdfb..55df0aa 100644
--- a/include/fixed_containers/fixed_index_based_storage.hpp
+++ b/include/fixed_containers/fixed_index_based_storage.hpp
@@ -162,7 +162,7 @@ public:
     {
     }
 
-    [[nodiscard]] constexpr bool full() const noexcept { return nodes().full(); }
+    [[nodiscard]] constexpr bool full() const noexcept { return is_full(nodes()); }
 
     constexpr T& at(const std::size_t index) noexcept { return nodes().at(index); }
     [[nodiscard]] constexpr const T& at(const std::size_t index) const noexcept
-- 
2.43.0


From 76e0860044631ea2cab3425b498782bde59dc2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:29 +0000
Subject: [PATCH 26/44] fix: deleting the last entry of
 FixedIndexBasedContiguousStorage does not move it onto itself

---
 include/fixed_containers/fixed_index_based_storage.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/fixed_index_based_storage.hpp b/include/fixed_containers/fixed_index_based_storage.hpp
index 55df0aa..8428a63 100644
--- a/include/fixed_containers/fixed_index_based_storage.hpp
+++ b/include/fixed_containers/fixed_index_based_storage.hpp
@@ -179,8 +179,11 @@ public:
 
     constexpr std::size_t delete_at_and_return_repositioned_index(const std::size_t index) noexcept
     {
-        memory::destroy_at_address_of(nodes().at(index));
-        memory::construct_at_address_of(nodes().at(index), std::move(nodes().back()));
+        if (index + 1 != nodes().size())
+        {
+            memory::destroy_at_address_of(nodes().at(index));
+            memory::construct_at_address_of(nodes().at(index), std::move(nodes().back()));
+        }
         nodes().pop_back();
         return nodes().size();
     }
-- 
2.43.0


From 310a5b6cefca2bc24592cfe17025668aaae975a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:48 +0000
Subject: [PATCH 27/44] fix: decrement_index_with_wraparound does not overflow
 for the largest offsets

---
 include/fixed_containers/circular_indexing.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/fixed_containers/circular_indexing.hpp b/include/fixed_containers/circular_indexing.hpp
index 401b601..250d400 100644
--- a/include/fixed_containers/circular_indexing.hpp
+++ b/include/fixed_containers/circular_indexing.hpp
@@ -59,8 +59,7 @@ constexpr CyclesAndInteger decrement_index_with_wraparound(const IntegerRangeTyp
 
     const std::size_t range_size = range.distance();
     const std::size_t negative_cycles = (n / range_size) + 1;
-    const auto positive_modulo =
-        int_math::safe_subtract(negative_cycles * range_size, n).template cast<std::size_t>();
+    const std::size_t positive_modulo = range_size - (n % range_size);
 
     CyclesAndInteger out = increment_index_with_wraparound(range, index, positive_modulo);
     // Unsigned arithmetic: `negative_cycles` does not have to fit in an int64_t
-- 
2.43.0


From 9f2bf63b611fa2f6f8ecd5f32b1178b8d4358e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:47 +0000
Subject: [PATCH 28/44] fix: path_to_string(chain, out) clears out for the
 empty path

---
 include/fixed_containers/recursive_reflection.hpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/include/fixed_containers/recursive_reflection.hpp b/include/fixed_containers/recursive_reflection.hpp
index f19ee17..5b683da 100644
--- a/include/fixed_containers/recursive_reflection.hpp
+++ b/include/fixed_containers/recursive_reflection.hpp
@@ -269,11 +269,6 @@ constexpr PathNameChain path_from_string(const std::string_view& path_name_chain
 template <typename StringType>
 constexpr StringType path_to_string(const PathNameChain& path_name_chain, out<StringType> out)
 {
-    if (path_name_chain.empty())
-    {
-        return {};
-    }
-
     out->clear();
     bool first = true;
 
-- 
2.43.0


From 61c9cb220370b142e71a695a36852f5c56a3e0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:57 +0000
Subject: [PATCH 29/44] fix: path_from_string keeps a trailing empty component

---
 include/fixed_containers/recursive_reflection.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/fixed_containers/recursive_reflection.hpp b/include/fixed_containers/recursive_reflection.hpp
index 5b683da..283f61c 100644
--- a/include/fixed_containers/recursive_reflection.hpp
+++ b/include/fixed_containers/recursive_reflection.hpp
@@ -258,10 +258,7 @@ constexpr PathNameChain path_from_string(const std::string_view& path_name_chain
         end = path_name_chain_string.find(recursive_reflection_detail::PATH_DELIMITER, start);
     }
 
-    if (start < path_name_chain_string.length())
-    {
-        path_components.emplace_back(path_name_chain_string.substr(start));
-    }
+    path_components.emplace_back(path_name_chain_string.substr(start));
 
     return PathNameChain(path_components.begin(), path_components.end());
 }
-- 
2.43.0


From 30f09215458d3febe1a1b1adb5ec8d020dbe864c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:52 +0000
Subject: [PATCH 30/44] fix: StructView::try_add_paths compiles

---
 include/fixed_containers/struct_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fixed_containers/struct_view.hpp b/include/fixed_containers/struct_view.hpp
index 0514118..107a291 100644
--- a/include/fixed_containers/struct_view.hpp
+++ b/include/fixed_containers/struct_view.hpp
@@ -598,7 +598,7 @@ public:
     bool try_add_paths(S&& instance, const PathSet& paths)
     {
         auto path_properties_map =
-            extract_path_properties_of_filtered(std::forward<S>(instance), paths);
+            extract_path_properties_of_filtered(std::forward<S>(instance), std::optional{paths});
         if (path_properties_map.size() != paths.size())
         {
             return false;
-- 
2.43.0


From 29a5d24649cb8fc1f835d2bb53de0b9063af39e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:55 +0000
Subject: [PATCH 31/44] fix: swapping two sibling tree nodes corrupted the
 parent's links

---
 include/fixed_containers/fixed_red_black_tree_ops.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/fixed_red_black_tree_ops.hpp b/include/fixed_containers/fixed_red_black_tree_ops.hpp
index 5a8593c..6e4c356 100644
--- a/include/fixed_containers/fixed_red_black_tree_ops.hpp
+++ b/include/fixed_containers/fixed_red_black_tree_ops.hpp
@@ -109,7 +109,13 @@ public:
         RedBlackTreeNodeView node_i = tree.node_at(index_i);
         RedBlackTreeNodeView node_j = tree.node_at(index_j);
 
-        if (node_j.parent_index() == index_i)
+        const bool j_is_right_sibling_of_i =
+            node_i.parent_index() == node_j.parent_index() && node_i.parent_index() != NULL_INDEX &&
+            tree.node_at(node_i.parent_index()).right_index() == index_j;
+
+        // For siblings, the neighbour fixups would otherwise undo one another in the parent: the
+        // right sibling has to be redirected first.
+        if (node_j.parent_index() == index_i || j_is_right_sibling_of_i)
         {
             // run with arguments swapped
             swap_nodes_excluding_key_and_value_impl(tree, index_j, index_i, node_j, node_i);
-- 
2.43.0


From b18f69a4a15cb1b36b75a29d40d2fdff026971cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:03 +0000
Subject: [PATCH 32/44] fix: FixedString stream extraction handles delimiters
 and end of stream as std::string does

---
 include/fixed_containers/fixed_string.hpp | 44 ++++++++++++-----------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/include/fixed_containers/fixed_string.hpp b/include/fixed_containers/fixed_string.hpp
index 9981995..b15face 100644
--- a/include/fixed_containers/fixed_string.hpp
+++ b/include/fixed_containers/fixed_string.hpp
@@ -697,34 +697,36 @@ std::istream& operator>>(std::istream& stream, FixedString<MAXIMUM_LENGTH, Check
     // Skip leading whitespace (`std::istream >> std::string` behaves the same way)
     stream >> std::ws;
 
-    char character{};
-    stream.get(character);
-
-    // If EOF/error, put the character back and return
-    if (stream.eof() || stream.fail())
+    // As with `std::string`, the delimiter stays in the stream and the stream only fails if no
+    // character was extracted.
+    while (stream.good())
     {
-        return stream.putback(character);
-    }
+        const std::istream::int_type next = stream.peek();
+        if (std::istream::traits_type::eq_int_type(next, std::istream::traits_type::eof()))
+        {
+            break;
+        }
 
-    for (; !std::isspace(character) && !is_full(str) && !stream.eof() && !stream.fail();
-         stream.get(character))
-    {
+        const char character = std::istream::traits_type::to_char_type(next);
+        if (std::isspace(static_cast<unsigned char>(character)))
+        {
+            break;
+        }
+
+        if (preconditions::test(!is_full(str)))
+        {
+            CheckingType::length_error(MAXIMUM_LENGTH_WITH_NULL_TERMINATOR,
+                                       std_transition::source_location::current());
+            break;
+        }
+
+        stream.ignore();
         str.push_back(character);
     }
 
-    if (stream.fail())
+    if (str.empty())
     {
         stream.setstate(std::ios::failbit);
-        return stream;
-    }
-
-    const bool string_is_full = is_full(str);
-    const bool stream_eof = stream.eof();
-    const bool has_exceeded_capacity = string_is_full && !stream_eof;
-    if (preconditions::test(!has_exceeded_capacity))
-    {
-        CheckingType::length_error(MAXIMUM_LENGTH_WITH_NULL_TERMINATOR,
-                                   std_transition::source_location::current());
     }
 
     return stream;
-- 
2.43.0


From 2c925ec57763fedcd7b6c10cc61867abc6646cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:13 +0000
Subject: [PATCH 33/44] fix: emplace() of an lvalue pair compiles

---
 include/fixed_containers/emplace.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fixed_containers/emplace.hpp b/include/fixed_containers/emplace.hpp
index e183a20..1572ccc 100644
--- a/include/fixed_containers/emplace.hpp
+++ b/include/fixed_containers/emplace.hpp
@@ -14,13 +14,13 @@ constexpr std::pair<typename Container::iterator, bool> emplace_in_terms_of_try_
 {
     return [&]<typename First, typename... Rest>(First&& first, Rest&&... rest)
     {
-        if constexpr (sizeof...(Rest) == 0 && IsStdPair<First>)
+        if constexpr (sizeof...(Rest) == 0 && IsStdPair<std::remove_cvref_t<First>>)
         {
             // Lambda to avoid compilation errors with .first/.second when passing a non-pair
             return [&container]<typename Pair>(Pair&& pair)
             {
-                return container.try_emplace(std::forward<decltype(pair.first)>(pair.first),
-                                             std::forward<decltype(pair.second)>(pair.second));
+                return container.try_emplace(std::forward<Pair>(pair).first,
+                                             std::forward<Pair>(pair).second);
             }(std::forward<First>(first));
         }
         else if constexpr (sizeof...(Rest) == 2 &&
-- 
2.43.0


From 747bb39712e0ddf02f45727695f397df9b63328e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:27 +0000
Subject: [PATCH 34/44] fix: piecewise emplace() forwards its arguments

---
 include/fixed_containers/emplace.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/fixed_containers/emplace.hpp b/include/fixed_containers/emplace.hpp
index 1572ccc..04a102f 100644
--- a/include/fixed_containers/emplace.hpp
+++ b/include/fixed_containers/emplace.hpp
@@ -31,10 +31,11 @@ constexpr std::pair<typename Container::iterator, bool> emplace_in_terms_of_try_
                 return
                     [&container, &piece1, &piece2]<std::size_t... INDEX_1, std::size_t... INDEX_2>(
                         std::index_sequence<INDEX_1...>, std::index_sequence<INDEX_2...>) {
-                        return container.try_emplace(std::get<INDEX_1>(piece1)...,
-                                                     std::get<INDEX_2>(piece2)...);
-                    }(std::make_index_sequence<std::tuple_size_v<P1>>{},
-                      std::make_index_sequence<std::tuple_size_v<P2>>{});
+                        return container.try_emplace(
+                            std::get<INDEX_1>(std::forward<P1>(piece1))...,
+                            std::get<INDEX_2>(std::forward<P2>(piece2))...);
+                    }(std::make_index_sequence<std::tuple_size_v<std::remove_cvref_t<P1>>>{},
+                      std::make_index_sequence<std::tuple_size_v<std::remove_cvref_t<P2>>>{});
             }(std::forward<Rest>(rest)...);
         }
         else
-- 
2.43.0


From 5a389227b91213c89eb59db2998a0ab09e368ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:39 +0000
Subject: [PATCH 35/44] fix: emplace() of stacks and queues returns the new
 element

---
 include/fixed_containers/queue_adapter.hpp | 2 +-
 include/fixed_containers/stack_adapter.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/queue_adapter.hpp b/include/fixed_containers/queue_adapter.hpp
index 64dc02f..e873af2 100644
--- a/include/fixed_containers/queue_adapter.hpp
+++ b/include/fixed_containers/queue_adapter.hpp
@@ -91,7 +91,7 @@ public:
     template <class... Args>
     constexpr decltype(auto) emplace(Args&&... args)
     {
-        IMPLEMENTATION_DETAIL_DO_NOT_USE_data_.emplace_back(std::forward<Args>(args)...);
+        return IMPLEMENTATION_DETAIL_DO_NOT_USE_data_.emplace_back(std::forward<Args>(args)...);
     }
 
     constexpr void pop(
diff --git a/include/fixed_containers/stack_adapter.hpp b/include/fixed_containers/stack_adapter.hpp
index c02b0b1..1332e76 100644
--- a/include/fixed_containers/stack_adapter.hpp
+++ b/include/fixed_containers/stack_adapter.hpp
@@ -76,7 +76,7 @@ public:
     template <class... Args>
     constexpr decltype(auto) emplace(Args&&... args)
     {
-        IMPLEMENTATION_DETAIL_DO_NOT_USE_data_.emplace_back(std::forward<Args>(args)...);
+        return IMPLEMENTATION_DETAIL_DO_NOT_USE_data_.emplace_back(std::forward<Args>(args)...);
     }
 
     constexpr void pop(
-- 
2.43.0


From 55e1b39ffa32d0ea7624615abb5e12c477cc2348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:17 +0000
Subject: [PATCH 36/44] fix: emplace on a full circular deque may use the
 dropped element

---
 .../fixed_containers/fixed_circular_deque.hpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/fixed_containers/fixed_circular_deque.hpp b/include/fixed_containers/fixed_circular_deque.hpp
index f41192e..22609eb 100644
--- a/include/fixed_containers/fixed_circular_deque.hpp
+++ b/include/fixed_containers/fixed_circular_deque.hpp
@@ -10,6 +10,7 @@
 #include <cstddef>
 #include <initializer_list>
 #include <iterator>
+#include <type_traits>
 #include <utility>
 
 namespace fixed_containers
@@ -111,6 +112,15 @@ public:
     template <class... Args>
     constexpr reference emplace_back(Args&&... args)
     {
+        if constexpr (std::is_move_constructible_v<T>)
+        {
+            if (is_full(deque()))
+            {
+                // `args` may refer to the element that is about to be dropped
+                push_back(value_type(std::forward<Args>(args)...));
+                return back();
+            }
+        }
         pop_front_if_full(std_transition::source_location::current());
         return deque().emplace_back(std::forward<Args>(args)...);
     }
@@ -139,6 +149,15 @@ public:
     template <class... Args>
     constexpr reference emplace_front(Args&&... args)
     {
+        if constexpr (std::is_move_constructible_v<T>)
+        {
+            if (is_full(deque()))
+            {
+                // `args` may refer to the element that is about to be dropped
+                push_front(value_type(std::forward<Args>(args)...));
+                return front();
+            }
+        }
         pop_back_if_full(std_transition::source_location::current());
         return deque().emplace_front(std::forward<Args>(args)...);
     }
-- 
2.43.0


From bfe518fe6e8d4d1bac0f41c4c2a2e9aea13bd5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:28 +0000
Subject: [PATCH 37/44] fix: heterogeneous bounds cover every equivalent entry

---
 include/fixed_containers/fixed_map.hpp        | 21 ++++------
 .../fixed_containers/fixed_red_black_tree.hpp | 40 +++++++++++++++++++
 include/fixed_containers/fixed_set.hpp        | 12 +++---
 3 files changed, 53 insertions(+), 20 deletions(-)

diff --git a/include/fixed_containers/fixed_map.hpp b/include/fixed_containers/fixed_map.hpp
index 12d5143..5a3ae01 100644
--- a/include/fixed_containers/fixed_map.hpp
+++ b/include/fixed_containers/fixed_map.hpp
@@ -14,6 +14,7 @@
 #include <array>
 #include <cstddef>
 #include <functional>
+#include <iterator>
 
 namespace fixed_containers
 {
@@ -537,7 +538,7 @@ public:
     [[nodiscard]] constexpr std::size_t count(const K0& key) const noexcept
         requires IsTransparent<Compare>
     {
-        return static_cast<std::size_t>(contains(key));
+        return static_cast<std::size_t>(std::distance(lower_bound(key), upper_bound(key)));
     }
 
     [[nodiscard]] constexpr iterator lower_bound(const K& key) noexcept
@@ -552,15 +553,13 @@ public:
     [[nodiscard]] constexpr iterator lower_bound(const K0& key) noexcept
         requires IsTransparent<Compare>
     {
-        const NodeIndexAndParentIndex np_idxs = tree().index_of_node_with_parent(key);
-        return create_iterator(tree().index_of_node_ceiling(np_idxs));
+        return create_iterator(tree().index_of_first_not_less(key));
     }
     template <class K0>
     [[nodiscard]] constexpr const_iterator lower_bound(const K0& key) const noexcept
         requires IsTransparent<Compare>
     {
-        const NodeIndexAndParentIndex np_idxs = tree().index_of_node_with_parent(key);
-        return create_const_iterator(tree().index_of_node_ceiling(np_idxs));
+        return create_const_iterator(tree().index_of_first_not_less(key));
     }
 
     [[nodiscard]] constexpr iterator upper_bound(const K& key) noexcept
@@ -575,15 +574,13 @@ public:
     [[nodiscard]] constexpr iterator upper_bound(const K0& key) noexcept
         requires IsTransparent<Compare>
     {
-        const NodeIndexAndParentIndex np_idxs = tree().index_of_node_with_parent(key);
-        return create_iterator(tree().index_of_node_higher(np_idxs));
+        return create_iterator(tree().index_of_first_greater(key));
     }
     template <class K0>
     [[nodiscard]] constexpr const_iterator upper_bound(const K0& key) const noexcept
         requires IsTransparent<Compare>
     {
-        const NodeIndexAndParentIndex np_idxs = tree().index_of_node_with_parent(key);
-        return create_const_iterator(tree().index_of_node_higher(np_idxs));
+        return create_const_iterator(tree().index_of_first_greater(key));
     }
 
     [[nodiscard]] constexpr std::pair<iterator, iterator> equal_range(const K& key) noexcept
@@ -601,16 +598,14 @@ public:
     [[nodiscard]] constexpr std::pair<iterator, iterator> equal_range(const K0& key) noexcept
         requires IsTransparent<Compare>
     {
-        const NodeIndexAndParentIndex np_idxs = tree().index_of_node_with_parent(key);
-        return equal_range_impl(np_idxs);
+        return {lower_bound(key), upper_bound(key)};
     }
     template <class K0>
     [[nodiscard]] constexpr std::pair<const_iterator, const_iterator> equal_range(
         const K0& key) const noexcept
         requires IsTransparent<Compare>
     {
-        const NodeIndexAndParentIndex np_idxs = tree().index_of_node_with_parent(key);
-        return equal_range_impl(np_idxs);
+        return {lower_bound(key), upper_bound(key)};
     }
 
     template <std::size_t MAXIMUM_SIZE_2,
diff --git a/include/fixed_containers/fixed_red_black_tree.hpp b/include/fixed_containers/fixed_red_black_tree.hpp
index 8fc7cc6..09c7a45 100644
--- a/include/fixed_containers/fixed_red_black_tree.hpp
+++ b/include/fixed_containers/fixed_red_black_tree.hpp
@@ -327,6 +327,46 @@ public:
         return index_of_node_ceiling(index_of_node_with_parent(key));
     }
 
+    // Unlike a `K`, a heterogeneous key can be equivalent to more than one entry
+    template <class K0>
+    [[nodiscard]] constexpr NodeIndex index_of_first_not_less(const K0& key) const noexcept
+    {
+        NodeIndex result = NULL_INDEX;
+        for (NodeIndex i = root_index(); i != NULL_INDEX;)
+        {
+            const RedBlackTreeNodeView node = tree_storage_at(i);
+            if (IMPLEMENTATION_DETAIL_DO_NOT_USE_comparator_(node.key(), key))
+            {
+                i = node.right_index();
+            }
+            else
+            {
+                result = i;
+                i = node.left_index();
+            }
+        }
+        return result;
+    }
+    template <class K0>
+    [[nodiscard]] constexpr NodeIndex index_of_first_greater(const K0& key) const noexcept
+    {
+        NodeIndex result = NULL_INDEX;
+        for (NodeIndex i = root_index(); i != NULL_INDEX;)
+        {
+            const RedBlackTreeNodeView node = tree_storage_at(i);
+            if (IMPLEMENTATION_DETAIL_DO_NOT_USE_comparator_(key, node.key()))
+            {
+                result = i;
+                i = node.left_index();
+            }
+            else
+            {
+                i = node.right_index();
+            }
+        }
+        return result;
+    }
+
     template <class K0>
     [[nodiscard]] constexpr bool contains_node(const K0& key) const noexcept
     {
diff --git a/include/fixed_containers/fixed_set.hpp b/include/fixed_containers/fixed_set.hpp
index 18619cb..bc0c7e6 100644
--- a/include/fixed_containers/fixed_set.hpp
+++ b/include/fixed_containers/fixed_set.hpp
@@ -13,6 +13,7 @@
 #include <array>
 #include <cstddef>
 #include <functional>
+#include <iterator>
 #include <memory>
 
 namespace fixed_containers
@@ -336,7 +337,7 @@ public:
     [[nodiscard]] constexpr std::size_t count(const K0& key) const noexcept
         requires IsTransparent<Compare>
     {
-        return static_cast<std::size_t>(contains(key));
+        return static_cast<std::size_t>(std::distance(lower_bound(key), upper_bound(key)));
     }
 
     [[nodiscard]] constexpr const_iterator lower_bound(const K& key) const noexcept
@@ -347,8 +348,7 @@ public:
     [[nodiscard]] constexpr const_iterator lower_bound(const K0& key) const noexcept
         requires IsTransparent<Compare>
     {
-        const NodeIndexAndParentIndex np_idxs = tree().index_of_node_with_parent(key);
-        return create_const_iterator(tree().index_of_node_ceiling(np_idxs));
+        return create_const_iterator(tree().index_of_first_not_less(key));
     }
 
     [[nodiscard]] constexpr const_iterator upper_bound(const K& key) const noexcept
@@ -359,8 +359,7 @@ public:
     [[nodiscard]] constexpr const_iterator upper_bound(const K0& key) const noexcept
         requires IsTransparent<Compare>
     {
-        const NodeIndexAndParentIndex np_idxs = tree().index_of_node_with_parent(key);
-        return create_const_iterator(tree().index_of_node_higher(np_idxs));
+        return create_const_iterator(tree().index_of_first_greater(key));
     }
 
     [[nodiscard]] constexpr std::pair<const_iterator, const_iterator> equal_range(
@@ -374,8 +373,7 @@ public:
         const K0& key) const noexcept
         requires IsTransparent<Compare>
     {
-        const NodeIndexAndParentIndex np_idxs = tree().index_of_node_with_parent(key);
-        return equal_range_impl(np_idxs);
+        return {lower_bound(key), upper_bound(key)};
     }
 
     template <std::size_t MAXIMUM_SIZE_2,
-- 
2.43.0


From c4ce8e62dcc554f930a9120828d62b24516064c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:36 +0000
Subject: [PATCH 38/44] fix: strings can be assigned or inserted parts of
 themselves

---
 include/fixed_containers/fixed_string.hpp | 24 ++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/include/fixed_containers/fixed_string.hpp b/include/fixed_containers/fixed_string.hpp
index b15face..0482346 100644
--- a/include/fixed_containers/fixed_string.hpp
+++ b/include/fixed_containers/fixed_string.hpp
@@ -7,6 +7,7 @@
 #include "fixed_containers/sequence_container_checking.hpp"
 #include "fixed_containers/source_location.hpp"
 
+#include <algorithm>
 #include <array>
 #include <cstddef>
 #include <cstdlib>
@@ -123,7 +124,9 @@ public:
         InputIt last,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
-        vec().assign(first, last, loc);
+        // The range may be part of this string, so it is read before any character is replaced
+        const FixedVecStorage incoming(first, last, loc);
+        vec() = incoming;
         null_terminate(loc);
         return *this;
     }
@@ -260,7 +263,7 @@ public:
     {
         check_range_fits(first, last, loc);
         const ScopedNullTermination guard{this, loc};
-        return vec().insert(pos, first, last, loc);
+        return insert_range(pos, first, last, loc);
     }
     constexpr iterator insert(
         const_iterator pos,
@@ -278,7 +281,7 @@ public:
     {
         check_range_fits(view.begin(), view.end(), loc);
         const ScopedNullTermination guard{this, loc};
-        return vec().insert(pos, view.begin(), view.end(), loc);
+        return insert_range(pos, view.begin(), view.end(), loc);
     }
 
     constexpr iterator erase(
@@ -661,6 +664,21 @@ private:
         }
     }
 
+    template <class InputIt>
+    constexpr iterator insert_range(const_iterator pos,
+                                    InputIt first,
+                                    InputIt last,
+                                    const std_transition::source_location& loc)
+    {
+        // The range may be part of this string, so it is copied to the end before any character
+        // changes place.
+        const difference_type offset = std::distance(vec().cbegin(), pos);
+        const iterator first_inserted = vec().insert(vec().cend(), first, last, loc);
+        const iterator destination = std::next(vec().begin(), offset);
+        std::rotate(destination, first_inserted, vec().end());
+        return destination;
+    }
+
     constexpr void null_terminate(std::size_t n)
     {
         // This bypasses the vector's bounds check
-- 
2.43.0


From 127c587d13f3bed11480e1275fde3cb8dba882c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:06 +0000
Subject: [PATCH 39/44] fix: containers that differ only in policy or node
 layout can be compared

---
 include/fixed_containers/fixed_deque.hpp  | 2 +-
 include/fixed_containers/fixed_list.hpp   | 2 +-
 include/fixed_containers/fixed_map.hpp    | 3 ++-
 include/fixed_containers/fixed_set.hpp    | 3 ++-
 include/fixed_containers/fixed_vector.hpp | 2 +-
 5 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/fixed_containers/fixed_deque.hpp b/include/fixed_containers/fixed_deque.hpp
index 46f25be..aa0284d 100644
--- a/include/fixed_containers/fixed_deque.hpp
+++ b/include/fixed_containers/fixed_deque.hpp
@@ -495,7 +495,7 @@ public:
     template <std::size_t MAXIMUM_SIZE_2, customize::SequenceContainerChecking CheckingType2>
     constexpr bool operator==(const FixedDequeBase<T, MAXIMUM_SIZE_2, CheckingType2>& other) const
     {
-        if constexpr (MAXIMUM_SIZE == MAXIMUM_SIZE_2)
+        if constexpr (std::is_same_v<decltype(*this), decltype(other)>)
         {
             if (this == &other)
             {
diff --git a/include/fixed_containers/fixed_list.hpp b/include/fixed_containers/fixed_list.hpp
index 35af88b..23d808b 100644
--- a/include/fixed_containers/fixed_list.hpp
+++ b/include/fixed_containers/fixed_list.hpp
@@ -468,7 +468,7 @@ public:
     template <std::size_t MAXIMUM_SIZE_2, customize::SequenceContainerChecking CheckingType2>
     constexpr bool operator==(const FixedList<T, MAXIMUM_SIZE_2, CheckingType2>& other) const
     {
-        if constexpr (MAXIMUM_SIZE == MAXIMUM_SIZE_2)
+        if constexpr (std::is_same_v<decltype(*this), decltype(other)>)
         {
             if (this == &other)
             {
diff --git a/include/fixed_containers/fixed_map.hpp b/include/fixed_containers/fixed_map.hpp
index 5a3ae01..4788f92 100644
--- a/include/fixed_containers/fixed_map.hpp
+++ b/include/fixed_containers/fixed_map.hpp
@@ -15,6 +15,7 @@
 #include <cstddef>
 #include <functional>
 #include <iterator>
+#include <type_traits>
 
 namespace fixed_containers
 {
@@ -625,7 +626,7 @@ public:
                                                            StorageTemplate2,
                                                            CheckingType2>& other) const
     {
-        if constexpr (MAXIMUM_SIZE == MAXIMUM_SIZE_2)
+        if constexpr (std::is_same_v<decltype(*this), decltype(other)>)
         {
             if (this == &other)
             {
diff --git a/include/fixed_containers/fixed_set.hpp b/include/fixed_containers/fixed_set.hpp
index bc0c7e6..a5b7410 100644
--- a/include/fixed_containers/fixed_set.hpp
+++ b/include/fixed_containers/fixed_set.hpp
@@ -15,6 +15,7 @@
 #include <functional>
 #include <iterator>
 #include <memory>
+#include <type_traits>
 
 namespace fixed_containers
 {
@@ -389,7 +390,7 @@ public:
         const FixedSet<K, MAXIMUM_SIZE_2, Compare2, COMPACTNESS_2, StorageTemplate2, CheckingType2>&
             other) const
     {
-        if constexpr (MAXIMUM_SIZE == MAXIMUM_SIZE_2)
+        if constexpr (std::is_same_v<decltype(*this), decltype(other)>)
         {
             if (this == &other)
             {
diff --git a/include/fixed_containers/fixed_vector.hpp b/include/fixed_containers/fixed_vector.hpp
index 55bdc03..92f51e9 100644
--- a/include/fixed_containers/fixed_vector.hpp
+++ b/include/fixed_containers/fixed_vector.hpp
@@ -569,7 +569,7 @@ public:
     template <std::size_t MAXIMUM_SIZE_2, customize::SequenceContainerChecking CheckingType2>
     constexpr bool operator==(const FixedVectorBase<T, MAXIMUM_SIZE_2, CheckingType2>& other) const
     {
-        if constexpr (MAXIMUM_SIZE == MAXIMUM_SIZE_2)
+        if constexpr (std::is_same_v<decltype(*this), decltype(other)>)
         {
             if (this == &other)
             {
-- 
2.43.0


From c18e3a6c22b1cca1b3c41c60e3b68922b2c014e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:05 +0000
Subject: [PATCH 40/44] fix: linked lists copy and move elements that overload
 operator&

---
 include/fixed_containers/fixed_doubly_linked_list.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/fixed_doubly_linked_list.hpp b/include/fixed_containers/fixed_doubly_linked_list.hpp
index e72ff58..60e9b67 100644
--- a/include/fixed_containers/fixed_doubly_linked_list.hpp
+++ b/include/fixed_containers/fixed_doubly_linked_list.hpp
@@ -208,7 +208,7 @@ public:
         // `chain_`
         for (auto i = other.front_index(); i != Base::NULL_INDEX; i = other.next_of(i))
         {
-            std::construct_at(&this->at(i), other.at(i));
+            memory::construct_at_address_of(this->at(i), other.at(i));
         }
     }
 
@@ -224,7 +224,7 @@ public:
             other.IMPLEMENTATION_DETAIL_DO_NOT_USE_storage_);
         for (auto i = other.front_index(); i != Base::NULL_INDEX; i = other.next_of(i))
         {
-            std::construct_at(&this->at(i), std::move(other.at(i)));
+            memory::construct_at_address_of(this->at(i), std::move(other.at(i)));
         }
     }
 
-- 
2.43.0


From 4d0b3e51229798b96cfdfcf4c8c3aac3eaf76fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:15 +0000
Subject: [PATCH 41/44] fix: emplace of sets does not prefer the list
 constructors of the key

---
 include/fixed_containers/fixed_set.hpp         | 14 +++++++++++---
 include/fixed_containers/fixed_set_adapter.hpp | 12 +++++++++++-
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/include/fixed_containers/fixed_set.hpp b/include/fixed_containers/fixed_set.hpp
index a5b7410..739b6ab 100644
--- a/include/fixed_containers/fixed_set.hpp
+++ b/include/fixed_containers/fixed_set.hpp
@@ -262,12 +262,20 @@ public:
     template <class... Args>
     constexpr std::pair<const_iterator, bool> emplace(Args&&... args)
     {
-        return insert(K{std::forward<Args>(args)...});
+        // Parentheses, so that the list constructors of `K` are not preferred over the others
+        if constexpr (std::is_constructible_v<K, Args&&...>)
+        {
+            return insert(K(std::forward<Args>(args)...));
+        }
+        else
+        {
+            return insert(K{std::forward<Args>(args)...});
+        }
     }
     template <class... Args>
-    constexpr iterator emplace_hint(const_iterator hint, Args&&... args)
+    constexpr iterator emplace_hint(const_iterator /*hint*/, Args&&... args)
     {
-        return insert(hint, K{std::forward<Args>(args)...});
+        return emplace(std::forward<Args>(args)...).first;
     }
 
     constexpr const_iterator erase(const_iterator pos) noexcept
diff --git a/include/fixed_containers/fixed_set_adapter.hpp b/include/fixed_containers/fixed_set_adapter.hpp
index 2bf9f7a..25f648a 100644
--- a/include/fixed_containers/fixed_set_adapter.hpp
+++ b/include/fixed_containers/fixed_set_adapter.hpp
@@ -8,6 +8,8 @@
 
 #include <algorithm>
 #include <memory>
+#include <type_traits>
+#include <utility>
 
 namespace fixed_containers
 {
@@ -225,7 +227,15 @@ public:
     template <class... Args>
     constexpr std::pair<iterator, bool> emplace(Args&&... args) noexcept
     {
-        return insert(K{std::forward<Args>(args)...});
+        // Parentheses, so that the list constructors of `K` are not preferred over the others
+        if constexpr (std::is_constructible_v<K, Args&&...>)
+        {
+            return insert(K(std::forward<Args>(args)...));
+        }
+        else
+        {
+            return insert(K{std::forward<Args>(args)...});
+        }
     }
 
     template <class... Args>
-- 
2.43.0


From 499bc4860730c2730ac3e7be6b72b63eae253faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:30 +0000
Subject: [PATCH 42/44] fix: piecewise emplace builds the key from all of its
 arguments

---
 include/fixed_containers/emplace.hpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/include/fixed_containers/emplace.hpp b/include/fixed_containers/emplace.hpp
index 04a102f..41c46b2 100644
--- a/include/fixed_containers/emplace.hpp
+++ b/include/fixed_containers/emplace.hpp
@@ -29,13 +29,22 @@ constexpr std::pair<typename Container::iterator, bool> emplace_in_terms_of_try_
             return [&container]<typename P1, typename P2>(P1&& piece1, P2&& piece2)
             {
                 return
-                    [&container, &piece1, &piece2]<std::size_t... INDEX_1, std::size_t... INDEX_2>(
-                        std::index_sequence<INDEX_1...>, std::index_sequence<INDEX_2...>) {
-                        return container.try_emplace(
-                            std::get<INDEX_1>(std::forward<P1>(piece1))...,
-                            std::get<INDEX_2>(std::forward<P2>(piece2))...);
-                    }(std::make_index_sequence<std::tuple_size_v<std::remove_cvref_t<P1>>>{},
-                      std::make_index_sequence<std::tuple_size_v<std::remove_cvref_t<P2>>>{});
+                    [&container, &piece1, &piece2]<std::size_t... INDEX_2>(
+                        std::index_sequence<INDEX_2...>) {
+                        if constexpr (std::tuple_size_v<std::remove_cvref_t<P1>> == 1)
+                        {
+                            return container.try_emplace(
+                                std::get<0>(std::forward<P1>(piece1)),
+                                std::get<INDEX_2>(std::forward<P2>(piece2))...);
+                        }
+                        else
+                        {
+                            return container.try_emplace(
+                                std::make_from_tuple<typename Container::key_type>(
+                                    std::forward<P1>(piece1)),
+                                std::get<INDEX_2>(std::forward<P2>(piece2))...);
+                        }
+                    }(std::make_index_sequence<std::tuple_size_v<std::remove_cvref_t<P2>>>{});
             }(std::forward<Rest>(rest)...);
         }
         else
-- 
2.43.0


From f33d175a648e92fd04575a907f7c16193ffbee5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:43 +0000
Subject: [PATCH 43/44] fix: adapters and circular deques of elements
 constructible from anything

---
 include/fixed_containers/fixed_circular_deque.hpp | 2 +-
 include/fixed_containers/queue_adapter.hpp        | 2 +-
 include/fixed_containers/stack_adapter.hpp        | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fixed_containers/fixed_circular_deque.hpp b/include/fixed_containers/fixed_circular_deque.hpp
index 22609eb..767ab0b 100644
--- a/include/fixed_containers/fixed_circular_deque.hpp
+++ b/include/fixed_containers/fixed_circular_deque.hpp
@@ -52,7 +52,7 @@ public:
                                  const T& value,
                                  const std_transition::source_location& loc =
                                      std_transition::source_location::current()) noexcept
-      : IMPLEMENTATION_DETAIL_DO_NOT_USE_data_{(std::min)(count, MAXIMUM_SIZE), value, loc}
+      : IMPLEMENTATION_DETAIL_DO_NOT_USE_data_((std::min)(count, MAXIMUM_SIZE), value, loc)
     {
     }
 
diff --git a/include/fixed_containers/queue_adapter.hpp b/include/fixed_containers/queue_adapter.hpp
index e873af2..9649753 100644
--- a/include/fixed_containers/queue_adapter.hpp
+++ b/include/fixed_containers/queue_adapter.hpp
@@ -33,7 +33,7 @@ public:
                            InputIt last,
                            const std_transition::source_location& loc =
                                std_transition::source_location::current()) noexcept
-      : IMPLEMENTATION_DETAIL_DO_NOT_USE_data_{first, last, loc}
+      : IMPLEMENTATION_DETAIL_DO_NOT_USE_data_(first, last, loc)
     {
     }
 
diff --git a/include/fixed_containers/stack_adapter.hpp b/include/fixed_containers/stack_adapter.hpp
index 1332e76..8f2b326 100644
--- a/include/fixed_containers/stack_adapter.hpp
+++ b/include/fixed_containers/stack_adapter.hpp
@@ -33,7 +33,7 @@ public:
                            InputIt last,
                            const std_transition::source_location& loc =
                                std_transition::source_location::current()) noexcept
-      : IMPLEMENTATION_DETAIL_DO_NOT_USE_data_{first, last, loc}
+      : IMPLEMENTATION_DETAIL_DO_NOT_USE_data_(first, last, loc)
     {
     }
 
-- 
2.43.0


From 3b34ca9e0be230d704845e550fea04ff93757e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:59 +0000
Subject: [PATCH 44/44] fix: sets of keys that are constructible from anything

---
 include/fixed_containers/fixed_set.hpp           | 10 +++++-----
 include/fixed_containers/fixed_unordered_set.hpp |  8 ++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/fixed_containers/fixed_set.hpp b/include/fixed_containers/fixed_set.hpp
index 739b6ab..19e1a71 100644
--- a/include/fixed_containers/fixed_set.hpp
+++ b/include/fixed_containers/fixed_set.hpp
@@ -138,7 +138,7 @@ public:  // Public so this type is a structural type and can thus be used in tem
 
 public:
     constexpr FixedSet() noexcept
-      : FixedSet{Compare{}}
+      : FixedSet(Compare{})
     {
     }
 
@@ -153,7 +153,7 @@ public:
         InputIt last,
         const Compare& comparator = {},
         const std_transition::source_location& loc = std_transition::source_location::current())
-      : FixedSet{comparator}
+      : FixedSet(comparator)
     {
         insert(first, last, loc);
     }
@@ -162,7 +162,7 @@ public:
                        const Compare& comparator = {},
                        const std_transition::source_location& loc =
                            std_transition::source_location::current()) noexcept
-      : FixedSet{comparator}
+      : FixedSet(comparator)
     {
         this->insert(list, loc);
     }
@@ -524,7 +524,7 @@ template <typename K,
     const std_transition::source_location& loc =
         std_transition::source_location::current()) noexcept
 {
-    return {std::begin(list), std::end(list), comparator, loc};
+    return FixedSetType(std::begin(list), std::end(list), comparator, loc);
 }
 template <
     typename K,
@@ -540,7 +540,7 @@ template <
     const std_transition::source_location& /*loc*/ =
         std_transition::source_location::current()) noexcept
 {
-    return FixedSetType{comparator};
+    return FixedSetType(comparator);
 }
 
 template <typename K,
diff --git a/include/fixed_containers/fixed_unordered_set.hpp b/include/fixed_containers/fixed_unordered_set.hpp
index fef9c82..5fbbd7a 100644
--- a/include/fixed_containers/fixed_unordered_set.hpp
+++ b/include/fixed_containers/fixed_unordered_set.hpp
@@ -45,7 +45,7 @@ public:
         const Hash& hash = Hash(),
         const KeyEqual& equal = KeyEqual(),
         const std_transition::source_location& loc = std_transition::source_location::current())
-      : FixedUnorderedSet{hash, equal}
+      : FixedUnorderedSet(hash, equal)
     {
         this->insert(first, last, loc);
     }
@@ -55,7 +55,7 @@ public:
         const Hash& hash = Hash(),
         const KeyEqual& equal = KeyEqual(),
         const std_transition::source_location& loc = std_transition::source_location::current())
-      : FixedUnorderedSet{hash, equal}
+      : FixedUnorderedSet(hash, equal)
     {
         this->insert(list, loc);
     }
@@ -83,7 +83,7 @@ template <
     const std_transition::source_location& loc =
         std_transition::source_location::current()) noexcept
 {
-    return {std::begin(list), std::end(list), hash, key_equal, loc};
+    return FixedSetType(std::begin(list), std::end(list), hash, key_equal, loc);
 }
 template <typename K,
           class Hash = wyhash::hash<K>,
@@ -97,7 +97,7 @@ template <typename K,
     const std_transition::source_location& /*loc*/ =
         std_transition::source_location::current()) noexcept
 {
-    return {hash, key_equal};
+    return FixedSetType(hash, key_equal);
 }
 
 template <
-- 
2.43.0


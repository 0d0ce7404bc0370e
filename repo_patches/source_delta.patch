From 9f052df46448ef5125903dd35d267a2a5600f0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:06 +0000
Subject: [PATCH 01/47] fix: do not reallocate elements that are not trivially
 copyable

VariableLengthArray used the allocator's reallocate, which moves raw bytes,
for any element type. Types with non-trivial copy or move, such as ones
that refer to themselves, ended up broken.
---
 include/cetl/variable_length_array.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index 5f8f917..fd7dbb7 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -170,15 +170,22 @@ protected:
     using reallocate_operation =
         decltype(std::declval<U>().reallocate(std::declval<value_type*>(), std::size_t(), std::size_t()));
 
+    // Reallocation moves the bytes of the elements so it must not be used for types that don't support this.
     template <typename UAllocator>
-    static constexpr typename std::enable_if_t<is_detected<reallocate_operation, UAllocator>::value, value_type>*
+    struct can_reallocate : std::integral_constant<bool,
+                                                   is_detected<reallocate_operation, UAllocator>::value &&
+                                                       std::is_trivially_copyable<value_type>::value>
+    {};
+
+    template <typename UAllocator>
+    static constexpr typename std::enable_if_t<can_reallocate<UAllocator>::value, value_type>*
     reallocate(value_type* data, UAllocator& alloc, std::size_t old_object_count, std::size_t new_object_count)
     {
         return alloc.reallocate(data, old_object_count, new_object_count);
     }
 
     template <typename UAllocator>
-    static constexpr typename std::enable_if_t<!is_detected<reallocate_operation, UAllocator>::value, value_type>*
+    static constexpr typename std::enable_if_t<!can_reallocate<UAllocator>::value, value_type>*
     reallocate(value_type* data, UAllocator& alloc, std::size_t old_object_count, std::size_t new_object_count)
     {
         (void) data;
-- 
2.43.0


From 66c3ca41c0d587bcd5d748a45a9a3cb50e8ea444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:11 +0000
Subject: [PATCH 02/47] fix: release memory and elements when
 VariableLengthArray operations throw

An exception from an element constructor leaked the new memory block and the
elements built so far in reserve, resize, shrink_to_fit, copy assignment
and the constructors.
---
 include/cetl/variable_length_array.hpp | 78 +++++++++++++++++++-------
 1 file changed, 58 insertions(+), 20 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index fd7dbb7..d521704 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -226,6 +226,41 @@ protected:
             src[--dtor_iterator].~U();
         }
     }
+    // +----------------------------------------------------------------------+
+    // | failure support
+    // +----------------------------------------------------------------------+
+    ///
+    /// Destroys the elements constructed so far if construction of a further one fails.
+    ///
+    struct construct_guard final
+    {
+        value_type* const first;
+        size_type         count;
+
+        ~construct_guard()
+        {
+            fast_destroy(first, count);
+        }
+    };
+
+    ///
+    /// Gives back newly allocated memory if its elements cannot be constructed.
+    ///
+    struct allocate_guard final
+    {
+        allocator_type& alloc;
+        value_type*     data;
+        const size_type capacity;
+
+        ~allocate_guard()
+        {
+            if (nullptr != data)
+            {
+                alloc.deallocate(data, capacity);
+            }
+        }
+    };
+
     // +----------------------------------------------------------------------+
     // | deallocation support
     // +----------------------------------------------------------------------+
@@ -342,12 +377,15 @@ protected:
                                                          decltype(std::declval<const InputIt>()[0])>>())))
     {
         const size_type max_copy_size = std::min(dst_capacity_count, src_len_count);
+        construct_guard guard{dst, 0};
         for (size_type i = 0; i < max_copy_size; ++i)
         {
             std::allocator_traits<allocator_type>::construct(alloc,
                                                              &dst[static_cast<difference_type>(i)],
                                                              src[static_cast<difference_type>(i)]);
+            ++guard.count;
         }
+        guard.count = 0;
         return max_copy_size;
     }
 
@@ -380,10 +418,13 @@ protected:
             !is_array_of_type_trivially_copyable<std::add_pointer_t<value_type>, InputIt>::value>* = nullptr)
     {
         const size_type max_copy_size = std::min(dst_capacity_count, src_len_count);
+        construct_guard guard{dst, 0};
         for (size_type i = 0; i < max_copy_size; ++i)
         {
             std::allocator_traits<allocator_type>::construct(alloc, &dst[i], std::move_if_noexcept(src[i]));
+            ++guard.count;
         }
+        guard.count = 0;
         return max_copy_size;
     }
 
@@ -644,7 +685,9 @@ protected:
             new_data = std::allocator_traits<allocator_type>::allocate(alloc_, no_shrink_capacity);
             if (nullptr != new_data)
             {
+                allocate_guard guard{alloc_, new_data, no_shrink_capacity};
                 fast_forward_construct(new_data, no_shrink_capacity, data_, size_, alloc_);
+                guard.data = nullptr;
                 fast_deallocate(data_, size_, capacity_, alloc_);
                 data_     = new_data;
                 capacity_ = no_shrink_capacity;
@@ -673,10 +716,13 @@ protected:
                 }
 #endif
             }
+            construct_guard guard{data_ + size_, 0};
             for (std::size_t i = size_; i < new_size; ++i)
             {
                 std::allocator_traits<allocator_type>::construct(alloc_, &data_[i], std::forward<Args>(args)...);
+                ++guard.count;
             }
+            guard.count = 0;
         }
         else
         {
@@ -727,7 +773,9 @@ protected:
         {
             if (minimized_data != data_)
             {
+                allocate_guard guard{alloc_, minimized_data, size_};
                 fast_forward_construct(minimized_data, size_, data_, size_, alloc_);
+                guard.data = nullptr;
                 fast_deallocate(data_, size_, capacity_, alloc_);
             }  // else the allocator was able to simply shrink the reserved area for the same memory pointer.
             data_     = minimized_data;
@@ -770,16 +818,6 @@ protected:
     {
     }
 
-    constexpr VariableLengthArrayBase(const VariableLengthArrayBase& rhs, const allocator_type& rhs_alloc) noexcept(
-        std::is_nothrow_copy_constructible<allocator_type>::value)
-        : alloc_(std::allocator_traits<allocator_type>::select_on_container_copy_construction(rhs_alloc))
-        , data_(nullptr)
-        , capacity_(0)
-        , size_(0)
-        , max_size_max_(rhs.max_size_max_)
-    {
-    }
-
     constexpr VariableLengthArrayBase(VariableLengthArrayBase&& rhs) noexcept
         : alloc_(std::move(rhs.alloc_))
         , data_(std::move(rhs.data_))
@@ -970,7 +1008,7 @@ public:
     ///                     `std::min(max_size_max, std::allocator_traits<allocator_type>::max_size(alloc))`
     /// @param alloc Allocator to use for all allocations.
     VariableLengthArray(std::initializer_list<value_type> l, size_type max_size_max, const allocator_type& alloc)
-        : Base(alloc, nullptr, 0, 0, max_size_max)
+        : VariableLengthArray(max_size_max, alloc)
     {
         reserve(l.size());
         size_ = Base::fast_copy_construct(data_, capacity_, l.begin(), l.size(), alloc_);
@@ -994,7 +1032,7 @@ public:
     /// @param alloc    Allocator to use for all allocations.
     template <class InputIt>
     VariableLengthArray(InputIt first, InputIt last, size_type max_size_max, const allocator_type& alloc)
-        : Base(alloc, nullptr, 0, 0, max_size_max)
+        : VariableLengthArray(max_size_max, alloc)
     {
         if (last >= first)
         {
@@ -1022,7 +1060,8 @@ public:
     // | RULE OF FIVE
     // +----------------------------------------------------------------------+
     VariableLengthArray(const VariableLengthArray& rhs, const allocator_type& alloc)
-        : Base(rhs, alloc)
+        : VariableLengthArray(rhs.max_size_max_,
+                              std::allocator_traits<allocator_type>::select_on_container_copy_construction(alloc))
     {
         Base::reserve(rhs.size(), rhs.max_size());
         size_ = Base::fast_copy_construct(data_, capacity_, rhs.data_, rhs.size_, alloc_);
@@ -1824,8 +1863,7 @@ public:
     ///                     `std::min(max_size_max, std::allocator_traits<allocator_type>::max_size(alloc))`
     /// @param alloc Allocator to use for all allocations.
     VariableLengthArray(std::initializer_list<bool> l, size_type max_size_max, const allocator_type& alloc)
-        : Base(alloc, nullptr, 0, 0, max_size_max)
-        , last_byte_bit_fill_{0}
+        : VariableLengthArray(max_size_max, alloc)
     {
         reserve_bits(l.size(), max_size());
         for (auto list_item : l)
@@ -1852,8 +1890,7 @@ public:
     /// @param alloc    Allocator to use for all allocations.
     template <class InputIt>
     VariableLengthArray(InputIt first, InputIt last, size_type max_size_max, const allocator_type& alloc)
-        : Base(alloc, nullptr, 0, 0, max_size_max)
-        , last_byte_bit_fill_{0}
+        : VariableLengthArray(max_size_max, alloc)
     {
         if (last >= first)
         {
@@ -1881,11 +1918,12 @@ public:
     // | RULE OF FIVE
     // +----------------------------------------------------------------------+
     VariableLengthArray(const VariableLengthArray& rhs, const allocator_type& alloc)
-        : Base(rhs, alloc)
-        , last_byte_bit_fill_{rhs.last_byte_bit_fill_}
+        : VariableLengthArray(rhs.max_size_max_,
+                              std::allocator_traits<allocator_type>::select_on_container_copy_construction(alloc))
     {
         reserve_bits(rhs.size(), rhs.max_size());
-        size_ = Base::fast_copy_construct(data_, capacity_, rhs.data_, rhs.size_, alloc_);
+        size_               = Base::fast_copy_construct(data_, capacity_, rhs.data_, rhs.size_, alloc_);
+        last_byte_bit_fill_ = rhs.last_byte_bit_fill_;
     }
 
     VariableLengthArray(const VariableLengthArray& rhs)
-- 
2.43.0


From acf8e2f2bbb6ba544ed8ea0193604303ff812155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:11 +0000
Subject: [PATCH 03/47] fix: use a given allocator as is and move elements
 between unequal allocators

Constructing a VariableLengthArray with an explicit allocator from another
array replaced that allocator by its copy-construction selection. The
moving form also took over memory of an unequal allocator, or leaked
the source and reported a capacity that was never allocated.
---
 include/cetl/variable_length_array.hpp | 53 +++++++++++++++++---------
 1 file changed, 35 insertions(+), 18 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index d521704..0eb8d56 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -836,8 +836,8 @@ protected:
     constexpr VariableLengthArrayBase(
         VariableLengthArrayBase&& rhs,
         const UAlloc&             rhs_alloc,
-        typename std::enable_if_t<is_pocma_or_is_always_equal<UAlloc>::value>* = nullptr) noexcept
-        : alloc_(std::allocator_traits<UAlloc>::select_on_container_copy_construction(rhs_alloc))
+        typename std::enable_if_t<std::allocator_traits<UAlloc>::is_always_equal::value>* = nullptr) noexcept
+        : alloc_(rhs_alloc)
         , data_(std::move(rhs.data_))
         , capacity_(rhs.capacity_)
         , size_(rhs.size_)
@@ -854,8 +854,8 @@ protected:
     constexpr VariableLengthArrayBase(
         VariableLengthArrayBase&& rhs,
         const UAlloc&             rhs_alloc,
-        typename std::enable_if_t<!is_pocma_or_is_always_equal<UAlloc>::value>* = nullptr) noexcept
-        : alloc_(std::allocator_traits<UAlloc>::select_on_container_copy_construction(rhs_alloc))
+        typename std::enable_if_t<!std::allocator_traits<UAlloc>::is_always_equal::value>* = nullptr)
+        : alloc_(rhs_alloc)
         , data_{nullptr}
         , capacity_(0)
         , size_(0)
@@ -876,11 +876,22 @@ protected:
             // manually.
             if (rhs.size_ > 0)
             {
-                data_ = std::allocator_traits<allocator_type>::allocate(alloc_, rhs.size_);
-                fast_forward_construct(data_, rhs.size_, rhs.data_, rhs.size_, alloc_);
+                value_type* const new_data = std::allocator_traits<allocator_type>::allocate(alloc_, rhs.size_);
+                if (nullptr == new_data)
+                {
+                    return;
+                }
+                allocate_guard guard{alloc_, new_data, rhs.size_};
+                fast_forward_construct(new_data, rhs.size_, rhs.data_, rhs.size_, alloc_);
+                guard.data = nullptr;
+                data_      = new_data;
+                capacity_  = rhs.size_;
+                size_      = rhs.size_;
+            }
+            if (nullptr != rhs.data_)
+            {
+                fast_deallocate(rhs.data_, rhs.size_, rhs.capacity_, rhs.alloc_);
             }
-            capacity_ = rhs.capacity_;
-            size_     = rhs.size_;
         }
         rhs.size_     = 0;
         rhs.capacity_ = 0;
@@ -1060,15 +1071,15 @@ public:
     // | RULE OF FIVE
     // +----------------------------------------------------------------------+
     VariableLengthArray(const VariableLengthArray& rhs, const allocator_type& alloc)
-        : VariableLengthArray(rhs.max_size_max_,
-                              std::allocator_traits<allocator_type>::select_on_container_copy_construction(alloc))
+        : VariableLengthArray(rhs.max_size_max_, alloc)
     {
         Base::reserve(rhs.size(), rhs.max_size());
         size_ = Base::fast_copy_construct(data_, capacity_, rhs.data_, rhs.size_, alloc_);
     }
 
     VariableLengthArray(const VariableLengthArray& rhs)
-        : VariableLengthArray(rhs, rhs.alloc_)
+        : VariableLengthArray(rhs,
+                              std::allocator_traits<allocator_type>::select_on_container_copy_construction(rhs.alloc_))
     {
     }
 
@@ -1078,7 +1089,8 @@ public:
         return *this;
     }
 
-    VariableLengthArray(VariableLengthArray&& rhs, const allocator_type& alloc) noexcept
+    VariableLengthArray(VariableLengthArray&& rhs, const allocator_type& alloc) noexcept(
+        std::allocator_traits<allocator_type>::is_always_equal::value)
         : Base(std::move(rhs), alloc)
     {
     }
@@ -1918,8 +1930,7 @@ public:
     // | RULE OF FIVE
     // +----------------------------------------------------------------------+
     VariableLengthArray(const VariableLengthArray& rhs, const allocator_type& alloc)
-        : VariableLengthArray(rhs.max_size_max_,
-                              std::allocator_traits<allocator_type>::select_on_container_copy_construction(alloc))
+        : VariableLengthArray(rhs.max_size_max_, alloc)
     {
         reserve_bits(rhs.size(), rhs.max_size());
         size_               = Base::fast_copy_construct(data_, capacity_, rhs.data_, rhs.size_, alloc_);
@@ -1927,7 +1938,8 @@ public:
     }
 
     VariableLengthArray(const VariableLengthArray& rhs)
-        : VariableLengthArray(rhs, rhs.alloc_)
+        : VariableLengthArray(rhs,
+                              std::allocator_traits<allocator_type>::select_on_container_copy_construction(rhs.alloc_))
     {
     }
 
@@ -1945,11 +1957,16 @@ public:
         rhs.last_byte_bit_fill_ = 0;
     }
 
-    VariableLengthArray(VariableLengthArray&& rhs, const allocator_type& alloc) noexcept
+    VariableLengthArray(VariableLengthArray&& rhs, const allocator_type& alloc) noexcept(
+        std::allocator_traits<allocator_type>::is_always_equal::value)
         : Base(std::move(rhs), alloc)
-        , last_byte_bit_fill_{rhs.last_byte_bit_fill_}
+        , last_byte_bit_fill_{0}
     {
-        rhs.last_byte_bit_fill_ = 0;
+        if (rhs.size_ == 0)
+        {
+            last_byte_bit_fill_     = rhs.last_byte_bit_fill_;
+            rhs.last_byte_bit_fill_ = 0;
+        }
     }
 
     VariableLengthArray& operator=(VariableLengthArray&& rhs) noexcept(
-- 
2.43.0


From 75ed934830776b3e144043eae623133496739d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:46 +0000
Subject: [PATCH 04/47] fix: keep VariableLengthArray capacity within a limit
 adopted by assignment

Copy assignment took over the maximum size of the source but kept a larger
buffer, so the capacity could exceed the maximum size. Move assignment
between unequal allocators did not take over the maximum size at all.
---
 include/cetl/variable_length_array.hpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index 0eb8d56..5710d91 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -473,9 +473,10 @@ protected:
         max_size_max_ = rhs.max_size_max_;
         if ((std::allocator_traits<allocator_type>::is_always_equal::value || alloc_ == rhs.alloc_ ||
              !std::allocator_traits<allocator_type>::propagate_on_container_copy_assignment::value) &&
-            rhs.size_ <= capacity_)
+            rhs.size_ <= capacity_ && capacity_ <= rhs_max_size)
         {
-            // First off, we're here because the incoming data will fit within our existing capacity.
+            // First off, we're here because the incoming data will fit within our existing capacity which, in turn,
+            // doesn't exceed the maximum size we are adopting.
 
             // Next we are here because either the allocators are equal or we are not going to adopt the incoming
             // allocator.
@@ -520,7 +521,7 @@ protected:
             // then allocate using the new (or not) allocator. If they are equal then this is all the same thing.
             // If they are not then we did it right anyway. All hail TMP!
             copy_assign_alloc(rhs.alloc_);
-            reserve(new_size, rhs_max_size);
+            reserve(new_size, std::min(rhs_max_size, std::allocator_traits<allocator_type>::max_size(alloc_)));
             size_ = fast_copy_construct(data_, capacity_, rhs.data_, new_size, alloc_);
         }
     }
@@ -588,7 +589,8 @@ protected:
         }
         else
         {
-            if (rhs.size_ <= capacity_)
+            max_size_max_ = rhs.max_size_max_;
+            if (rhs.size_ <= capacity_ && capacity_ <= rhs_max_size)
             {
                 // We're here because the incoming data will fit within our existing capacity and because we can't
                 // just move the memory from the rhs allocator since that allocator is neither equal to our own nor are
@@ -614,7 +616,8 @@ protected:
                                            alloc_);
                 }
                 size_ = rhs.size_;
-                rhs.resize(0, rhs_max_size);
+                fast_destroy(rhs.data_, rhs.size_);
+                rhs.size_ = 0;
                 // TODO: should we release the rhs capacity too?
             }
             else
@@ -634,9 +637,10 @@ protected:
 
                 const size_type new_size = rhs.size_;
                 move_assign_alloc(rhs.alloc_);
-                reserve(new_size, rhs_max_size);
+                reserve(new_size, std::min(rhs_max_size, std::allocator_traits<allocator_type>::max_size(alloc_)));
                 size_ = fast_forward_construct(data_, capacity_, rhs.data_, new_size, alloc_);
-                rhs.resize(0, rhs_max_size);
+                fast_destroy(rhs.data_, rhs.size_);
+                rhs.size_ = 0;
             }
         }
     }
@@ -1073,7 +1077,7 @@ public:
     VariableLengthArray(const VariableLengthArray& rhs, const allocator_type& alloc)
         : VariableLengthArray(rhs.max_size_max_, alloc)
     {
-        Base::reserve(rhs.size(), rhs.max_size());
+        reserve(rhs.size());
         size_ = Base::fast_copy_construct(data_, capacity_, rhs.data_, rhs.size_, alloc_);
     }
 
@@ -1932,7 +1936,7 @@ public:
     VariableLengthArray(const VariableLengthArray& rhs, const allocator_type& alloc)
         : VariableLengthArray(rhs.max_size_max_, alloc)
     {
-        reserve_bits(rhs.size(), rhs.max_size());
+        reserve_bits(rhs.size(), max_size());
         size_               = Base::fast_copy_construct(data_, capacity_, rhs.data_, rhs.size_, alloc_);
         last_byte_bit_fill_ = rhs.last_byte_bit_fill_;
     }
@@ -1945,7 +1949,7 @@ public:
 
     VariableLengthArray& operator=(const VariableLengthArray& rhs)
     {
-        Base::copy_assign_from(rhs, rhs.max_size());
+        Base::copy_assign_from(rhs, bits2bytes(rhs.max_size()));
         last_byte_bit_fill_ = rhs.last_byte_bit_fill_;
         return *this;
     }
@@ -1974,7 +1978,7 @@ public:
         std::allocator_traits<allocator_type>::is_always_equal::value)
     {
         last_byte_bit_fill_ = rhs.last_byte_bit_fill_;
-        Base::template move_assign_from<allocator_type>(std::move(rhs), rhs.max_size());
+        Base::template move_assign_from<allocator_type>(std::move(rhs), bits2bytes(rhs.max_size()));
         return *this;
     }
 
-- 
2.43.0


From a925c295a2f6f8db199485203dd2a321c72c0342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:24 +0000
Subject: [PATCH 05/47] fix: accept arguments that are elements of the same
 VariableLengthArray

push_back, emplace_back, resize and assign read their argument after its
storage had been released or overwritten.
---
 include/cetl/variable_length_array.hpp | 48 ++++++++++++++++++++++++--
 1 file changed, 46 insertions(+), 2 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index 5710d91..8f1eb47 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -13,6 +13,7 @@
 
 #include <algorithm>
 #include <cstring>
+#include <functional>
 #include <initializer_list>
 #include <limits>
 #include <memory>
@@ -1466,12 +1467,13 @@ public:
     ///
     constexpr void push_back(const value_type& value)
     {
+        const size_type index = index_of(value);
         if (!ensure_size_plus_one())
         {
             return;
         }
 
-        push_back_impl(value);
+        push_back_impl((index < size_) ? data_[index] : value);
     }
 
     ///
@@ -1485,12 +1487,13 @@ public:
     ///
     constexpr void push_back(value_type&& value)
     {
+        const size_type index = index_of(value);
         if (!ensure_size_plus_one())
         {
             return;
         }
 
-        push_back_impl(std::forward<value_type>(value));
+        push_back_impl(std::move((index < size_) ? data_[index] : value));
     }
 
     ///
@@ -1520,6 +1523,23 @@ public:
         size_++;
     }
 
+    /// As above for a single argument which may be one of the elements of this array.
+    template <class Arg>
+    std::enable_if_t<std::is_same<std::remove_const_t<std::remove_reference_t<Arg>>, value_type>::value> emplace_back(
+        Arg&& arg)
+    {
+        const size_type index = index_of(arg);
+        if (!ensure_size_plus_one())
+        {
+            return;
+        }
+
+        std::allocator_traits<allocator_type>::construct(alloc_,
+                                                         &data_[size_],
+                                                         static_cast<Arg&&>((index < size_) ? data_[index] : arg));
+        size_++;
+    }
+
     /// Resizes internal storage to count elements default initializing any added elements over the
     /// current size() and deleting any elements under the current size(). If size() == `count` then
     /// this method has no effect.
@@ -1546,6 +1566,14 @@ public:
     /// @throw std::bad_alloc if the container cannot obtain enough memory to size up to `count`.
     constexpr void resize(size_type count, const value_type& value)
     {
+        const size_type index = index_of(value);
+        if (index < size_ && count > capacity_)
+        {
+            // The value is going to move along with the other elements.
+            reserve(count);
+            Base::resize(count, max_size(), data_[index]);
+            return;
+        }
         Base::resize(count, max_size(), value);
     }
 
@@ -1557,6 +1585,13 @@ public:
     /// @throw std::bad_alloc if the container cannot obtain enough memory to size up to `count`.
     constexpr void assign(size_type count, const value_type& value)
     {
+        if (index_of(value) < size_)
+        {
+            // The value is going to be moved, destroyed or overwritten.
+            const value_type copy(value);
+            assign(count, copy);
+            return;
+        }
         const size_type size_before = size_;
         resize(count, value);
         const size_type back_fill_count = (size_ > size_before) ? size_before : size_;
@@ -1566,6 +1601,15 @@ public:
 private:
     // +----------------------------------------------------------------------+
 
+    /// return the position of an element of this array or size() if the value is not an element of this array.
+    constexpr size_type index_of(const value_type& value) const noexcept
+    {
+        const value_type* const ptr = std::addressof(value);
+        const std::less<const value_type*> less{};
+        return (size_ > 0 && !less(ptr, data_) && less(ptr, data_ + size_)) ? static_cast<size_type>(ptr - data_)
+                                                                            : size_;
+    }
+
     /// return true if there was or now is enough capacity to add one more element.
     constexpr bool ensure_size_plus_one()
     {
-- 
2.43.0


From dede9f5a37f66001fd12dbe91d07061876a9aa57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:24 +0000
Subject: [PATCH 06/47] fix: compare all bytes of VariableLengthArray<bool>

Equality skipped the last but one byte.
---
 include/cetl/variable_length_array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index 8f1eb47..92dc3e8 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -2049,7 +2049,7 @@ public:
         {
             return false;
         }
-        if (size_ > 1 && !std::equal(data_, data_ + size_ - 2, rhs.data_, rhs.data_ + rhs.size_ - 2))
+        if (size_ > 1 && !std::equal(data_, data_ + size_ - 1, rhs.data_, rhs.data_ + rhs.size_ - 1))
         {
             return false;
         }
-- 
2.43.0


From 8327101f9564b282de88338de2683ff0bf2b3df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:24 +0000
Subject: [PATCH 07/47] fix: keep the bit count of VariableLengthArray<bool> in
 step with its bytes

A moved-from array kept the bit count of its last byte. A failing copy or
move left the bit count of one array combined with the bytes of another.
---
 include/cetl/variable_length_array.hpp | 30 ++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index 92dc3e8..b1a8107 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -1981,8 +1981,8 @@ public:
         : VariableLengthArray(rhs.max_size_max_, alloc)
     {
         reserve_bits(rhs.size(), max_size());
-        size_               = Base::fast_copy_construct(data_, capacity_, rhs.data_, rhs.size_, alloc_);
-        last_byte_bit_fill_ = rhs.last_byte_bit_fill_;
+        size_ = Base::fast_copy_construct(data_, capacity_, rhs.data_, rhs.size_, alloc_);
+        adopt_bit_fill(rhs.size_, rhs.last_byte_bit_fill_);
     }
 
     VariableLengthArray(const VariableLengthArray& rhs)
@@ -1993,8 +1993,12 @@ public:
 
     VariableLengthArray& operator=(const VariableLengthArray& rhs)
     {
-        Base::copy_assign_from(rhs, bits2bytes(rhs.max_size()));
-        last_byte_bit_fill_ = rhs.last_byte_bit_fill_;
+        if (this != &rhs)
+        {
+            last_byte_bit_fill_ = 0;
+            Base::copy_assign_from(rhs, bits2bytes(rhs.max_size()));
+            adopt_bit_fill(rhs.size_, rhs.last_byte_bit_fill_);
+        }
         return *this;
     }
 
@@ -2021,8 +2025,15 @@ public:
         std::allocator_traits<allocator_type>::propagate_on_container_move_assignment::value ||
         std::allocator_traits<allocator_type>::is_always_equal::value)
     {
-        last_byte_bit_fill_ = rhs.last_byte_bit_fill_;
-        Base::template move_assign_from<allocator_type>(std::move(rhs), bits2bytes(rhs.max_size()));
+        if (this != &rhs)
+        {
+            const size_type rhs_size = rhs.size_;
+            const Storage   rhs_fill = rhs.last_byte_bit_fill_;
+            last_byte_bit_fill_      = 0;
+            Base::template move_assign_from<allocator_type>(std::move(rhs), bits2bytes(rhs.max_size()));
+            adopt_bit_fill(rhs_size, rhs_fill);
+            rhs.last_byte_bit_fill_ = 0;
+        }
         return *this;
     }
 
@@ -2486,6 +2497,13 @@ public:
     }
 
 private:
+    /// Sets the fill of the last byte after (possibly only some of) the bytes of another array were taken over.
+    constexpr void adopt_bit_fill(const size_type rhs_size, const Storage rhs_fill) noexcept
+    {
+        const Storage partial_fill = (size_ > 0) ? 7U : 0U;
+        last_byte_bit_fill_        = (size_ == rhs_size) ? rhs_fill : partial_fill;
+    }
+
     constexpr bool ensure_size_plus_one()
     {
         if (capacity_ > 0 && (last_byte_bit_fill_ < 7 || size_ < capacity_))
-- 
2.43.0


From 1c6c6e7e252ed5cc0170065922bfd56c44b1fe3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:24 +0000
Subject: [PATCH 08/47] fix: keep VariableLengthArray<bool> within its maximum
 size

An append at the maximum size grew the array if the last byte was full, and
the capacity was rounded up beyond the maximum size.
---
 include/cetl/variable_length_array.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index b1a8107..4ac8b9b 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -2506,15 +2506,19 @@ private:
 
     constexpr bool ensure_size_plus_one()
     {
+        if (size_bits() >= max_size())
+        {
+            return false;
+        }
         if (capacity_ > 0 && (last_byte_bit_fill_ < 7 || size_ < capacity_))
         {
             // we have at least one byte of capacity (first allocation)
             // and we have room in the last byte or we have room for another byte
             // but we haven't reached the max
-            return size_bits() < max_size();
+            return true;
         }
 
-        return Base::grow(max_size());
+        return Base::grow(bits2bytes(max_size()));
     }
 
     constexpr bool emplace_back_impl(bool value)
@@ -2584,7 +2588,8 @@ private:
 
     constexpr size_type capacity_bits() const noexcept
     {
-        return capacity_ * 8U;
+        // The last byte may have room for more bits than the maximum size allows.
+        return std::min(capacity_ * 8U, max_size());
     }
 
     constexpr static size_type numeric_limits_max_bits()
-- 
2.43.0


From 31dc1530c252fe8dd9417828020e5fc15ce3457e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:24 +0000
Subject: [PATCH 09/47] fix: do not write through null in
 VariableLengthArray<bool>

Without exceptions a resize wrote through a null pointer when it could not
get memory. Assigning nothing to an empty array passed null to memset.
---
 include/cetl/variable_length_array.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index 4ac8b9b..5ed0218 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -2440,10 +2440,17 @@ public:
         const std::size_t current_count = size_bits();
         if (clamped_count != current_count)
         {
-            const std::size_t byte_sized = bits2bytes(clamped_count);
+            std::size_t byte_sized = bits2bytes(clamped_count);
             if (byte_sized > capacity_)
             {
                 reserve_bits(clamped_count, max_size());
+#if !defined(__cpp_exceptions)
+                if (byte_sized > capacity_)
+                {
+                    clamped_count = capacity_bits();
+                    byte_sized    = bits2bytes(clamped_count);
+                }
+#endif
             }
             if (byte_sized == 0)
             {
@@ -2493,7 +2500,11 @@ public:
     {
         const size_type size_before = size_;
         resize(count, value);
-        (void) memset(data_, (value) ? 0xFF : 0, (size_ > size_before) ? size_before : size_);
+        const size_type back_fill_count = (size_ > size_before) ? size_before : size_;
+        if (back_fill_count > 0)
+        {
+            (void) memset(data_, (value) ? 0xFF : 0, back_fill_count);
+        }
     }
 
 private:
-- 
2.43.0


From 42c73792b7df1757b14c106173af60093020eaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:45 +0000
Subject: [PATCH 10/47] fix: copy, move and swap an unbounded_variant that lost
 its value

Copying or moving a variant that is valueless by exception called a null
function pointer. Swapping one leaked its memory or gave it to the
wrong memory resource.
---
 include/cetl/unbounded_variant.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/cetl/unbounded_variant.hpp b/include/cetl/unbounded_variant.hpp
index f36dc41..e389ddb 100644
--- a/include/cetl/unbounded_variant.hpp
+++ b/include/cetl/unbounded_variant.hpp
@@ -903,7 +903,8 @@ private:
     {
         CETL_DEBUG_ASSERT(!base::has_value(), "Expected to be empty before copying from source.");
 
-        if (base::copy_raw_storage_from(src))
+        // There is nothing to copy from a source which is valueless by exception.
+        if (base::copy_raw_storage_from(src) && src.has_value())
         {
             CETL_DEBUG_ASSERT(nullptr != src.value_copier_, "");
 
@@ -991,7 +992,8 @@ private:
     {
         CETL_DEBUG_ASSERT(!base::has_value(), "Expected to be empty before moving from source.");
 
-        if (base::move_raw_storage_from(src))
+        // There is nothing to move from a source which is valueless by exception.
+        if (base::move_raw_storage_from(src) && src.has_value())
         {
             CETL_DEBUG_ASSERT(nullptr != src.value_mover_, "");
 
@@ -1344,6 +1346,16 @@ public:
             return;
         }
 
+        // A storage which was left behind by a failure has nothing to swap.
+        if (valueless_by_exception())
+        {
+            reset();
+        }
+        if (rhs.valueless_by_exception())
+        {
+            rhs.reset();
+        }
+
         swapVariants(detail::IsPmr<Pmr>{}, IsMovableT{}, rhs);
     }
 
-- 
2.43.0


From 1fed3b021768dbce5cfb868a10562fcb731021ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:45 +0000
Subject: [PATCH 11/47] fix: release memory when construction of an
 unbounded_variant throws

A value whose constructor throws left the allocated storage behind because no
destructor ran for the variant.
---
 include/cetl/unbounded_variant.hpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/include/cetl/unbounded_variant.hpp b/include/cetl/unbounded_variant.hpp
index e389ddb..96ad106 100644
--- a/include/cetl/unbounded_variant.hpp
+++ b/include/cetl/unbounded_variant.hpp
@@ -865,7 +865,22 @@ struct base_copy<Pmr, Footprint, true /*Copyable*/, Moveable, Alignment>
     base_copy(const base_copy& other)
         : base{}
     {
+        // Releases the storage if the value cannot be copied - there will be no destructor call in this case.
+        struct reset_guard final
+        {
+            base* self;
+
+            ~reset_guard()
+            {
+                if (nullptr != self)
+                {
+                    self->reset();
+                }
+            }
+        } guard{this};
+
         copy_from(other);
+        guard.self = nullptr;
     }
 
     template <typename PmrAlias = Pmr, typename = EnableIfPmrT<PmrAlias>>
@@ -1135,7 +1150,7 @@ public:
         typename          = detail::EnableIfPmrT<PmrAlias>,
         typename = std::enable_if_t<!std::is_same<Tp, unbounded_variant>::value && !is_in_place_type<ValueType>::value>>
     unbounded_variant(Pmr* const mem_res, ValueType&& value)
-        : base{mem_res}
+        : unbounded_variant(mem_res)
     {
         create<Tp>(std::forward<ValueType>(value));
     }
@@ -1180,7 +1195,7 @@ public:
               typename PmrAlias = Pmr,
               typename          = detail::EnableIfPmrT<PmrAlias>>
     explicit unbounded_variant(Pmr* const mem_res, in_place_type_t<ValueType>, Args&&... args)
-        : base{mem_res}
+        : unbounded_variant(mem_res)
     {
         create<Tp>(std::forward<Args>(args)...);
     }
@@ -1232,7 +1247,7 @@ public:
                                in_place_type_t<ValueType>,
                                std::initializer_list<Up> list,
                                Args&&... args)
-        : base{mem_res}
+        : unbounded_variant(mem_res)
     {
         create<Tp>(list, std::forward<Args>(args)...);
     }
-- 
2.43.0


From b47eb0089bd4554bd2ec836f532599039631496c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:45 +0000
Subject: [PATCH 12/47] fix: allow assigning an unbounded_variant from its own
 value

The stored value was destroyed before it was copied.
---
 include/cetl/unbounded_variant.hpp | 41 ++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/include/cetl/unbounded_variant.hpp b/include/cetl/unbounded_variant.hpp
index 96ad106..b83f34e 100644
--- a/include/cetl/unbounded_variant.hpp
+++ b/include/cetl/unbounded_variant.hpp
@@ -14,7 +14,9 @@
 #include <algorithm>
 #include <cstddef>
 #include <exception>
+#include <functional>
 #include <initializer_list>
+#include <memory>
 #include <utility>
 
 namespace cetl
@@ -1302,8 +1304,7 @@ public:
               typename    = std::enable_if_t<!std::is_same<Tp, unbounded_variant>::value>>
     unbounded_variant& operator=(ValueType&& value)
     {
-        reset();
-        create<Tp>(std::forward<ValueType>(value));
+        assign<Tp>(std::is_constructible<Tp, Tp&&>{}, std::forward<ValueType>(value));
         return *this;
     }
 
@@ -1412,6 +1413,42 @@ private:
     static_assert(is_in_place_type<in_place_type_t<int>>::value, "self-test failure");
     static_assert(!is_in_place_type<int>::value, "self-test failure");
 
+    /// Checks whether the value is (a part of) the currently stored one.
+    template <typename ValueType>
+    bool is_stored_here(const ValueType& value) const noexcept
+    {
+        if (!has_value())
+        {
+            return false;
+        }
+        const void* const            ptr   = std::addressof(value);
+        const void* const            begin = base::get_raw_storage();
+        const void* const            end   = static_cast<const std::uint8_t*>(begin) + base::get_value_size();
+        const std::less<const void*> less{};
+        return !less(ptr, begin) && less(ptr, end);
+    }
+
+    template <typename Tp, typename ValueType>
+    void assign(std::true_type /*Movable value*/, ValueType&& value)
+    {
+        if (is_stored_here(value))
+        {
+            Tp tmp(std::forward<ValueType>(value));
+            reset();
+            create<Tp>(std::move(tmp));
+            return;
+        }
+        reset();
+        create<Tp>(std::forward<ValueType>(value));
+    }
+
+    template <typename Tp, typename ValueType>
+    void assign(std::false_type /*Movable value*/, ValueType&& value)
+    {
+        reset();
+        create<Tp>(std::forward<ValueType>(value));
+    }
+
     template <typename Tp, typename... Args>
     Tp* create(Args&&... args)
     {
-- 
2.43.0


From c88c3b751bfd73c0dac3c413c90a3944f8cdf575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:07 +0000
Subject: [PATCH 13/47] fix: do not keep a stale callable after a failed
 function assignment

If copying the callable or getting memory for it failed, cetl::pmr::function
still pointed to the destroyed callable.
---
 include/cetl/pmr/function.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/cetl/pmr/function.hpp b/include/cetl/pmr/function.hpp
index 2b99bc3..bd8cfa5 100644
--- a/include/cetl/pmr/function.hpp
+++ b/include/cetl/pmr/function.hpp
@@ -201,7 +201,10 @@ public:
               typename              = EnableIfLvIsCallable<FunctorDecay>>
     function& operator=(Functor&& functor)
     {
-        any_handler_ = detail::functor_handler<FunctorDecay, Result, Args...>{std::forward<Functor>(functor)};
+        detail::functor_handler<FunctorDecay, Result, Args...> handler{std::forward<Functor>(functor)};
+
+        handler_ptr_ = nullptr;
+        any_handler_ = std::move(handler);
         handler_ptr_ = get_if<handler_t>(&any_handler_);
         return *this;
     }
@@ -214,6 +217,7 @@ public:
     {
         if (this != &other)
         {
+            handler_ptr_ = nullptr;
             any_handler_ = other.any_handler_;
             handler_ptr_ = get_if<handler_t>(&any_handler_);
         }
-- 
2.43.0


From f3618471bb8a635c9f14e2ab40f2cfbaf1bc4e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:07 +0000
Subject: [PATCH 14/47] fix: keep the memory resource of a deleter assigned to
 itself

Moving a std::unique_ptr with a MemoryResourceDeleter to itself made the
deleter forget its memory resource.
---
 include/cetl/pmr/memory.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cetl/pmr/memory.hpp b/include/cetl/pmr/memory.hpp
index be4e333..0356a5e 100644
--- a/include/cetl/pmr/memory.hpp
+++ b/include/cetl/pmr/memory.hpp
@@ -69,7 +69,10 @@ public:
     /// @return Reference to this.
     MemoryResourceDeleter& operator=(MemoryResourceDeleter&& rhs) noexcept
     {
-        swap(std::move(rhs));
+        if (this != &rhs)
+        {
+            swap(std::move(rhs));
+        }
         return *this;
     }
 
-- 
2.43.0


From 87b34a139e44327de2862b2358a3bb2baae01265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:07 +0000
Subject: [PATCH 15/47] fix: do not destroy an object whose constructor threw
 in Factory::make_unique

The smart pointer owned the memory before the object was constructed, so an
exception ran the destructor of an object that never existed.
---
 include/cetl/pmr/memory.hpp | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/include/cetl/pmr/memory.hpp b/include/cetl/pmr/memory.hpp
index 0356a5e..940615e 100644
--- a/include/cetl/pmr/memory.hpp
+++ b/include/cetl/pmr/memory.hpp
@@ -238,13 +238,29 @@ public:
     static auto make_unique(PolymorphicAllocatorTypeU& alloc, Args&&... args) ->
         typename Factory::unique_ptr_t<PolymorphicAllocatorTypeU>
     {
-        typename Factory::unique_ptr_t<PolymorphicAllocatorTypeU>
-            p{alloc.allocate(1), typename Factory::unique_ptr_t<PolymorphicAllocatorTypeU>::deleter_type{alloc, 1}};
-        if (nullptr != p)
+        // Deallocates the memory, without destroying the object, if the object cannot be constructed.
+        struct Guard final
+        {
+            PolymorphicAllocatorTypeU&                      alloc;
+            typename PolymorphicAllocatorTypeU::value_type* ptr;
+
+            ~Guard()
+            {
+                if (nullptr != ptr)
+                {
+                    alloc.deallocate(ptr, 1);
+                }
+            }
+        } guard{alloc, alloc.allocate(1)};
+
+        auto* const ptr = guard.ptr;
+        if (nullptr != ptr)
         {
-            alloc.construct(p.get(), std::forward<Args>(args)...);
+            alloc.construct(ptr, std::forward<Args>(args)...);
+            guard.ptr = nullptr;
         }
-        return p;
+        return typename Factory::unique_ptr_t<PolymorphicAllocatorTypeU>{
+            ptr, typename Factory::unique_ptr_t<PolymorphicAllocatorTypeU>::deleter_type{alloc, 1}};
     }
 };
 
-- 
2.43.0


From 85c106f29de06836bcae2216c409e44ba2e5788f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:07 +0000
Subject: [PATCH 16/47] fix: keep the buffer in use when a buffer resource
 cannot reallocate it

A failed reallocation marked the buffer as free although its block was still
live. A reallocation to another alignment moved the block without its
contents.
---
 .../pmr/buffer_memory_resource_delegate.hpp    | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/cetl/pmr/buffer_memory_resource_delegate.hpp b/include/cetl/pmr/buffer_memory_resource_delegate.hpp
index 652f2db..8c8ea12 100644
--- a/include/cetl/pmr/buffer_memory_resource_delegate.hpp
+++ b/include/cetl/pmr/buffer_memory_resource_delegate.hpp
@@ -110,8 +110,7 @@ private:
         void* result = nullptr;
         if (data == in_use_)
         {
-            result  = allocate_internal_buffer(new_object_count, new_align);
-            in_use_ = result;
+            result = reallocate_internal_buffer(new_object_count, new_align);
         }
         return result;
     }
@@ -128,8 +127,7 @@ private:
         void* result = nullptr;
         if (data == in_use_)
         {
-            result  = allocate_internal_buffer(new_object_count, new_align);
-            in_use_ = result;
+            result = reallocate_internal_buffer(new_object_count, new_align);
         }
         else
         {
@@ -252,6 +250,18 @@ private:
         return result;
     }
 
+    constexpr void* reallocate_internal_buffer(std::size_t size_bytes, std::size_t alignment)
+    {
+        void* const result = allocate_internal_buffer(size_bytes, alignment);
+        if (nullptr != in_use_ && result != in_use_)
+        {
+            // The existing block stays valid and in use if it cannot be resized where it is.
+            return nullptr;
+        }
+        in_use_ = result;
+        return result;
+    }
+
     UpstreamMemoryResourceType* upstream_;
     void*                       buffer_;
     const std::size_t           buffer_size_bytes_;
-- 
2.43.0


From 1ff57a5266f909ec8835ff3810ca04d81705db96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:07 +0000
Subject: [PATCH 17/47] fix: let exceptions of memory_resource::reallocate
 reach the caller

memory_resource_traits called it from a noexcept function.
---
 include/cetl/pf17/memory_resource.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cetl/pf17/memory_resource.hpp b/include/cetl/pf17/memory_resource.hpp
index e718ba2..2469c7c 100644
--- a/include/cetl/pf17/memory_resource.hpp
+++ b/include/cetl/pf17/memory_resource.hpp
@@ -276,7 +276,7 @@ private:
                     void*       ptr,
                     std::size_t old_size_bytes,
                     std::size_t new_size_bytes,
-                    std::size_t alignment) noexcept
+                    std::size_t alignment)
     {
         return mr.reallocate(ptr, old_size_bytes, new_size_bytes, alignment);
     }
-- 
2.43.0


From 8efe8b08ce8e4c473d97b5bce456ceeccab6e56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:07 +0000
Subject: [PATCH 18/47] fix: construct pairs of different types from a moved
 pair

The overload only accepted pairs of one and the same type and could not be
deduced, so the elements were copied instead of moved.
---
 include/cetl/pf17/memory_resource.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cetl/pf17/memory_resource.hpp b/include/cetl/pf17/memory_resource.hpp
index 2469c7c..71322bd 100644
--- a/include/cetl/pf17/memory_resource.hpp
+++ b/include/cetl/pf17/memory_resource.hpp
@@ -569,7 +569,7 @@ public:
     }
 
     template <class FirstType, class SecondType, class MoveFromFirstType, class MoveFromSecondType>
-    void construct(std::pair<FirstType, FirstType>* p, std::pair<MoveFromFirstType, MoveFromSecondType>&& moveFrom)
+    void construct(std::pair<FirstType, SecondType>* p, std::pair<MoveFromFirstType, MoveFromSecondType>&& moveFrom)
     {
         construct(p,
                   std::piecewise_construct,
-- 
2.43.0


From ab19640215b3c0f4b712bae0c358c720f8b84519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:07 +0000
Subject: [PATCH 19/47] fix: align and bound the buffers of
 basic_monotonic_buffer_resource

Buffers were requested with the alignment of the first block in them, which
may be too small for the control structure. A request that exceeds the
maximum size kept allocating buffers forever.
---
 include/cetl/pf17/memory_resource.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/cetl/pf17/memory_resource.hpp b/include/cetl/pf17/memory_resource.hpp
index 71322bd..b37d9cc 100644
--- a/include/cetl/pf17/memory_resource.hpp
+++ b/include/cetl/pf17/memory_resource.hpp
@@ -685,6 +685,9 @@ protected:
 
         while (nullptr == result)
         {
+            // The control structure is placed in front of the buffer.
+            const std::size_t buffer_align = std::max(alignment, alignof(BufferControl));
+
             // Grow the buffer starting with, at minimum 4 bytes, the current buffer size, or the requested size
             // plus alignment, whichever is larger.
             const std::size_t grow_from_size =
@@ -693,7 +696,17 @@ protected:
             // Simple geometric progression of buffer size growth.
             const std::size_t next_buffer_size = std::min(max_size_v, grow_from_size + (grow_from_size / 2U));
 
-            void* raw = upstream_->allocate(sizeof(BufferControl) + next_buffer_size, alignment);
+            if (size_bytes > (std::numeric_limits<std::size_t>::max() / 4U) ||
+                next_buffer_size < (size_bytes + alignment))
+            {
+                // This request cannot be satisfied by any buffer we could get.
+#if defined(__cpp_exceptions)
+                throw std::bad_alloc();
+#endif
+                break;
+            }
+
+            void* raw = upstream_->allocate(sizeof(BufferControl) + next_buffer_size, buffer_align);
             if (nullptr == raw)
             {
                 // out-of-memory with no exceptions.
@@ -701,7 +714,7 @@ protected:
             }
             void* buffer = &static_cast<BufferControl*>(raw)[1];
             current_buffer_ =
-                new (raw) BufferControl{buffer, next_buffer_size, alignment, next_buffer_size, current_buffer_};
+                new (raw) BufferControl{buffer, next_buffer_size, buffer_align, next_buffer_size, current_buffer_};
 
             result = do_allocate_from_current_buffer(size_bytes, alignment);
         }
-- 
2.43.0


From a517b63d168e9e02ee46e3cf4d3628c4b77c53cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:07 +0000
Subject: [PATCH 20/47] fix: report failures of MaxAlignNewDeleteResource

Running out of memory returned null instead of throwing std::bad_alloc.
Reallocation ignored alignments that it cannot honour, and reallocation
to nothing released the block while reporting failure.
---
 include/cetl/pf17/sys/memory_resource.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/cetl/pf17/sys/memory_resource.hpp b/include/cetl/pf17/sys/memory_resource.hpp
index 4193a0a..025b09d 100644
--- a/include/cetl/pf17/sys/memory_resource.hpp
+++ b/include/cetl/pf17/sys/memory_resource.hpp
@@ -44,7 +44,14 @@ protected:
 #endif
             return nullptr;
         }
-        return std::malloc(size_bytes);
+        void* const result = std::malloc(size_bytes);
+#if defined(__cpp_exceptions)
+        if (nullptr == result)
+        {
+            throw std::bad_alloc();
+        }
+#endif
+        return result;
     }
 
     void do_deallocate(void* p, std::size_t size_bytes, std::size_t alignment) override
@@ -60,7 +67,10 @@ protected:
                         std::size_t alignment) override
     {
         (void) old_size_bytes;
-        (void) alignment;
+        if (alignment > alignof(std::max_align_t) || 0 == new_size_bytes)
+        {
+            return nullptr;
+        }
         return std::realloc(ptr, new_size_bytes);
     }
 
-- 
2.43.0


From 7de0699ccdf4915bded9bfd144814c35c13ed044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:06 +0000
Subject: [PATCH 21/47] fix: let optional propagate exceptions from copying and
 moving the value

The defaulted special members were unconditionally noexcept, so a throwing
value constructor or assignment ended the program.
---
 include/cetl/pf17/optional.hpp | 36 +++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/include/cetl/pf17/optional.hpp b/include/cetl/pf17/optional.hpp
index 19b2e94..368fe21 100644
--- a/include/cetl/pf17/optional.hpp
+++ b/include/cetl/pf17/optional.hpp
@@ -172,10 +172,10 @@ struct base_copy_construction<T, false> : base_destruction<T>
         : base_destruction<T>(copy_tag{}, other)
     {
     }
-    constexpr base_copy_construction(base_copy_construction&&) noexcept                 = default;
-    constexpr base_copy_construction& operator=(const base_copy_construction&) noexcept = default;
-    constexpr base_copy_construction& operator=(base_copy_construction&&) noexcept      = default;
-    ~base_copy_construction() noexcept                                                  = default;
+    constexpr base_copy_construction(base_copy_construction&&)                 = default;
+    constexpr base_copy_construction& operator=(const base_copy_construction&) = default;
+    constexpr base_copy_construction& operator=(base_copy_construction&&)      = default;
+    ~base_copy_construction() noexcept                                         = default;
 };
 
 /// MOVE CONSTRUCTION POLICY
@@ -192,16 +192,16 @@ template <typename T>
 struct base_move_construction<T, false> : base_copy_construction<T>
 {
     using base_copy_construction<T>::base_copy_construction;
-    constexpr base_move_construction() noexcept                              = default;
-    constexpr base_move_construction(const base_move_construction&) noexcept = default;
+    constexpr base_move_construction() noexcept                     = default;
+    constexpr base_move_construction(const base_move_construction&) = default;
     constexpr base_move_construction(base_move_construction&& other) noexcept(
         std::is_nothrow_move_constructible<T>::value)
         : base_copy_construction<T>(copy_tag{}, std::move(other))
     {
     }
-    constexpr base_move_construction& operator=(const base_move_construction&) noexcept = default;
-    constexpr base_move_construction& operator=(base_move_construction&&) noexcept      = default;
-    ~base_move_construction() noexcept                                                  = default;
+    constexpr base_move_construction& operator=(const base_move_construction&) = default;
+    constexpr base_move_construction& operator=(base_move_construction&&)      = default;
+    ~base_move_construction() noexcept                                         = default;
 };
 
 /// COPY ASSIGNMENT POLICY
@@ -221,9 +221,9 @@ template <typename T>
 struct base_copy_assignment<T, false> : base_move_construction<T>
 {
     using base_move_construction<T>::base_move_construction;
-    constexpr base_copy_assignment() noexcept                            = default;
-    constexpr base_copy_assignment(const base_copy_assignment&) noexcept = default;
-    constexpr base_copy_assignment(base_copy_assignment&&) noexcept      = default;
+    constexpr base_copy_assignment() noexcept                   = default;
+    constexpr base_copy_assignment(const base_copy_assignment&) = default;
+    constexpr base_copy_assignment(base_copy_assignment&&)      = default;
     constexpr base_copy_assignment& operator=(const base_copy_assignment& other) noexcept(
         std::is_nothrow_copy_assignable<T>::value && std::is_nothrow_copy_constructible<T>::value)
     {
@@ -242,8 +242,8 @@ struct base_copy_assignment<T, false> : base_move_construction<T>
         }
         return *this;
     }
-    constexpr base_copy_assignment& operator=(base_copy_assignment&&) noexcept = default;
-    ~base_copy_assignment() noexcept                                           = default;
+    constexpr base_copy_assignment& operator=(base_copy_assignment&&) = default;
+    ~base_copy_assignment() noexcept                                  = default;
 };
 
 /// MOVE ASSIGNMENT POLICY
@@ -263,10 +263,10 @@ template <typename T>
 struct base_move_assignment<T, false> : base_copy_assignment<T>
 {
     using base_copy_assignment<T>::base_copy_assignment;
-    constexpr base_move_assignment() noexcept                                       = default;
-    constexpr base_move_assignment(const base_move_assignment&) noexcept            = default;
-    constexpr base_move_assignment(base_move_assignment&&) noexcept                 = default;
-    constexpr base_move_assignment& operator=(const base_move_assignment&) noexcept = default;
+    constexpr base_move_assignment() noexcept                              = default;
+    constexpr base_move_assignment(const base_move_assignment&)            = default;
+    constexpr base_move_assignment(base_move_assignment&&)                 = default;
+    constexpr base_move_assignment& operator=(const base_move_assignment&) = default;
     constexpr base_move_assignment& operator=(base_move_assignment&& other) noexcept(
         std::is_nothrow_move_assignable<T>::value && std::is_nothrow_move_constructible<T>::value)
     {
-- 
2.43.0


From 99e39076ea1ea0655e18b7b9045549ee162eae31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:06 +0000
Subject: [PATCH 22/47] fix: compare optionals with the matching operator of
 the value type

Each relation now uses the value's own operator with the operands in the
written order instead of deriving it from == and <.
---
 include/cetl/pf17/optional.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/cetl/pf17/optional.hpp b/include/cetl/pf17/optional.hpp
index 368fe21..8519ea9 100644
--- a/include/cetl/pf17/optional.hpp
+++ b/include/cetl/pf17/optional.hpp
@@ -676,7 +676,7 @@ constexpr detail::opt::enable_comparison<decltype(std::declval<const T&>() != st
     const optional<T>& lhs,
     const optional<U>& rhs)
 {
-    return !(lhs == rhs);
+    return (lhs.has_value() != rhs.has_value()) || (lhs.has_value() && ((*lhs) != (*rhs)));
 }
 template <typename T, typename U>
 constexpr detail::opt::enable_comparison<decltype(std::declval<const T&>() < std::declval<const U&>())> operator<(
@@ -690,21 +690,21 @@ constexpr detail::opt::enable_comparison<decltype(std::declval<const T&>() <= st
     const optional<T>& lhs,
     const optional<U>& rhs)
 {
-    return !(rhs < lhs);
+    return (!lhs.has_value()) || (rhs.has_value() && ((*lhs) <= (*rhs)));
 }
 template <typename T, typename U>
 constexpr detail::opt::enable_comparison<decltype(std::declval<const T&>() > std::declval<const U&>())> operator>(
     const optional<T>& lhs,
     const optional<U>& rhs)
 {
-    return rhs < lhs;
+    return lhs.has_value() && ((!rhs.has_value()) || ((*lhs) > (*rhs)));
 }
 template <typename T, typename U>
 constexpr detail::opt::enable_comparison<decltype(std::declval<const T&>() >= std::declval<const U&>())> operator>=(
     const optional<T>& lhs,
     const optional<U>& rhs)
 {
-    return !(lhs < rhs);
+    return (!rhs.has_value()) || (lhs.has_value() && ((*lhs) >= (*rhs)));
 }
 /// @}
 
@@ -803,7 +803,7 @@ constexpr detail::opt::enable_comparison<decltype(std::declval<const T&>() != st
     const T&           value,
     const optional<U>& opt)
 {
-    return (!opt.has_value()) || ((*opt) != value);
+    return (!opt.has_value()) || (value != (*opt));
 }
 template <typename T, typename U>
 constexpr detail::opt::enable_comparison<decltype(std::declval<const T&>() < std::declval<const U&>())> operator<(
-- 
2.43.0


From d43d936964e336fb42bf27748f0a353dd2e11566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:50 +0000
Subject: [PATCH 23/47] fix: compare variants with the matching operator of the
 alternative

Each relation now uses the alternative's own operator where it has one instead
of deriving it from == and <, which is wrong for partially ordered values.
---
 include/cetl/pf17/variant.hpp | 108 ++++++++++++++++++++++++++++++++--
 1 file changed, 104 insertions(+), 4 deletions(-)

diff --git a/include/cetl/pf17/variant.hpp b/include/cetl/pf17/variant.hpp
index 3357e0f..3b74418 100644
--- a/include/cetl/pf17/variant.hpp
+++ b/include/cetl/pf17/variant.hpp
@@ -742,6 +742,50 @@ static_assert(best_converting_assignment_index_v<double, long, float, double, bo
 
 // --------------------------------------------------------------------------------------------------------------------
 
+/// Comparisons of alternatives; if the alternative does not provide the operator, it is derived from == or <.
+template <typename T>
+constexpr auto not_equal(const T& lhs, const T& rhs, int) -> decltype(static_cast<bool>(lhs != rhs))
+{
+    return static_cast<bool>(lhs != rhs);
+}
+template <typename T>
+constexpr bool not_equal(const T& lhs, const T& rhs, long)
+{
+    return !(lhs == rhs);
+}
+template <typename T>
+constexpr auto greater(const T& lhs, const T& rhs, int) -> decltype(static_cast<bool>(lhs > rhs))
+{
+    return static_cast<bool>(lhs > rhs);
+}
+template <typename T>
+constexpr bool greater(const T& lhs, const T& rhs, long)
+{
+    return static_cast<bool>(rhs < lhs);
+}
+template <typename T>
+constexpr auto less_equal(const T& lhs, const T& rhs, int) -> decltype(static_cast<bool>(lhs <= rhs))
+{
+    return static_cast<bool>(lhs <= rhs);
+}
+template <typename T>
+constexpr bool less_equal(const T& lhs, const T& rhs, long)
+{
+    return !(rhs < lhs);
+}
+template <typename T>
+constexpr auto greater_equal(const T& lhs, const T& rhs, int) -> decltype(static_cast<bool>(lhs >= rhs))
+{
+    return static_cast<bool>(lhs >= rhs);
+}
+template <typename T>
+constexpr bool greater_equal(const T& lhs, const T& rhs, long)
+{
+    return !(lhs < rhs);
+}
+
+// --------------------------------------------------------------------------------------------------------------------
+
 template <typename F>
 constexpr decltype(auto) visit(F&& fun)  // For some reason the standard requires this silly overload.
 {
@@ -1202,7 +1246,18 @@ constexpr bool operator==(const variant<Ts...>& lhs, const variant<Ts...>& rhs)
 template <typename... Ts>
 constexpr bool operator!=(const variant<Ts...>& lhs, const variant<Ts...>& rhs)
 {
-    return !(lhs == rhs);
+    if (lhs.index() != rhs.index())
+    {
+        return true;
+    }
+    if (lhs.valueless_by_exception())
+    {
+        return false;
+    }
+    return detail::var::chronomorphize<sizeof...(
+        Ts)>([&lhs,
+              &rhs](const auto index) { return detail::var::not_equal(get<index.value>(lhs), get<index.value>(rhs), 0); },
+             lhs.index());
 }
 template <typename... Ts>
 constexpr bool operator<(const variant<Ts...>& lhs, const variant<Ts...>& rhs)
@@ -1231,17 +1286,62 @@ constexpr bool operator<(const variant<Ts...>& lhs, const variant<Ts...>& rhs)
 template <typename... Ts>
 constexpr bool operator>(const variant<Ts...>& lhs, const variant<Ts...>& rhs)
 {
-    return rhs < lhs;
+    if (lhs.valueless_by_exception())
+    {
+        return false;
+    }
+    if (rhs.valueless_by_exception())
+    {
+        return true;
+    }
+    if (lhs.index() != rhs.index())
+    {
+        return lhs.index() > rhs.index();
+    }
+    return detail::var::chronomorphize<sizeof...(
+        Ts)>([&lhs,
+              &rhs](const auto index) { return detail::var::greater(get<index.value>(lhs), get<index.value>(rhs), 0); },
+             lhs.index());
 }
 template <typename... Ts>
 constexpr bool operator<=(const variant<Ts...>& lhs, const variant<Ts...>& rhs)
 {
-    return !(rhs < lhs);
+    if (lhs.valueless_by_exception())
+    {
+        return true;
+    }
+    if (rhs.valueless_by_exception())
+    {
+        return false;
+    }
+    if (lhs.index() != rhs.index())
+    {
+        return lhs.index() < rhs.index();
+    }
+    return detail::var::chronomorphize<sizeof...(
+        Ts)>([&lhs,
+              &rhs](const auto index) { return detail::var::less_equal(get<index.value>(lhs), get<index.value>(rhs), 0); },
+             lhs.index());
 }
 template <typename... Ts>
 constexpr bool operator>=(const variant<Ts...>& lhs, const variant<Ts...>& rhs)
 {
-    return !(lhs < rhs);
+    if (rhs.valueless_by_exception())
+    {
+        return true;
+    }
+    if (lhs.valueless_by_exception())
+    {
+        return false;
+    }
+    if (lhs.index() != rhs.index())
+    {
+        return lhs.index() > rhs.index();
+    }
+    return detail::var::chronomorphize<sizeof...(
+        Ts)>([&lhs,
+              &rhs](const auto index) { return detail::var::greater_equal(get<index.value>(lhs), get<index.value>(rhs), 0); },
+             lhs.index());
 }
 
 }  // namespace pf17
-- 
2.43.0


From 9bd122b6f90339d2d664b24fb7bd82146bf545b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:06 +0000
Subject: [PATCH 24/47] fix: make string_view find honour the character traits
 and empty needles

Searching for an empty view at the end of the text found nothing, and
characters were compared with == instead of the traits.
---
 include/cetl/pf17/string_view.hpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/include/cetl/pf17/string_view.hpp b/include/cetl/pf17/string_view.hpp
index ce2ca61..80fca99 100644
--- a/include/cetl/pf17/string_view.hpp
+++ b/include/cetl/pf17/string_view.hpp
@@ -316,12 +316,14 @@ public:
     ///
     constexpr size_type find(const CharT ch, const size_type pos = 0) const noexcept
     {
-        if (pos >= size_)
+        for (size_type i = pos; i < size_; i++)
         {
-            return npos;
+            if (traits_type::eq(data_[i], ch))
+            {
+                return i;
+            }
         }
-        const const_iterator result = std::find(data_ + pos, data_ + size_, ch);
-        return result != data_ + size_ ? static_cast<size_type>(result - data_) : npos;
+        return npos;
     }
 
     /// Finds the first substring equal to the given character sequence.
@@ -332,8 +334,19 @@ public:
         {
             return npos;
         }
-        const const_iterator result = std::search(data_ + pos, data_ + size_, sv.data_, sv.data_ + sv.size_);
-        return result != data_ + size_ ? static_cast<size_type>(result - data_) : npos;
+        for (size_type i = pos; i <= size_ - sv.size_; i++)
+        {
+            size_type matched = 0;
+            while ((matched < sv.size_) && traits_type::eq(data_[i + matched], sv.data_[matched]))
+            {
+                matched++;
+            }
+            if (matched == sv.size_)
+            {
+                return i;
+            }
+        }
+        return npos;
     }
 
     /// Performs stream output on string view.
-- 
2.43.0


From 5bdaa677963cf56726470c5d60323bfe93b2606f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:06 +0000
Subject: [PATCH 25/47] fix: pad a streamed string_view when no alignment flag
 is set

The field width was ignored unless left or right was set explicitly.
---
 include/cetl/pf17/string_view.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/cetl/pf17/string_view.hpp b/include/cetl/pf17/string_view.hpp
index 80fca99..e560d8c 100644
--- a/include/cetl/pf17/string_view.hpp
+++ b/include/cetl/pf17/string_view.hpp
@@ -371,10 +371,10 @@ public:
                 };
 
                 const std::streamsize padding_len = width - sv_length;
-                const bool            left        = os.flags() & std::basic_ios<CharT, Traits>::left;
-                const bool            right       = os.flags() & std::basic_ios<CharT, Traits>::right;
+                const bool            left =
+                    (os.flags() & std::basic_ios<CharT, Traits>::adjustfield) == std::basic_ios<CharT, Traits>::left;
 
-                if (right)
+                if (!left)
                 {
                     pad(padding_len);
                 }
-- 
2.43.0


From 23582f83a9f80ebdff9fc0e15a3e131113d7e476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:06 +0000
Subject: [PATCH 26/47] fix: accept swap functions that return a value in
 is_swappable

---
 include/cetl/pf17/type_traits.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cetl/pf17/type_traits.hpp b/include/cetl/pf17/type_traits.hpp
index 8836be0..569db26 100644
--- a/include/cetl/pf17/type_traits.hpp
+++ b/include/cetl/pf17/type_traits.hpp
@@ -28,7 +28,7 @@ template <typename T, typename = void>
 struct is_swappable : std::false_type
 {};
 template <typename T>
-struct is_swappable<T, decltype(swap(std::declval<T&>(), std::declval<T&>()))> : std::true_type
+struct is_swappable<T, decltype(static_cast<void>(swap(std::declval<T&>(), std::declval<T&>())))> : std::true_type
 {};
 
 template <typename T, bool = is_swappable<T>::value>
-- 
2.43.0


From bf8061163df01f018547e1b3b212f2511dba8faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:54 +0000
Subject: [PATCH 27/47] fix: let visit return references from the visitor

The result was decayed to a copy even when every alternative's result had the
same reference type.
---
 include/cetl/pf17/variant.hpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/cetl/pf17/variant.hpp b/include/cetl/pf17/variant.hpp
index 3b74418..e27c014 100644
--- a/include/cetl/pf17/variant.hpp
+++ b/include/cetl/pf17/variant.hpp
@@ -66,6 +66,15 @@ using req = std::enable_if_t<C, int>;
 
 // --------------------------------------------------------------------------------------------------------------------
 
+/// The type shared by all Rs exactly as is (including references); otherwise, their common type.
+template <typename R, typename... Rs>
+struct common_result : std::conditional_t<conjunction_v<std::is_same<R, Rs>...>,
+                                          std::tuple_element<0, std::tuple<R>>,
+                                          std::common_type<R, Rs...>>
+{};
+template <typename... Rs>
+using common_result_t = typename common_result<Rs...>::type;
+
 template <typename>
 struct chronomorphize_impl;
 template <std::size_t... Is>
@@ -78,8 +87,8 @@ struct chronomorphize_impl<std::index_sequence<Is...>>
         static decltype(auto)
         lookup(F&& fun, const std::size_t index, Args&&... ar)
     {
-        using R = std::common_type_t<decltype(std::forward<F>(fun)(std::integral_constant<std::size_t, Is>{},
-                                                                   std::forward<Args>(ar)...))...>;
+        using R = common_result_t<decltype(std::forward<F>(fun)(std::integral_constant<std::size_t, Is>{},
+                                                                std::forward<Args>(ar)...))...>;
 #if __cplusplus >= 201703L
         constexpr
 #else
@@ -796,7 +805,7 @@ constexpr decltype(auto) visit(F&& fun, V&& var)
 {
     // https://twitter.com/PavelKirienko/status/1761525562370040002
     return chronomorphize(
-        [&fun, &var](const auto index) {
+        [&fun, &var](const auto index) -> decltype(auto) {
             return std::forward<F>(fun)(alt<index.value>(std::forward<V>(var)));  //
         },
         var);
@@ -809,9 +818,9 @@ constexpr decltype(auto) visit(F&& fun, V0&& var0, Vs&&... vars)
     // per variant. The recursive structure below builds a Cartesian product of the variant combinations
     // one level at a time starting with the leftmost variant. The complexity is one table jump per variant level.
     return visit(
-        [&](auto&& hh) {  // https://twitter.com/PavelKirienko/status/1761525562370040002
+        [&](auto&& hh) -> decltype(auto) {  // https://twitter.com/PavelKirienko/status/1761525562370040002
             return visit(
-                [&](auto&&... tt) {
+                [&](auto&&... tt) -> decltype(auto) {
                     return std::forward<F>(fun)(std::forward<decltype(hh)>(hh), std::forward<decltype(tt)>(tt)...);
                 },
                 std::forward<Vs>(vars)...);
-- 
2.43.0


From 818087059be144df7a9c5168dd40c5ec9247141a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:47 +0000
Subject: [PATCH 28/47] fix: resize the only block of an allocator in place

Elements that are not trivially copyable are moved to a new block when the
array grows. If there is no memory for a second block the allocator is now
asked to resize the current one, as before.
---
 include/cetl/variable_length_array.hpp | 72 +++++++++++++++++---------
 1 file changed, 48 insertions(+), 24 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index 5ed0218..7ef6597 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -171,22 +171,15 @@ protected:
     using reallocate_operation =
         decltype(std::declval<U>().reallocate(std::declval<value_type*>(), std::size_t(), std::size_t()));
 
-    // Reallocation moves the bytes of the elements so it must not be used for types that don't support this.
     template <typename UAllocator>
-    struct can_reallocate : std::integral_constant<bool,
-                                                   is_detected<reallocate_operation, UAllocator>::value &&
-                                                       std::is_trivially_copyable<value_type>::value>
-    {};
-
-    template <typename UAllocator>
-    static constexpr typename std::enable_if_t<can_reallocate<UAllocator>::value, value_type>*
+    static constexpr typename std::enable_if_t<is_detected<reallocate_operation, UAllocator>::value, value_type>*
     reallocate(value_type* data, UAllocator& alloc, std::size_t old_object_count, std::size_t new_object_count)
     {
         return alloc.reallocate(data, old_object_count, new_object_count);
     }
 
     template <typename UAllocator>
-    static constexpr typename std::enable_if_t<!can_reallocate<UAllocator>::value, value_type>*
+    static constexpr typename std::enable_if_t<!is_detected<reallocate_operation, UAllocator>::value, value_type>*
     reallocate(value_type* data, UAllocator& alloc, std::size_t old_object_count, std::size_t new_object_count)
     {
         (void) data;
@@ -676,18 +669,12 @@ protected:
 
         const size_type no_shrink_capacity = std::max(clamped_capacity, size_);
 
-        value_type* new_data = reallocate(data_, alloc_, capacity_, no_shrink_capacity);
-
-        if (new_data != nullptr)
-        {
-            data_     = new_data;
-            capacity_ = no_shrink_capacity;
-        }
-        else
+        // Reallocation moves the bytes of the elements so it is not the first choice for types that don't support this.
+        if (!std::is_trivially_copyable<value_type>::value || !reallocate_block(no_shrink_capacity))
         {
             // The allocator was unable to extend the reserved area for the same memory pointer.
             // We need to allocate a new block of memory and copy the old data into it.
-            new_data = std::allocator_traits<allocator_type>::allocate(alloc_, no_shrink_capacity);
+            value_type* const new_data = allocate_or_reallocate_block(no_shrink_capacity);
             if (nullptr != new_data)
             {
                 allocate_guard guard{alloc_, new_data, no_shrink_capacity};
@@ -757,18 +744,14 @@ protected:
             return;
         }
 
-        value_type* new_data = reallocate(data_, alloc_, capacity_, size_);
-
-        if (nullptr != new_data)
+        if (std::is_trivially_copyable<value_type>::value && reallocate_block(size_))
         {
             // our allocator did the work for us, yay!
-            data_     = new_data;
-            capacity_ = size_;
             return;
         }
 
         // Allocate only enough to store what we have.
-        value_type* minimized_data = alloc_.allocate(size_);
+        value_type* minimized_data = allocate_or_reallocate_block(size_);
 
         if (minimized_data == nullptr)
         {
@@ -788,6 +771,47 @@ protected:
         }
     }
 
+    /// Resizes the current block of memory if the allocator supports this.
+    /// @return true if the block was resized, otherwise nothing has changed.
+    constexpr bool reallocate_block(const size_type new_capacity)
+    {
+        value_type* const new_data = reallocate(data_, alloc_, capacity_, new_capacity);
+        if (nullptr == new_data)
+        {
+            return false;
+        }
+        data_     = new_data;
+        capacity_ = new_capacity;
+        return true;
+    }
+
+    /// Allocates a new block of memory. If there is none then the current block is resized as the last resort, this lets
+    /// allocators that have only one block extend it.
+    /// @return The new block or nullptr if there is none, either because the current block was resized or on failure.
+    value_type* allocate_or_reallocate_block(const size_type new_capacity)
+    {
+#if defined(__cpp_exceptions)
+        try
+        {
+            return std::allocator_traits<allocator_type>::allocate(alloc_, new_capacity);
+        } catch (const std::bad_alloc&)
+        {
+            if (std::is_trivially_copyable<value_type>::value || !reallocate_block(new_capacity))
+            {
+                throw;
+            }
+            return nullptr;
+        }
+#else
+        value_type* const new_data = std::allocator_traits<allocator_type>::allocate(alloc_, new_capacity);
+        if (nullptr == new_data && !std::is_trivially_copyable<value_type>::value)
+        {
+            (void) reallocate_block(new_capacity);
+        }
+        return new_data;
+#endif
+    }
+
     /// Grows the capacity of the array ensures amortized, constant-time expansion.
     constexpr bool grow(const size_type max_size)
     {
-- 
2.43.0


From 4a85ec650f1303e38d5916168881e452d30d6db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:47 +0000
Subject: [PATCH 29/47] fix: keep the contents when a buffer resource
 reallocates its buffer

A reallocation with a larger alignment may place the block elsewhere in the
buffer; its contents are now moved along.
---
 .../pmr/buffer_memory_resource_delegate.hpp   | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/cetl/pmr/buffer_memory_resource_delegate.hpp b/include/cetl/pmr/buffer_memory_resource_delegate.hpp
index 8c8ea12..492e1d5 100644
--- a/include/cetl/pmr/buffer_memory_resource_delegate.hpp
+++ b/include/cetl/pmr/buffer_memory_resource_delegate.hpp
@@ -16,6 +16,7 @@
 #    include "cetl/cetl.hpp"
 #endif
 
+#include <cstring>
 #include <algorithm>
 #include <cstddef>
 #include <limits>
@@ -105,12 +106,11 @@ private:
                         std::size_t           new_object_count,
                         std::size_t           new_align)
     {
-        (void) old_object_count;
         (void) upstream;
         void* result = nullptr;
         if (data == in_use_)
         {
-            result = reallocate_internal_buffer(new_object_count, new_align);
+            result = reallocate_internal_buffer(old_object_count, new_object_count, new_align);
         }
         return result;
     }
@@ -123,11 +123,10 @@ private:
                         std::size_t           new_object_count,
                         std::size_t           new_align)
     {
-        (void) old_object_count;
         void* result = nullptr;
         if (data == in_use_)
         {
-            result = reallocate_internal_buffer(new_object_count, new_align);
+            result = reallocate_internal_buffer(old_object_count, new_object_count, new_align);
         }
         else
         {
@@ -250,14 +249,18 @@ private:
         return result;
     }
 
-    constexpr void* reallocate_internal_buffer(std::size_t size_bytes, std::size_t alignment)
+    void* reallocate_internal_buffer(std::size_t old_size_bytes, std::size_t new_size_bytes, std::size_t alignment)
     {
-        void* const result = allocate_internal_buffer(size_bytes, alignment);
-        if (nullptr != in_use_ && result != in_use_)
+        void* const result = allocate_internal_buffer(new_size_bytes, alignment);
+        if (nullptr == result)
         {
-            // The existing block stays valid and in use if it cannot be resized where it is.
+            // The existing block stays valid and in use.
             return nullptr;
         }
+        if (nullptr != in_use_ && result != in_use_)
+        {
+            (void) std::memmove(result, in_use_, std::min(old_size_bytes, new_size_bytes));
+        }
         in_use_ = result;
         return result;
     }
-- 
2.43.0


From f000642154ad0caafc8cf14afb7e6adc0147ba74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:55 +0000
Subject: [PATCH 30/47] fix: let exceptions of element assignments out of the
 array

The helpers that assign elements were always noexcept because the trait was wrapped in a second
noexcept(). An exception thrown by an element copy assignment in assign() or in a copy assignment ended
the program.
---
 include/cetl/variable_length_array.hpp | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index 7ef6597..14cdb81 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -296,8 +296,7 @@ protected:
     /// @return the number of elements copied.
     ///
     template <typename InputIt>
-    static constexpr size_type fast_copy_assign(value_type* dst, size_type dst_capacity_count, InputIt src) noexcept(
-        noexcept(std::is_nothrow_assignable<value_type, std::remove_pointer_t<InputIt>>::value))
+    static constexpr size_type fast_copy_assign(value_type* dst, size_type dst_capacity_count, InputIt src)
     {
         if (nullptr == dst)
         {
@@ -312,12 +311,10 @@ protected:
     /// @return the number of elements copied.
     ///
     template <typename InputIt>
-    static constexpr size_type fast_copy_assign(
-        value_type* dst,
-        size_type   dst_capacity_count,
-        InputIt     src,
-        size_type   src_len_count) noexcept(noexcept(std::is_nothrow_assignable<value_type,
-                                                                              std::remove_pointer_t<InputIt>>::value))
+    static constexpr size_type fast_copy_assign(value_type* dst,
+                                                size_type   dst_capacity_count,
+                                                InputIt     src,
+                                                size_type   src_len_count)
     {
         if (nullptr == dst || nullptr == src)
         {
@@ -785,8 +782,8 @@ protected:
         return true;
     }
 
-    /// Allocates a new block of memory. If there is none then the current block is resized as the last resort, this lets
-    /// allocators that have only one block extend it.
+    /// Allocates a new block of memory. If there is none then the current block is resized as the last resort, this
+    /// lets allocators that have only one block extend it.
     /// @return The new block or nullptr if there is none, either because the current block was resized or on failure.
     value_type* allocate_or_reallocate_block(const size_type new_capacity)
     {
@@ -1628,7 +1625,7 @@ private:
     /// return the position of an element of this array or size() if the value is not an element of this array.
     constexpr size_type index_of(const value_type& value) const noexcept
     {
-        const value_type* const ptr = std::addressof(value);
+        const value_type* const            ptr = std::addressof(value);
         const std::less<const value_type*> less{};
         return (size_ > 0 && !less(ptr, data_) && less(ptr, data_ + size_)) ? static_cast<size_type>(ptr - data_)
                                                                             : size_;
-- 
2.43.0


From b0aeda1562407d9f365f22f2db9cbbe9b507b7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:56 +0000
Subject: [PATCH 31/47] fix: keep the elements of the source when a move
 assignment runs out of memory

With exceptions disabled and unequal allocators the elements of the source were destroyed although
there was no memory to move them to.
---
 include/cetl/variable_length_array.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index 14cdb81..601dc74 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -629,6 +629,11 @@ protected:
                 const size_type new_size = rhs.size_;
                 move_assign_alloc(rhs.alloc_);
                 reserve(new_size, std::min(rhs_max_size, std::allocator_traits<allocator_type>::max_size(alloc_)));
+                if (capacity_ < new_size)
+                {
+                    // Out of memory and exceptions are disabled; the elements stay where they are.
+                    return;
+                }
                 size_ = fast_forward_construct(data_, capacity_, rhs.data_, new_size, alloc_);
                 fast_destroy(rhs.data_, rhs.size_);
                 rhs.size_ = 0;
@@ -2053,7 +2058,10 @@ public:
             last_byte_bit_fill_      = 0;
             Base::template move_assign_from<allocator_type>(std::move(rhs), bits2bytes(rhs.max_size()));
             adopt_bit_fill(rhs_size, rhs_fill);
-            rhs.last_byte_bit_fill_ = 0;
+            if (rhs.size_ == 0)
+            {
+                rhs.last_byte_bit_fill_ = 0;
+            }
         }
         return *this;
     }
-- 
2.43.0


From a85567bcc4a79f5f08113a94d503cb4f29bc5da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:21:38 +0000
Subject: [PATCH 32/47] fix: do not reallocate twice when resizing with an own
 element

With exceptions disabled reserve() may provide less than requested. The second attempt moved the
elements again while the value still referred to the old location.
---
 include/cetl/variable_length_array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index 601dc74..3da7836 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -1597,7 +1597,7 @@ public:
         {
             // The value is going to move along with the other elements.
             reserve(count);
-            Base::resize(count, max_size(), data_[index]);
+            Base::resize(std::min(count, capacity_), max_size(), data_[index]);
             return;
         }
         Base::resize(count, max_size(), value);
-- 
2.43.0


From adfdd5406ce079dc4e795f85e4f6a08692d3b978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:00:25 +0000
Subject: [PATCH 33/47] fix: construct classes derived from a pair as a whole

polymorphic_allocator treated every class derived from std::pair as a pair and
constructed only the base class. Only std::pair itself gets that treatment now.
---
 include/cetl/pf17/memory_resource.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/cetl/pf17/memory_resource.hpp b/include/cetl/pf17/memory_resource.hpp
index b37d9cc..c320fd8 100644
--- a/include/cetl/pf17/memory_resource.hpp
+++ b/include/cetl/pf17/memory_resource.hpp
@@ -386,10 +386,9 @@ class polymorphic_allocator
         using return_type = void;
     };
 
-    template <typename U>
-    struct EnableIfNotPair<U,
-                           typename std::enable_if_t<
-                               std::is_base_of<std::pair<typename U::first_type, typename U::second_type>, U>::value>>
+    // Only the pairs themselves: a class derived from a pair is constructed like any other class.
+    template <typename FirstType, typename SecondType>
+    struct EnableIfNotPair<std::pair<FirstType, SecondType>, void>
     {};
 
     template <typename PairType, typename... PTArgsT>
-- 
2.43.0


From 0d621ca6f308382b2872231383a4685aa37d800d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:00:25 +0000
Subject: [PATCH 34/47] fix: accept types that take an allocator in either
 position

polymorphic_allocator::construct was ambiguous for types that can be constructed with
a leading and with a trailing allocator. The leading form is preferred now, as in the standard.
---
 include/cetl/pf17/memory_resource.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cetl/pf17/memory_resource.hpp b/include/cetl/pf17/memory_resource.hpp
index c320fd8..0662427 100644
--- a/include/cetl/pf17/memory_resource.hpp
+++ b/include/cetl/pf17/memory_resource.hpp
@@ -370,7 +370,9 @@ class polymorphic_allocator
     template <typename U, typename... Args>
     struct is_trailing_allocator_constructible
     {
+        // The leading form is preferred where a type accepts the allocator in both positions.
         static constexpr bool value = std::uses_allocator<U, polymorphic_allocator<T>>::value &&
+                                      !is_leading_allocator_constructible<U, Args...>::value &&
                                       std::is_constructible<U, Args..., const polymorphic_allocator<T>&>::value;
     };
 
-- 
2.43.0


From 6f8518a512ae45e9e0a1143712b54c7154753ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:00:25 +0000
Subject: [PATCH 35/47] fix: refuse to reallocate to a size that overflows

polymorphic_allocator::reallocate multiplied the count by the element size without a check, so that
a huge count produced a block that was far too small. It returns null now.
---
 include/cetl/pf17/memory_resource.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/cetl/pf17/memory_resource.hpp b/include/cetl/pf17/memory_resource.hpp
index 0662427..5cbfa56 100644
--- a/include/cetl/pf17/memory_resource.hpp
+++ b/include/cetl/pf17/memory_resource.hpp
@@ -493,6 +493,10 @@ public:
     typename std::enable_if<deviant::memory_resource_traits<memory_resource>::is_reallocate_defined::value, U>::type*
     reallocate(U* ptr, std::size_t old_object_count, std::size_t new_object_count)
     {
+        if (std::numeric_limits<std::size_t>::max() / sizeof(U) < new_object_count)
+        {
+            return nullptr;
+        }
         return static_cast<T*>(
             deviant::memory_resource_traits<memory_resource>::reallocate(*memory_resource_,
                                                                          ptr,
-- 
2.43.0


From ff927a52f79801d93ca5f91286755ffb77968a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:04:29 +0000
Subject: [PATCH 36/47] fix: let optionals be made implicitly from lvalues

An optional could not be copy-initialised from an lvalue of its value type, and an optional of a scalar type could not
be assigned one. The implicit constructors were selected by the convertibility to an rvalue reference.
---
 include/cetl/pf17/optional.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/cetl/pf17/optional.hpp b/include/cetl/pf17/optional.hpp
index 8519ea9..48b8cb2 100644
--- a/include/cetl/pf17/optional.hpp
+++ b/include/cetl/pf17/optional.hpp
@@ -315,19 +315,24 @@ template <typename T>
 struct is_optional<optional<T>> : std::true_type
 {};
 
+/// True if F is implicitly convertible to T.
+/// CAVEAT: in C++14, std::is_convertible<F, T> is not true if T is not movable, even if F is convertible to T,
+/// so we use std::is_convertible<F, T&&> for such types. It is not suitable for other types because lvalues of T itself
+/// (or of a class derived from it) cannot be bound to T&&.
+template <typename F, typename T>
+constexpr bool implicitly_convertible =
+    std::is_convertible<F, std::conditional_t<std::is_move_constructible<T>::value, T, T&&>>::value;
+
 /// https://en.cppreference.com/w/cpp/utility/optional/optional
-/// CAVEAT: in C++14, std::is_convertible<F, T> is not true if T is not copyable, even if F is convertible to T,
-/// so we use std::is_convertible<F, T&&> instead.
-/// The specification of std::optional<> prescribes the use of T over T&& because it is written for C++17.
 template <typename T, typename U, bool Explicit>
 constexpr bool enable_ctor4 = (!std::is_same<bool, std::decay_t<T>>::value) &&            //
                               std::is_constructible<T, const U&>::value &&                //
-                              (std::is_convertible<const U&, T&&>::value != Explicit) &&  //
+                              (implicitly_convertible<const U&, T> != Explicit) &&        //
                               !convertible<T, optional<U>>;
 template <typename T, typename U, bool Explicit>
 constexpr bool enable_ctor5 = (!std::is_same<bool, std::decay_t<T>>::value) &&       //
                               std::is_constructible<T, U&&>::value &&                //
-                              (std::is_convertible<U&&, T&&>::value != Explicit) &&  //
+                              (implicitly_convertible<U&&, T> != Explicit) &&        //
                               !convertible<T, optional<U>>;
 template <typename T, typename U, bool Explicit>
 constexpr bool enable_ctor8 =
@@ -335,7 +340,7 @@ constexpr bool enable_ctor8 =
     (!std::is_same<std::decay_t<U>, in_place_t>::value) &&                                     //
     (!std::is_same<std::decay_t<U>, optional<T>>::value) &&                                    //
     (!(std::is_same<std::decay_t<T>, bool>::value && is_optional<std::decay_t<U>>::value)) &&  //
-    (std::is_convertible<U&&, T&&>::value != Explicit);
+    (implicitly_convertible<U&&, T> != Explicit);
 
 template <typename Expression>
 using enable_comparison = std::enable_if_t<std::is_convertible<Expression, bool>::value, bool>;
-- 
2.43.0


From 02560e43af8c832a2c155516a7f05a6ac7a86e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:08:21 +0000
Subject: [PATCH 37/47] fix: construct values with the global placement new

A value type may declare its own operator new, and then placement new
of it did not compile.
---
 include/cetl/pf17/memory_resource.hpp |  6 +++---
 include/cetl/pf17/optional.hpp        | 25 ++++++++++++++++---------
 include/cetl/pf17/variant.hpp         |  4 +++-
 include/cetl/unbounded_variant.hpp    |  6 +++---
 4 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/include/cetl/pf17/memory_resource.hpp b/include/cetl/pf17/memory_resource.hpp
index 5cbfa56..f8a5388 100644
--- a/include/cetl/pf17/memory_resource.hpp
+++ b/include/cetl/pf17/memory_resource.hpp
@@ -423,7 +423,7 @@ class polymorphic_allocator
         U* p,
         UArgsT&&... uArgs)
     {
-        new (p) U(std::forward<UArgsT>(uArgs)...);
+        ::new (static_cast<void*>(p)) U(std::forward<UArgsT>(uArgs)...);
     }
 
     template <typename U, typename... UArgsT>
@@ -432,7 +432,7 @@ class polymorphic_allocator
         UArgsT&&... uArgs)
     {
         // https://cplusplus.github.io/LWG/issue2969
-        new (p) U(std::allocator_arg, *this, std::forward<UArgsT>(uArgs)...);
+        ::new (static_cast<void*>(p)) U(std::allocator_arg, *this, std::forward<UArgsT>(uArgs)...);
     }
 
     template <typename U, typename... UArgsT>
@@ -441,7 +441,7 @@ class polymorphic_allocator
         UArgsT&&... uArgs)
     {
         // https://cplusplus.github.io/LWG/issue2969
-        new (p) U(std::forward<UArgsT>(uArgs)..., *this);
+        ::new (static_cast<void*>(p)) U(std::forward<UArgsT>(uArgs)..., *this);
     }
 
     // +-----------------------------------------------------------------------+
diff --git a/include/cetl/pf17/optional.hpp b/include/cetl/pf17/optional.hpp
index 48b8cb2..5061c41 100644
--- a/include/cetl/pf17/optional.hpp
+++ b/include/cetl/pf17/optional.hpp
@@ -66,6 +66,13 @@ namespace opt
 struct copy_tag final
 {};
 
+/// The place where a value is constructed. Neither const nor an operator new of the value type get in the way.
+template <typename T>
+void* storage_of(T& value) noexcept
+{
+    return const_cast<void*>(static_cast<const volatile void*>(std::addressof(value)));
+}
+
 /// DESTRUCTION POLICY
 template <typename T, bool = std::is_trivially_destructible<T>::value>
 struct base_destruction;
@@ -90,7 +97,7 @@ struct base_destruction<T, true>
     {
         if (m_engaged)
         {
-            new (std::addressof(m_value)) T(std::forward<U>(other).m_value);
+            ::new (storage_of(m_value)) T(std::forward<U>(other).m_value);
         }
     }
     void reset() noexcept
@@ -125,7 +132,7 @@ struct base_destruction<T, false>
     {
         if (m_engaged)
         {
-            new (std::addressof(m_value)) T(std::forward<U>(other).m_value);
+            ::new (storage_of(m_value)) T(std::forward<U>(other).m_value);
         }
     }
     constexpr base_destruction(const base_destruction&) noexcept            = default;
@@ -233,7 +240,7 @@ struct base_copy_assignment<T, false> : base_move_construction<T>
         }
         else if (other.m_engaged)
         {
-            new (std::addressof(this->m_value)) T(other.m_value);
+            ::new (storage_of(this->m_value)) T(other.m_value);
             this->m_engaged = true;
         }
         else
@@ -276,7 +283,7 @@ struct base_move_assignment<T, false> : base_copy_assignment<T>
         }
         else if (other.m_engaged)
         {
-            new (std::addressof(this->m_value)) T(std::move(other.m_value));
+            ::new (storage_of(this->m_value)) T(std::move(other.m_value));
             this->m_engaged = true;
         }
         else
@@ -464,7 +471,7 @@ public:
         }
         else
         {
-            new (std::addressof(this->m_value)) T(std::forward<U>(value));
+            ::new (detail::opt::storage_of(this->m_value)) T(std::forward<U>(value));
             this->m_engaged = true;
         }
         return *this;
@@ -484,7 +491,7 @@ public:
         }
         else if (other.m_engaged)
         {
-            new (std::addressof(this->m_value)) T(other.m_value);
+            ::new (detail::opt::storage_of(this->m_value)) T(other.m_value);
             this->m_engaged = true;
         }
         else
@@ -508,7 +515,7 @@ public:
         }
         else if (other.m_engaged)
         {
-            new (std::addressof(this->m_value)) T(std::move(other.m_value));
+            ::new (detail::opt::storage_of(this->m_value)) T(std::move(other.m_value));
             this->m_engaged = true;
         }
         else
@@ -536,7 +543,7 @@ public:
     T& emplace(Args&&... args) noexcept(std::is_nothrow_constructible<T, Args...>::value)
     {
         reset();
-        new (std::addressof(this->m_value)) T(std::forward<Args>(args)...);
+        ::new (detail::opt::storage_of(this->m_value)) T(std::forward<Args>(args)...);
         this->m_engaged = true;
         return this->m_value;
     }
@@ -545,7 +552,7 @@ public:
         noexcept(std::is_nothrow_constructible<T, std::initializer_list<U>, Args...>::value)
     {
         reset();
-        new (std::addressof(this->m_value)) T(il, std::forward<Args>(args)...);
+        ::new (detail::opt::storage_of(this->m_value)) T(il, std::forward<Args>(args)...);
         this->m_engaged = true;
         return this->m_value;
     }
diff --git a/include/cetl/pf17/variant.hpp b/include/cetl/pf17/variant.hpp
index e27c014..448036f 100644
--- a/include/cetl/pf17/variant.hpp
+++ b/include/cetl/pf17/variant.hpp
@@ -293,7 +293,9 @@ union arena<Ix, types<Head, Tail...>, smf_nontrivial> final
 template <std::size_t N, std::size_t S, typename Seq, int DtorAvail, req<N == S> = 0, typename... Args>
 auto& construct(arena<S, Seq, DtorAvail>& self, Args&&... ar)
 {
-    return *new (std::addressof(self.head)) typename arena<S, Seq>::head_type(std::forward<Args>(ar)...);
+    // Neither const nor an operator new of the alternative get in the way.
+    void* const storage = const_cast<void*>(static_cast<const volatile void*>(std::addressof(self.head)));
+    return *::new (storage) typename arena<S, Seq>::head_type(std::forward<Args>(ar)...);
 }
 template <std::size_t N, std::size_t S, typename Seq, int DtorAvail, req<N != S> = 0, typename... Args>
 auto& construct(arena<S, Seq, DtorAvail>& self, Args&&... ar)
diff --git a/include/cetl/unbounded_variant.hpp b/include/cetl/unbounded_variant.hpp
index b83f34e..bf3374c 100644
--- a/include/cetl/unbounded_variant.hpp
+++ b/include/cetl/unbounded_variant.hpp
@@ -909,7 +909,7 @@ struct base_copy<Pmr, Footprint, true /*Copyable*/, Moveable, Alignment>
             CETL_DEBUG_ASSERT(nullptr != src, "");
             CETL_DEBUG_ASSERT(nullptr != dst, "");
 
-            new (dst) Tp(*static_cast<const Tp*>(src));
+            ::new (dst) Tp(*static_cast<const Tp*>(src));
         };
     }
 
@@ -998,7 +998,7 @@ struct base_move<Pmr, Footprint, Copyable, true /*Movable*/, Alignment>
             CETL_DEBUG_ASSERT(nullptr != src, "");
             CETL_DEBUG_ASSERT(nullptr != dst, "");
 
-            new (dst) Tp(std::move(*static_cast<Tp*>(src)));
+            ::new (dst) Tp(std::move(*static_cast<Tp*>(src)));
         };
     }
 
@@ -1458,7 +1458,7 @@ private:
             return nullptr;
         }
 
-        auto* ptr = new (raw_storage) Tp(std::forward<Args>(args)...);
+        auto* ptr = ::new (raw_storage) Tp(std::forward<Args>(args)...);
 
         base::template make_handlers<Tp>();
 
-- 
2.43.0


From 3869ecfa2eef94294524aafd1875c761b08ec185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:14:45 +0000
Subject: [PATCH 38/47] fix: accept lists in emplace and throwing sources in
 assignments of variants

emplace(list, args...) asked whether the alternative can be made of the
remaining arguments only. The converting assignment insisted on a source
that moves without throwing instead of such an alternative.
---
 include/cetl/pf17/variant.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/cetl/pf17/variant.hpp b/include/cetl/pf17/variant.hpp
index 448036f..0674fd3 100644
--- a/include/cetl/pf17/variant.hpp
+++ b/include/cetl/pf17/variant.hpp
@@ -1047,7 +1047,7 @@ public:
               typename U,
               typename... Args,
               std::size_t Ix                                                  = index_of<T>,
-              std::enable_if_t<std::is_constructible<T, Args...>::value, int> = 0>
+              std::enable_if_t<std::is_constructible<T, std::initializer_list<U>&, Args...>::value, int> = 0>
     T& emplace(const std::initializer_list<U> il, Args&&... ar)
     {
         return this->template set<Ix>(il, std::forward<Args>(ar)...);
@@ -1066,7 +1066,7 @@ public:
               typename... Args,
               std::enable_if_t<(Ix < sizeof...(Ts)), int>                     = 0,
               typename T                                                      = variant_alternative_t<Ix, variant>,
-              std::enable_if_t<std::is_constructible<T, Args...>::value, int> = 0>
+              std::enable_if_t<std::is_constructible<T, std::initializer_list<U>&, Args...>::value, int> = 0>
     T& emplace(const std::initializer_list<U> il, Args&&... ar)
     {
         return this->template set<Ix>(il, std::forward<Args>(ar)...);
@@ -1134,8 +1134,8 @@ private:
     template <std::size_t Ix, typename U, typename Alt = nth_type<Ix>>
     std::enable_if_t<!allows_direct_conversion<U, Alt>> convert_from(U&& from)
     {  // This is never noexcept, otherwise we would have chosen the simpler case.
-        static_assert(std::is_move_constructible<U>::value && std::is_nothrow_move_constructible<U>::value,
-                      "U shall be nothrow move constructible in this context; the implementation appears broken");
+        static_assert(std::is_move_constructible<Alt>::value && std::is_nothrow_move_constructible<Alt>::value,
+                      "Alt shall be nothrow move constructible in this context; the implementation appears broken");
         this->template set<Ix>(Alt(std::forward<U>(from)));
     }
 };
-- 
2.43.0


From 26e5417e82c50b6310a5d6e7601596a041baea30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:53:41 +0000
Subject: [PATCH 39/47] fix: select the alternative to assign as the
 constructor does

---
 include/cetl/pf17/variant.hpp    | 18 +++++++++++++-----
 include/cetl/type_traits_ext.hpp |  6 ++++--
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/include/cetl/pf17/variant.hpp b/include/cetl/pf17/variant.hpp
index 0674fd3..1da1150 100644
--- a/include/cetl/pf17/variant.hpp
+++ b/include/cetl/pf17/variant.hpp
@@ -736,17 +736,25 @@ static_assert(best_converting_ctor_index_v<double, long, float, double, bool> ==
 
 // --------------------------------------------------------------------------------------------------------------------
 
-template <typename From, typename To>
-struct best_converting_assignment_predicate : conjunction<best_converting_ctor_predicate<From, To>,  //
-                                                          std::is_assignable<To&, From>>
+template <std::size_t Ix, typename U, typename... Ts>
+struct best_converting_assignment_index
+    : std::integral_constant<std::size_t,
+                             std::is_assignable<std::tuple_element_t<Ix, std::tuple<Ts...>>&, U>::value
+                                 ? Ix
+                                 : std::numeric_limits<std::size_t>::max()>
+{};
+template <typename U, typename... Ts>
+struct best_converting_assignment_index<std::numeric_limits<std::size_t>::max(), U, Ts...>
+    : std::integral_constant<std::size_t, std::numeric_limits<std::size_t>::max()>
 {};
 
 /// Determines the best assignment operator in Ts that accepts an argument of type U following the rules specified in
 /// https://en.cppreference.com/w/cpp/utility/variant/operator%3D, avoiding narrowing conversions.
+/// The alternative is the one that the converting constructor would select; it must also be assignable from U.
 /// The value is std::numeric_limits<std::size_t>::max() if there is no suitable operator.
 template <typename U, typename... Ts>
-constexpr std::size_t best_converting_assignment_index_v = type_traits_ext::
-    best_conversion_index_v<type_traits_ext::partial<best_converting_assignment_predicate, U>::template type, U, Ts...>;
+constexpr std::size_t best_converting_assignment_index_v =
+    best_converting_assignment_index<best_converting_ctor_index_v<U, Ts...>, U, Ts...>::value;
 
 static_assert(best_converting_assignment_index_v<float, long, float, bool> == 1, "self-test failure");
 static_assert(best_converting_assignment_index_v<double, long, float, double, bool> == 2, "self-test failure");
diff --git a/include/cetl/type_traits_ext.hpp b/include/cetl/type_traits_ext.hpp
index 19b577a..2295fcc 100644
--- a/include/cetl/type_traits_ext.hpp
+++ b/include/cetl/type_traits_ext.hpp
@@ -160,11 +160,13 @@ class types;
 template <template <typename...> class Q, std::size_t N, typename T>
 struct candidate
 {
+    // The cv-qualifiers of a by-value parameter have no effect on overload resolution.
+    using unqualified = std::remove_cv_t<T>;
     template <typename DependentT = T, std::enable_if_t<Q<DependentT>::value, int> = 0>
-    static std::integral_constant<std::size_t, N> match(T&&);
+    static std::integral_constant<std::size_t, N> match(unqualified&&);
     // Currently, we don't differentiate between value categories of T, but it may be useful in the future.
     template <typename DependentT = T, std::enable_if_t<Q<DependentT>::value, int> = 0>
-    static std::integral_constant<std::size_t, N> match(const T&);
+    static std::integral_constant<std::size_t, N> match(const unqualified&);
 };
 template <template <typename...> class Q, std::size_t N, typename... Ts>
 struct resolver : resolver<Q, N - 1, Ts...>, candidate<Q, N, std::tuple_element_t<N, std::tuple<Ts...>>>
-- 
2.43.0


From 074db511ffe3e9d74004291e3a88c5a94e3afd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:58:20 +0000
Subject: [PATCH 40/47] fix: keep the width when a string_view is not written

---
 include/cetl/pf17/string_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cetl/pf17/string_view.hpp b/include/cetl/pf17/string_view.hpp
index e560d8c..65f676f 100644
--- a/include/cetl/pf17/string_view.hpp
+++ b/include/cetl/pf17/string_view.hpp
@@ -388,8 +388,8 @@ public:
             {
                 os.write(sv.data(), sv_length);
             }
+            os.width(0);
         }
-        os.width(0);
         return os;
     }
 
-- 
2.43.0


From 35754b10048e82a21191707a8e763cc16db17852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:13:01 +0000
Subject: [PATCH 41/47] fix: do not make static spans of arrays of another
 length

---
 include/cetl/pf20/span.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cetl/pf20/span.hpp b/include/cetl/pf20/span.hpp
index 7a5cb5a..18644d0 100644
--- a/include/cetl/pf20/span.hpp
+++ b/include/cetl/pf20/span.hpp
@@ -129,10 +129,12 @@ public:
     }
 
     /// Creates a span starting at the first element of a c-style array through to the end of that array.
+    /// @tparam ArrayLen Deduced length of the c array.
+    /// @tparam type     Enables this override only if the length of the array is the extent of the span.
     /// @param arr  Reference to a C-style array.
     /// @see std::span::span()
-    template <std::size_t DeducedExtent = Extent, typename std::enable_if<(DeducedExtent != 0), bool>::type = true>
-    constexpr span(element_type (&arr)[DeducedExtent]) noexcept
+    template <std::size_t ArrayLen, typename std::enable_if<(ArrayLen == Extent), bool>::type = true>
+    constexpr span(element_type (&arr)[ArrayLen]) noexcept
         : data_(arr)
     {
     }
-- 
2.43.0


From 608846a4bf5db21efc37328d137cd498525a818e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:13:01 +0000
Subject: [PATCH 42/47] fix: let spans view elements with an operator & of
 their own

---
 include/cetl/pf20/span.hpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/cetl/pf20/span.hpp b/include/cetl/pf20/span.hpp
index 18644d0..3d9838c 100644
--- a/include/cetl/pf20/span.hpp
+++ b/include/cetl/pf20/span.hpp
@@ -246,7 +246,7 @@ public:
     /// @see std::span::begin
     constexpr iterator begin() const noexcept
     {
-        return iterator(&data_[0]);
+        return data_;
     }
 
     /// Iterator to the address after the last element in the span.
@@ -262,7 +262,7 @@ public:
     /// @see std::span::end
     constexpr iterator end() const noexcept
     {
-        return iterator(&data_[Extent]);
+        return data_ + Extent;
     }
 
     /// Reverse iterator to the last element in the span.
@@ -395,7 +395,7 @@ public:
     constexpr span<element_type, Count> last() const
     {
         static_assert(Count <= extent, "sub-views beyond the size of the span's view are not allowed.");
-        return span<element_type, Count>{&data_[extent - Count], Count};
+        return span<element_type, Count>{data_ + (extent - Count), Count};
     }
 
     /// Create a new span `count` elements from the last item of the current span to its end.
@@ -407,7 +407,7 @@ public:
     {
         CETL_DEBUG_ASSERT(count <= extent,
                           "CDE_span_009: Dynamic sub-views beyond the size of the span's view are undefined.");
-        return span<element_type, dynamic_extent>(&data_[extent - count], count);
+        return span<element_type, dynamic_extent>(data_ + (extent - count), count);
     }
 
     /// Create a new span `Offset` elements from the start of the current span and for `Count` elements.
@@ -425,7 +425,7 @@ public:
         return span < element_type,
                Count != dynamic_extent
                    ? Count
-                   : extent - Offset > {&data_[Offset], Count == dynamic_extent ? size() - Offset : Count};
+                   : extent - Offset > {data_ + Offset, Count == dynamic_extent ? size() - Offset : Count};
     }
 
     /// Create a new span `Offset` elements from the start of the current span and for either `Count` elements or,
@@ -442,12 +442,12 @@ public:
         CETL_DEBUG_ASSERT(Offset <= extent, "CDE_span_010: subspan Offsets > size() are ill-formed.");
         if (Count == dynamic_extent)
         {
-            return {&data_[Offset], extent - Offset};
+            return {data_ + Offset, extent - Offset};
         }
         else
         {
             CETL_DEBUG_ASSERT(Count <= (extent - Offset), "CDE_span_011: subspan Count argument is ill-formed");
-            return {&data_[Offset], Count};
+            return {data_ + Offset, Count};
         }
     }
 
@@ -636,13 +636,13 @@ public:
     ///
     constexpr iterator begin() const noexcept
     {
-        return iterator(&data_[0]);
+        return data_;
     }
     /// @copydoc span::end()
     ///
     constexpr iterator end() const noexcept
     {
-        return iterator(&data_[size_]);
+        return data_ + size_;
     }
     /// @copydoc span::rbegin()
     ///
@@ -748,7 +748,7 @@ public:
     constexpr span<element_type, Count> last() const
     {
         CETL_DEBUG_ASSERT(Count <= size_, "CDE_span_019: sub-views beyond the size of the span's view are undefined.");
-        return span<element_type, Count>(&data_[size_ - Count], Count);
+        return span<element_type, Count>(data_ + (size_ - Count), Count);
     }
 
     /// @copydoc span::last(span::size_type count) const
@@ -757,7 +757,7 @@ public:
     {
         CETL_DEBUG_ASSERT(count <= size_,
                           "CDE_span_020: Dynamic sub-views beyond the size of the span's view are undefined.");
-        return span<element_type, dynamic_extent>(&data_[size_ - count], count);
+        return span<element_type, dynamic_extent>(data_ + (size_ - count), count);
     }
 
     /// Create a new span Offset elements from the start of the current span and for `Count` elements.
@@ -775,7 +775,7 @@ public:
         CETL_DEBUG_ASSERT(Offset <= size_, "CDE_span_023: subspan Offsets > extent are ill-formed.");
         CETL_DEBUG_ASSERT((Count == dynamic_extent) || (Count <= size_ - Offset),
                           "CDE_span_024: subspan Count argument is ill-formed");
-        return span<element_type, Count>{&data_[Offset], Count == dynamic_extent ? size() - Offset : Count};
+        return span<element_type, Count>{data_ + Offset, Count == dynamic_extent ? size() - Offset : Count};
     }
 
     /// @copydoc span::subspan(span::size_type Offset, span::size_type Count) const
@@ -785,12 +785,12 @@ public:
         CETL_DEBUG_ASSERT(Offset <= size_, "CDE_span_021: subspan Offsets > size() are ill-formed.");
         if (Count == dynamic_extent)
         {
-            return {&data_[Offset], size_ - Offset};
+            return {data_ + Offset, size_ - Offset};
         }
         else
         {
             CETL_DEBUG_ASSERT(Count <= (size_ - Offset), "CDE_span_022: subspan Count argument is ill-formed");
-            return {&data_[Offset], Count};
+            return {data_ + Offset, Count};
         }
     }
 
-- 
2.43.0


From 3a97be8d58ef0c67c40020e53bcde78317364558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:41:41 +0000
Subject: [PATCH 43/47] fix: do not give a null block back to the allocator of
 an array

---
 include/cetl/variable_length_array.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index 3da7836..4e057b5 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -270,7 +270,10 @@ protected:
         typename std::enable_if_t<std::is_trivially_destructible<U>::value>* = nullptr)
     {
         fast_destroy(src, src_size_count);
-        alloc.deallocate(src, src_capacity_count);
+        if (nullptr != src)
+        {
+            alloc.deallocate(src, src_capacity_count);
+        }
     }
 
     ///
@@ -285,7 +288,10 @@ protected:
         typename std::enable_if_t<!std::is_trivially_destructible<U>::value>* = nullptr)
     {
         fast_destroy(src, src_size_count);
-        alloc.deallocate(src, src_capacity_count);
+        if (nullptr != src)
+        {
+            alloc.deallocate(src, src_capacity_count);
+        }
     }
 
     // +----------------------------------------------------------------------+
-- 
2.43.0


From e550b592056b713bb3aaba824c8503985630fd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:41:41 +0000
Subject: [PATCH 44/47] fix: reserve only the stated size for O(1) heap storage

---
 include/cetl/pmr/o1heap_memory_resource_delegate.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cetl/pmr/o1heap_memory_resource_delegate.hpp b/include/cetl/pmr/o1heap_memory_resource_delegate.hpp
index 9b0194c..557e09a 100644
--- a/include/cetl/pmr/o1heap_memory_resource_delegate.hpp
+++ b/include/cetl/pmr/o1heap_memory_resource_delegate.hpp
@@ -19,7 +19,8 @@
 #    include "cetl/cetl.hpp"
 #endif
 
-#include <type_traits>  // for aligned_storage
+#include <cstddef>
+#include <new>
 
 #include "o1heap.h"
 
@@ -36,7 +37,7 @@ struct O1HeapAlignedStorage
 
     static_assert(O1HEAP_ALIGNMENT >= alignof(std::max_align_t), "O1HEAP_ALIGNMENT is too small for this platform.");
 
-    typename std::aligned_storage<sizeof(unsigned char), alignment>::type storage[size_bytes];
+    alignas(alignment) unsigned char storage[size_bytes];
 };
 
 class UnsynchronizedO1HeapMemoryResourceDelegate
-- 
2.43.0


From 98b2ffdda7ca0ef70a7ca982c3976e61b523ad94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:42:12 +0000
Subject: [PATCH 45/47] fix: include what the visit helpers use

---
 include/cetl/visit_helpers.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cetl/visit_helpers.hpp b/include/cetl/visit_helpers.hpp
index b522a10..adf53d1 100644
--- a/include/cetl/visit_helpers.hpp
+++ b/include/cetl/visit_helpers.hpp
@@ -10,6 +10,7 @@
 #define CETL_VISIT_HELPERS_HPP_INCLUDED
 
 #include <type_traits>
+#include <utility>
 
 namespace cetl
 {
-- 
2.43.0


From 92e3846b41b891cb2f6bd2c20fda1cccaceddec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:55:00 +0000
Subject: [PATCH 46/47] fix: let variants answer whether an alternative can be
 made by type

The index of the type was computed before the constraints were looked at. Asking
whether a variant can be constructed or emplaced with a type that is not exactly
one of its alternatives was therefore an error instead of a no.
---
 include/cetl/pf17/variant.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/cetl/pf17/variant.hpp b/include/cetl/pf17/variant.hpp
index 1da1150..5f97f3d 100644
--- a/include/cetl/pf17/variant.hpp
+++ b/include/cetl/pf17/variant.hpp
@@ -960,9 +960,9 @@ public:
 
     /// Constructor 5
     template <typename T,
-              std::size_t Ix = index_of<T>,
               typename... Args,
-              std::enable_if_t<is_unique<T> && std::is_constructible<T, Args...>::value, int> = 0>
+              std::enable_if_t<is_unique<T> && std::is_constructible<T, Args...>::value, int> = 0,
+              std::size_t Ix                                                                  = index_of<T>>
     constexpr explicit variant(const in_place_type_t<T>, Args&&... args)
         : base(in_place_index<Ix>, std::forward<Args>(args)...)
     {
@@ -971,10 +971,10 @@ public:
     /// Constructor 6
     template <
         typename T,
-        std::size_t Ix = index_of<T>,
         typename U,
         typename... Args,
-        std::enable_if_t<is_unique<T> && std::is_constructible<T, std::initializer_list<U>&, Args...>::value, int> = 0>
+        std::enable_if_t<is_unique<T> && std::is_constructible<T, std::initializer_list<U>&, Args...>::value, int> = 0,
+        std::size_t Ix = index_of<T>>
     constexpr explicit variant(const in_place_type_t<T>, const std::initializer_list<U> il, Args&&... args)
         : base(in_place_index<Ix>, il, std::forward<Args>(args)...)
     {
@@ -1045,8 +1045,8 @@ public:
     /// @{
     template <typename T,
               typename... Args,
-              std::size_t Ix                                                  = index_of<T>,
-              std::enable_if_t<std::is_constructible<T, Args...>::value, int> = 0>
+              std::enable_if_t<is_unique<T> && std::is_constructible<T, Args...>::value, int> = 0,
+              std::size_t Ix                                                                  = index_of<T>>
     T& emplace(Args&&... ar)
     {
         return this->template set<Ix>(std::forward<Args>(ar)...);
@@ -1054,8 +1054,9 @@ public:
     template <typename T,
               typename U,
               typename... Args,
-              std::size_t Ix                                                  = index_of<T>,
-              std::enable_if_t<std::is_constructible<T, std::initializer_list<U>&, Args...>::value, int> = 0>
+              std::enable_if_t<is_unique<T> && std::is_constructible<T, std::initializer_list<U>&, Args...>::value, int> =
+                  0,
+              std::size_t Ix = index_of<T>>
     T& emplace(const std::initializer_list<U> il, Args&&... ar)
     {
         return this->template set<Ix>(il, std::forward<Args>(ar)...);
-- 
2.43.0


From 3abf0345cfa81385d94523952848cb29c48e8680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:12:51 +0000
Subject: [PATCH 47/47] fix: allow assigning a function to an unbounded_variant

---
 include/cetl/unbounded_variant.hpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/cetl/unbounded_variant.hpp b/include/cetl/unbounded_variant.hpp
index bf3374c..775d43b 100644
--- a/include/cetl/unbounded_variant.hpp
+++ b/include/cetl/unbounded_variant.hpp
@@ -1414,20 +1414,27 @@ private:
     static_assert(!is_in_place_type<int>::value, "self-test failure");
 
     /// Checks whether the value is (a part of) the currently stored one.
-    template <typename ValueType>
+    template <typename ValueType, std::enable_if_t<!std::is_function<ValueType>::value, int> = 0>
     bool is_stored_here(const ValueType& value) const noexcept
     {
         if (!has_value())
         {
             return false;
         }
-        const void* const            ptr   = std::addressof(value);
-        const void* const            begin = base::get_raw_storage();
-        const void* const            end   = static_cast<const std::uint8_t*>(begin) + base::get_value_size();
-        const std::less<const void*> less{};
+        const volatile void* const            ptr   = std::addressof(value);
+        const void* const                     begin = base::get_raw_storage();
+        const void* const                     end = static_cast<const std::uint8_t*>(begin) + base::get_value_size();
+        const std::less<const volatile void*> less{};
         return !less(ptr, begin) && less(ptr, end);
     }
 
+    /// Functions are never stored, only pointers to them.
+    template <typename Function, std::enable_if_t<std::is_function<Function>::value, int> = 0>
+    bool is_stored_here(const Function&) const noexcept
+    {
+        return false;
+    }
+
     template <typename Tp, typename ValueType>
     void assign(std::true_type /*Movable value*/, ValueType&& value)
     {
-- 
2.43.0


From c8c8149a72f90d1606891d09c5ebb8f1647769c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:26 +0000
Subject: [PATCH 01/48] fix: keep the buffer in use when re-allocating inside
 it fails

---
 .../cetl/pmr/buffer_memory_resource_delegate.hpp   | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/cetl/pmr/buffer_memory_resource_delegate.hpp b/include/cetl/pmr/buffer_memory_resource_delegate.hpp
index 652f2db..700afd3 100644
--- a/include/cetl/pmr/buffer_memory_resource_delegate.hpp
+++ b/include/cetl/pmr/buffer_memory_resource_delegate.hpp
@@ -110,8 +110,11 @@ private:
         void* result = nullptr;
         if (data == in_use_)
         {
-            result  = allocate_internal_buffer(new_object_count, new_align);
-            in_use_ = result;
+            result = allocate_internal_buffer(new_object_count, new_align);
+            if (nullptr != result)
+            {
+                in_use_ = result;
+            }  // else data remains valid and in use.
         }
         return result;
     }
@@ -128,8 +131,11 @@ private:
         void* result = nullptr;
         if (data == in_use_)
         {
-            result  = allocate_internal_buffer(new_object_count, new_align);
-            in_use_ = result;
+            result = allocate_internal_buffer(new_object_count, new_align);
+            if (nullptr != result)
+            {
+                in_use_ = result;
+            }  // else data remains valid and in use.
         }
         else
         {
-- 
2.43.0


From 69bf3dc51a1a626a1c0991c21d2499b0c500bbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:43 +0000
Subject: [PATCH 02/48] fix: respect the upstream limit when re-allocating
 through the upstream

---
 include/cetl/pmr/buffer_memory_resource_delegate.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cetl/pmr/buffer_memory_resource_delegate.hpp b/include/cetl/pmr/buffer_memory_resource_delegate.hpp
index 700afd3..ea5e03e 100644
--- a/include/cetl/pmr/buffer_memory_resource_delegate.hpp
+++ b/include/cetl/pmr/buffer_memory_resource_delegate.hpp
@@ -137,7 +137,7 @@ private:
                 in_use_ = result;
             }  // else data remains valid and in use.
         }
-        else
+        else if (new_object_count <= upstream_max_size_bytes_)
         {
             result = upstream.reallocate(data, old_object_count, new_object_count, new_align);
         }
-- 
2.43.0


From 38fc03aca32105072f2e1dcedaa0c3182c091df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:59 +0000
Subject: [PATCH 03/48] fix: compare every full byte of two bit arrays

---
 include/cetl/variable_length_array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index 5f8f917..877fb53 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -1939,7 +1939,7 @@ public:
         {
             return false;
         }
-        if (size_ > 1 && !std::equal(data_, data_ + size_ - 2, rhs.data_, rhs.data_ + rhs.size_ - 2))
+        if (size_ > 1 && !std::equal(data_, data_ + size_ - 1, rhs.data_, rhs.data_ + rhs.size_ - 1))
         {
             return false;
         }
-- 
2.43.0


From 64c73ab1d4f5a13009ed59dab5c95b6b799e725c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:04 +0000
Subject: [PATCH 04/48] fix: accept an element of the array itself as the value
 to append, resize or assign with

---
 include/cetl/variable_length_array.hpp | 32 ++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index 877fb53..ffe5683 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -13,6 +13,7 @@
 
 #include <algorithm>
 #include <cstring>
+#include <functional>
 #include <initializer_list>
 #include <limits>
 #include <memory>
@@ -1404,12 +1405,14 @@ public:
     ///
     constexpr void push_back(const value_type& value)
     {
+        const size_type own_index = index_of(value);
         if (!ensure_size_plus_one())
         {
             return;
         }
 
-        push_back_impl(value);
+        // The value may be one of our own elements, and growing has just moved those.
+        push_back_impl((own_index < size_) ? static_cast<const value_type&>(data_[own_index]) : value);
     }
 
     ///
@@ -1423,12 +1426,14 @@ public:
     ///
     constexpr void push_back(value_type&& value)
     {
+        const size_type own_index = index_of(value);
         if (!ensure_size_plus_one())
         {
             return;
         }
 
-        push_back_impl(std::forward<value_type>(value));
+        // The value may be one of our own elements, and growing has just moved those.
+        push_back_impl(std::move((own_index < size_) ? data_[own_index] : value));
     }
 
     ///
@@ -1484,6 +1489,13 @@ public:
     /// @throw std::bad_alloc if the container cannot obtain enough memory to size up to `count`.
     constexpr void resize(size_type count, const value_type& value)
     {
+        if ((count > capacity_) && (index_of(value) < size_))
+        {
+            // The value is one of our own elements and won't outlive the current storage.
+            const value_type value_copy(value);
+            Base::resize(count, max_size(), value_copy);
+            return;
+        }
         Base::resize(count, max_size(), value);
     }
 
@@ -1495,6 +1507,13 @@ public:
     /// @throw std::bad_alloc if the container cannot obtain enough memory to size up to `count`.
     constexpr void assign(size_type count, const value_type& value)
     {
+        if (index_of(value) < size_)
+        {
+            // The value is one of our own elements, all of which are about to be destroyed or overwritten.
+            const value_type value_copy(value);
+            assign(count, value_copy);
+            return;
+        }
         const size_type size_before = size_;
         resize(count, value);
         const size_type back_fill_count = (size_ > size_before) ? size_before : size_;
@@ -1504,6 +1523,15 @@ public:
 private:
     // +----------------------------------------------------------------------+
 
+    /// return the position of `value` if it is an element of this array, otherwise the size of this array.
+    constexpr size_type index_of(const value_type& value) const noexcept
+    {
+        const value_type* const ptr = std::addressof(value);
+        const bool              own = (size_ > 0) && !std::less<const value_type*>{}(ptr, data_) &&
+                         std::less<const value_type*>{}(ptr, data_ + size_);
+        return own ? static_cast<size_type>(ptr - data_) : size_;
+    }
+
     /// return true if there was or now is enough capacity to add one more element.
     constexpr bool ensure_size_plus_one()
     {
-- 
2.43.0


From 7c89b2ba6d870f5dd16a8f97180a03e572dd224b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:14 +0000
Subject: [PATCH 05/48] fix: construct from another array with exactly the
 given allocator and return its memory where it came from

---
 include/cetl/variable_length_array.hpp | 118 +++++++++++--------------
 1 file changed, 52 insertions(+), 66 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index ffe5683..f56aeda 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -594,6 +594,33 @@ protected:
         }
     }
 
+    // +----------------------------------------------------------------------+
+    // | MOVE CONSTRUCT IMPLEMENTATION
+    // +----------------------------------------------------------------------+
+
+    ///
+    /// Takes the elements of rhs into this, still empty, array. The memory of rhs can only be adopted where our
+    /// allocator is able to return it.
+    constexpr void move_construct_from(VariableLengthArrayBase&& rhs, const size_type max_size)
+    {
+        if (std::allocator_traits<allocator_type>::is_always_equal::value || alloc_ == rhs.alloc_)
+        {
+            capacity_     = rhs.capacity_;
+            size_         = rhs.size_;
+            data_         = rhs.data_;
+            rhs.size_     = 0;
+            rhs.data_     = nullptr;
+            rhs.capacity_ = 0;
+        }
+        else
+        {
+            reserve(rhs.size_, max_size);
+            size_ = fast_forward_construct(data_, capacity_, rhs.data_, rhs.size_, alloc_);
+            fast_destroy(rhs.data_, rhs.size_);
+            rhs.size_ = 0;
+        }
+    }
+
     // +----------------------------------------------------------------------+
     // | Common Implementation
     // +----------------------------------------------------------------------+
@@ -764,9 +791,9 @@ protected:
     {
     }
 
-    constexpr VariableLengthArrayBase(const VariableLengthArrayBase& rhs, const allocator_type& rhs_alloc) noexcept(
+    constexpr VariableLengthArrayBase(const VariableLengthArrayBase& rhs, const allocator_type& alloc) noexcept(
         std::is_nothrow_copy_constructible<allocator_type>::value)
-        : alloc_(std::allocator_traits<allocator_type>::select_on_container_copy_construction(rhs_alloc))
+        : alloc_(alloc)
         , data_(nullptr)
         , capacity_(0)
         , size_(0)
@@ -788,61 +815,6 @@ protected:
         rhs.data_     = nullptr;
     }
 
-    template <typename UAlloc>
-    constexpr VariableLengthArrayBase(
-        VariableLengthArrayBase&& rhs,
-        const UAlloc&             rhs_alloc,
-        typename std::enable_if_t<is_pocma_or_is_always_equal<UAlloc>::value>* = nullptr) noexcept
-        : alloc_(std::allocator_traits<UAlloc>::select_on_container_copy_construction(rhs_alloc))
-        , data_(std::move(rhs.data_))
-        , capacity_(rhs.capacity_)
-        , size_(rhs.size_)
-        , max_size_max_(rhs.max_size_max_)
-    {
-        static_assert(std::is_nothrow_copy_constructible<UAlloc>::value,
-                      "Allocator must be nothrow copy constructible.");
-        rhs.size_     = 0;
-        rhs.capacity_ = 0;
-        rhs.data_     = nullptr;
-    }
-
-    template <typename UAlloc>
-    constexpr VariableLengthArrayBase(
-        VariableLengthArrayBase&& rhs,
-        const UAlloc&             rhs_alloc,
-        typename std::enable_if_t<!is_pocma_or_is_always_equal<UAlloc>::value>* = nullptr) noexcept
-        : alloc_(std::allocator_traits<UAlloc>::select_on_container_copy_construction(rhs_alloc))
-        , data_{nullptr}
-        , capacity_(0)
-        , size_(0)
-        , max_size_max_(rhs.max_size_max_)
-    {
-        static_assert(std::is_nothrow_copy_constructible<UAlloc>::value,
-                      "Allocator must be nothrow copy constructible.");
-        if (alloc_ == rhs.alloc_)
-        {
-            // The allocators may not always be equal, but they are this time.
-            data_     = std::move(rhs.data_);
-            capacity_ = rhs.capacity_;
-            size_     = rhs.size_;
-        }
-        else
-        {
-            // The allocators are not equal, so we need to move the data over
-            // manually.
-            if (rhs.size_ > 0)
-            {
-                data_ = std::allocator_traits<allocator_type>::allocate(alloc_, rhs.size_);
-                fast_forward_construct(data_, rhs.size_, rhs.data_, rhs.size_, alloc_);
-            }
-            capacity_ = rhs.capacity_;
-            size_     = rhs.size_;
-        }
-        rhs.size_     = 0;
-        rhs.capacity_ = 0;
-        rhs.data_     = nullptr;
-    }
-
     ~VariableLengthArrayBase() = default;
 
     // +----------------------------------------------------------------------+
@@ -1018,12 +990,13 @@ public:
     VariableLengthArray(const VariableLengthArray& rhs, const allocator_type& alloc)
         : Base(rhs, alloc)
     {
-        Base::reserve(rhs.size(), rhs.max_size());
+        reserve(rhs.size());
         size_ = Base::fast_copy_construct(data_, capacity_, rhs.data_, rhs.size_, alloc_);
     }
 
     VariableLengthArray(const VariableLengthArray& rhs)
-        : VariableLengthArray(rhs, rhs.alloc_)
+        : VariableLengthArray(rhs,
+                              std::allocator_traits<allocator_type>::select_on_container_copy_construction(rhs.alloc_))
     {
     }
 
@@ -1033,9 +1006,11 @@ public:
         return *this;
     }
 
-    VariableLengthArray(VariableLengthArray&& rhs, const allocator_type& alloc) noexcept
-        : Base(std::move(rhs), alloc)
+    VariableLengthArray(VariableLengthArray&& rhs, const allocator_type& alloc) noexcept(
+        std::allocator_traits<allocator_type>::is_always_equal::value)
+        : VariableLengthArray(rhs.max_size_max_, alloc)
     {
+        Base::move_construct_from(std::move(rhs), max_size());
     }
 
     VariableLengthArray(VariableLengthArray&& rhs) noexcept
@@ -1905,12 +1880,13 @@ public:
         : Base(rhs, alloc)
         , last_byte_bit_fill_{rhs.last_byte_bit_fill_}
     {
-        reserve_bits(rhs.size(), rhs.max_size());
+        reserve_bits(rhs.size(), max_size());
         size_ = Base::fast_copy_construct(data_, capacity_, rhs.data_, rhs.size_, alloc_);
     }
 
     VariableLengthArray(const VariableLengthArray& rhs)
-        : VariableLengthArray(rhs, rhs.alloc_)
+        : VariableLengthArray(rhs,
+                              std::allocator_traits<allocator_type>::select_on_container_copy_construction(rhs.alloc_))
     {
     }
 
@@ -1928,10 +1904,13 @@ public:
         rhs.last_byte_bit_fill_ = 0;
     }
 
-    VariableLengthArray(VariableLengthArray&& rhs, const allocator_type& alloc) noexcept
-        : Base(std::move(rhs), alloc)
-        , last_byte_bit_fill_{rhs.last_byte_bit_fill_}
+    VariableLengthArray(VariableLengthArray&& rhs, const allocator_type& alloc) noexcept(
+        std::allocator_traits<allocator_type>::is_always_equal::value)
+        : VariableLengthArray(rhs.max_size_max_, alloc)
     {
+        const size_type rhs_bits = rhs.size_bits();
+        Base::move_construct_from(std::move(rhs), bits2bytes(max_size()));
+        set_size_bits(rhs_bits);
         rhs.last_byte_bit_fill_ = 0;
     }
 
@@ -2455,6 +2434,13 @@ private:
         Base::reserve(bits2bytes(clamped_capacity), bits2bytes(max_size));
     }
 
+    /// The bytes of another array of `bits` bits were taken over, all of them or as many as there was memory for.
+    constexpr void set_size_bits(const size_type bits) noexcept
+    {
+        const bool complete = (size_ > 0) && (size_ == bits2bytes(bits));
+        last_byte_bit_fill_ = static_cast<Storage>(complete ? ((bits - 1U) % 8U) : ((size_ > 0) ? 7U : 0U));
+    }
+
     constexpr static size_type round8(const size_type value) noexcept
     {
         return (value + 7U) & ~static_cast<size_type>(7U);  // Careful, make sure the mask is long enough
-- 
2.43.0


From 3b919c24f931b5f14c840c4e551d5879af7e1a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:14 +0000
Subject: [PATCH 06/48] fix: keep the bit count of both arrays in step when bit
 arrays are assigned

---
 include/cetl/variable_length_array.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index f56aeda..f8e9efe 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -1878,10 +1878,11 @@ public:
     // +----------------------------------------------------------------------+
     VariableLengthArray(const VariableLengthArray& rhs, const allocator_type& alloc)
         : Base(rhs, alloc)
-        , last_byte_bit_fill_{rhs.last_byte_bit_fill_}
+        , last_byte_bit_fill_{0}
     {
         reserve_bits(rhs.size(), max_size());
         size_ = Base::fast_copy_construct(data_, capacity_, rhs.data_, rhs.size_, alloc_);
+        set_size_bits(rhs.size_bits());
     }
 
     VariableLengthArray(const VariableLengthArray& rhs)
@@ -1892,8 +1893,9 @@ public:
 
     VariableLengthArray& operator=(const VariableLengthArray& rhs)
     {
+        const size_type rhs_bits = rhs.size_bits();
         Base::copy_assign_from(rhs, rhs.max_size());
-        last_byte_bit_fill_ = rhs.last_byte_bit_fill_;
+        set_size_bits(rhs_bits);
         return *this;
     }
 
@@ -1918,8 +1920,13 @@ public:
         std::allocator_traits<allocator_type>::propagate_on_container_move_assignment::value ||
         std::allocator_traits<allocator_type>::is_always_equal::value)
     {
-        last_byte_bit_fill_ = rhs.last_byte_bit_fill_;
+        const size_type rhs_bits = rhs.size_bits();
         Base::template move_assign_from<allocator_type>(std::move(rhs), rhs.max_size());
+        set_size_bits(rhs_bits);
+        if (this != &rhs)
+        {
+            rhs.last_byte_bit_fill_ = 0;
+        }
         return *this;
     }
 
-- 
2.43.0


From b0be644445bb6955b819d8c548b8ab03e3047cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:14 +0000
Subject: [PATCH 07/48] fix: limit the growth of a bit array by bytes, not by
 bits

---
 include/cetl/variable_length_array.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index f8e9efe..fd070fc 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -2392,15 +2392,19 @@ public:
 private:
     constexpr bool ensure_size_plus_one()
     {
+        if (size_bits() >= max_size())
+        {
+            return false;
+        }
         if (capacity_ > 0 && (last_byte_bit_fill_ < 7 || size_ < capacity_))
         {
             // we have at least one byte of capacity (first allocation)
             // and we have room in the last byte or we have room for another byte
             // but we haven't reached the max
-            return size_bits() < max_size();
+            return true;
         }
 
-        return Base::grow(max_size());
+        return Base::grow(bits2bytes(max_size()));
     }
 
     constexpr bool emplace_back_impl(bool value)
-- 
2.43.0


From fd227ac4db6194aa5ab43d5e52d3ca70d4b401bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:14 +0000
Subject: [PATCH 08/48] fix: do not resize a bit array past memory that could
 not be obtained

---
 include/cetl/variable_length_array.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index fd070fc..07e3341 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -2333,11 +2333,13 @@ public:
         const std::size_t current_count = size_bits();
         if (clamped_count != current_count)
         {
-            const std::size_t byte_sized = bits2bytes(clamped_count);
-            if (byte_sized > capacity_)
+            if (bits2bytes(clamped_count) > capacity_)
             {
                 reserve_bits(clamped_count, max_size());
+                // No more than what we have got if there was no memory to get (and no exceptions to say so).
+                clamped_count = std::min(clamped_count, capacity_bits());
             }
+            const std::size_t byte_sized = bits2bytes(clamped_count);
             if (byte_sized == 0)
             {
                 size_               = 0;
-- 
2.43.0


From 501434bacf1dd230fddf8065a9166b6ea6fa8ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:12 +0000
Subject: [PATCH 09/48] fix: transfer the size limit on assignment consistently
 and never hold more than it allows

---
 include/cetl/variable_length_array.hpp | 79 +++++++++++++++++++-------
 1 file changed, 59 insertions(+), 20 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index 07e3341..a25871e 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -417,16 +417,20 @@ protected:
     // +----------------------------------------------------------------------+
     // | COPY ASSIGN IMPLEMENTATION
     // +----------------------------------------------------------------------+
-    constexpr void copy_assign_from(const VariableLengthArrayBase& rhs, const size_type rhs_max_size)
+    constexpr void copy_assign_from(const VariableLengthArrayBase& rhs, const size_type rhs_max_count)
     {
         if (this == &rhs)
         {
             return;
         }
-        max_size_max_ = rhs.max_size_max_;
+        // What we can hold once we have the limit, and perhaps the allocator, of the rhs.
+        const size_type max_count = max_count_for(
+            std::allocator_traits<allocator_type>::propagate_on_container_copy_assignment::value ? rhs.alloc_ : alloc_,
+            rhs_max_count);
+        throw_if_exceeds(rhs.size_, max_count);
         if ((std::allocator_traits<allocator_type>::is_always_equal::value || alloc_ == rhs.alloc_ ||
              !std::allocator_traits<allocator_type>::propagate_on_container_copy_assignment::value) &&
-            rhs.size_ <= capacity_)
+            rhs.size_ <= capacity_ && capacity_ <= max_count)
         {
             // First off, we're here because the incoming data will fit within our existing capacity.
 
@@ -452,7 +456,8 @@ protected:
                                     rhs.size_ - overlap,
                                     alloc_);
             }
-            size_ = rhs.size_;
+            size_         = rhs.size_;
+            max_size_max_ = rhs.max_size_max_;
         }
         else
         {
@@ -466,6 +471,7 @@ protected:
             data_                    = nullptr;
             capacity_                = 0;
             size_                    = 0;
+            max_size_max_            = rhs.max_size_max_;
             const size_type new_size = rhs.size_;
 
             // Also note that it doesn't matter if the allocators are equal or not since we just delete first using the
@@ -473,7 +479,7 @@ protected:
             // then allocate using the new (or not) allocator. If they are equal then this is all the same thing.
             // If they are not then we did it right anyway. All hail TMP!
             copy_assign_alloc(rhs.alloc_);
-            reserve(new_size, rhs_max_size);
+            reserve(new_size, max_count);
             size_ = fast_copy_construct(data_, capacity_, rhs.data_, new_size, alloc_);
         }
     }
@@ -489,10 +495,10 @@ protected:
     template <typename UAlloc>
     constexpr void move_assign_from(
         VariableLengthArrayBase&& rhs,
-        const size_type           rhs_max_size,
+        const size_type           rhs_max_count,
         typename std::enable_if_t<is_pocma_or_is_always_equal<UAlloc>::value>* = nullptr) noexcept
     {
-        (void) rhs_max_size;
+        (void) rhs_max_count;
 
         if (this == &rhs)
         {
@@ -513,7 +519,7 @@ protected:
 
     template <typename UAlloc>
     constexpr void move_assign_from(VariableLengthArrayBase&& rhs,
-                                    const size_type           rhs_max_size,
+                                    const size_type           rhs_max_count,
                                     typename std::enable_if_t<!is_pocma_or_is_always_equal<UAlloc>::value>* = nullptr)
     {
         if (this == &rhs)
@@ -541,7 +547,9 @@ protected:
         }
         else
         {
-            if (rhs.size_ <= capacity_)
+            const size_type max_count = max_count_for(alloc_, rhs_max_count);
+            throw_if_exceeds(rhs.size_, max_count);
+            if (rhs.size_ <= capacity_ && capacity_ <= max_count)
             {
                 // We're here because the incoming data will fit within our existing capacity and because we can't
                 // just move the memory from the rhs allocator since that allocator is neither equal to our own nor are
@@ -566,8 +574,10 @@ protected:
                                            rhs.size_ - overlap,
                                            alloc_);
                 }
-                size_ = rhs.size_;
-                rhs.resize(0, rhs_max_size);
+                size_         = rhs.size_;
+                max_size_max_ = rhs.max_size_max_;
+                fast_destroy(rhs.data_, rhs.size_);
+                rhs.size_ = 0;
                 // TODO: should we release the rhs capacity too?
             }
             else
@@ -579,17 +589,19 @@ protected:
                 // Transmutations that warm us.
                 // Residual heat, a validation of our agency.
                 fast_deallocate(data_, size_, capacity_, alloc_);
-                data_     = nullptr;
-                capacity_ = 0;
-                size_     = 0;
+                data_         = nullptr;
+                capacity_     = 0;
+                size_         = 0;
+                max_size_max_ = rhs.max_size_max_;
                 // Adieu! Adieu.
                 // ...
 
                 const size_type new_size = rhs.size_;
                 move_assign_alloc(rhs.alloc_);
-                reserve(new_size, rhs_max_size);
+                reserve(new_size, max_count);
                 size_ = fast_forward_construct(data_, capacity_, rhs.data_, new_size, alloc_);
-                rhs.resize(0, rhs_max_size);
+                fast_destroy(rhs.data_, rhs.size_);
+                rhs.size_ = 0;
             }
         }
     }
@@ -624,6 +636,28 @@ protected:
     // +----------------------------------------------------------------------+
     // | Common Implementation
     // +----------------------------------------------------------------------+
+    ///
+    /// The number of elements that can be stored given the limit of an array and its allocator.
+    ///
+    static constexpr size_type max_count_for(const allocator_type& alloc, const size_type max_count_max) noexcept
+    {
+        const size_type max_diff = std::numeric_limits<ptrdiff_t>::max() / sizeof(value_type);
+        return std::min(max_count_max, std::min(max_diff, std::allocator_traits<allocator_type>::max_size(alloc)));
+    }
+
+    static constexpr void throw_if_exceeds(const size_type count, const size_type max_count)
+    {
+#if defined(__cpp_exceptions)
+        if (count > max_count)
+        {
+            throw std::length_error("Requested size exceeds maximum size.");
+        }
+#else
+        (void) count;
+        (void) max_count;
+#endif
+    }
+
     ///
     /// Ensure enough memory is allocated to store at least the `desired_capacity` number of elements.
     ///
@@ -1002,7 +1036,7 @@ public:
 
     VariableLengthArray& operator=(const VariableLengthArray& rhs)
     {
-        Base::copy_assign_from(rhs, rhs.max_size());
+        Base::copy_assign_from(rhs, rhs.max_size_max_);
         return *this;
     }
 
@@ -1022,7 +1056,7 @@ public:
         std::allocator_traits<allocator_type>::propagate_on_container_move_assignment::value ||
         std::allocator_traits<allocator_type>::is_always_equal::value)
     {
-        Base::template move_assign_from<allocator_type>(std::move(rhs), rhs.max_size());
+        Base::template move_assign_from<allocator_type>(std::move(rhs), rhs.max_size_max_);
         return *this;
     }
 
@@ -1894,7 +1928,7 @@ public:
     VariableLengthArray& operator=(const VariableLengthArray& rhs)
     {
         const size_type rhs_bits = rhs.size_bits();
-        Base::copy_assign_from(rhs, rhs.max_size());
+        Base::copy_assign_from(rhs, rhs.max_size_max_bytes());
         set_size_bits(rhs_bits);
         return *this;
     }
@@ -1921,7 +1955,7 @@ public:
         std::allocator_traits<allocator_type>::is_always_equal::value)
     {
         const size_type rhs_bits = rhs.size_bits();
-        Base::template move_assign_from<allocator_type>(std::move(rhs), rhs.max_size());
+        Base::template move_assign_from<allocator_type>(std::move(rhs), rhs.max_size_max_bytes());
         set_size_bits(rhs_bits);
         if (this != &rhs)
         {
@@ -2481,6 +2515,11 @@ private:
         return max_size_max_;
     }
 
+    constexpr size_type max_size_max_bytes() const noexcept
+    {
+        return (max_size_max_ / 8U) + (((max_size_max_ % 8U) != 0U) ? 1U : 0U);
+    }
+
     constexpr size_type capacity_bits() const noexcept
     {
         return capacity_ * 8U;
-- 
2.43.0


From 4ddd8fc47bf20d79665efb162bdab5049610542b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:57 +0000
Subject: [PATCH 10/48] fix: destroy elements and return memory when
 constructing an element throws

---
 include/cetl/variable_length_array.hpp | 78 +++++++++++++++++++++-----
 1 file changed, 63 insertions(+), 15 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index a25871e..2b8a30f 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -220,6 +220,47 @@ protected:
             src[--dtor_iterator].~U();
         }
     }
+
+    ///
+    /// Destroys what was constructed so far, and returns the memory it is in if asked to, unless it was dismissed.
+    ///
+    struct ConstructionGuard final
+    {
+        ConstructionGuard(value_type* const data, allocator_type& alloc, const size_type allocated_count) noexcept
+            : data_{data}
+            , alloc_{alloc}
+            , allocated_count_{allocated_count}
+        {
+        }
+        ConstructionGuard(const ConstructionGuard&)            = delete;
+        ConstructionGuard(ConstructionGuard&&)                 = delete;
+        ConstructionGuard& operator=(const ConstructionGuard&) = delete;
+        ConstructionGuard& operator=(ConstructionGuard&&)      = delete;
+        ~ConstructionGuard()
+        {
+            fast_destroy(data_, constructed_count_);
+            if (allocated_count_ > 0)
+            {
+                alloc_.deallocate(data_, allocated_count_);
+            }
+        }
+        void constructed() noexcept
+        {
+            ++constructed_count_;
+        }
+        void dismiss() noexcept
+        {
+            constructed_count_ = 0;
+            allocated_count_   = 0;
+        }
+
+    private:
+        value_type* const data_;
+        allocator_type&   alloc_;
+        size_type         allocated_count_;
+        size_type         constructed_count_{0};
+    };
+
     // +----------------------------------------------------------------------+
     // | deallocation support
     // +----------------------------------------------------------------------+
@@ -261,8 +302,7 @@ protected:
     /// @return the number of elements copied.
     ///
     template <typename InputIt>
-    static constexpr size_type fast_copy_assign(value_type* dst, size_type dst_capacity_count, InputIt src) noexcept(
-        noexcept(std::is_nothrow_assignable<value_type, std::remove_pointer_t<InputIt>>::value))
+    static constexpr size_type fast_copy_assign(value_type* dst, size_type dst_capacity_count, InputIt src)
     {
         if (nullptr == dst)
         {
@@ -277,12 +317,10 @@ protected:
     /// @return the number of elements copied.
     ///
     template <typename InputIt>
-    static constexpr size_type fast_copy_assign(
-        value_type* dst,
-        size_type   dst_capacity_count,
-        InputIt     src,
-        size_type   src_len_count) noexcept(noexcept(std::is_nothrow_assignable<value_type,
-                                                                              std::remove_pointer_t<InputIt>>::value))
+    static constexpr size_type fast_copy_assign(value_type* dst,
+                                                size_type   dst_capacity_count,
+                                                InputIt     src,
+                                                size_type   src_len_count)
     {
         if (nullptr == dst || nullptr == src)
         {
@@ -335,13 +373,16 @@ protected:
                                                      std::declval<std::add_lvalue_reference_t<
                                                          decltype(std::declval<const InputIt>()[0])>>())))
     {
-        const size_type max_copy_size = std::min(dst_capacity_count, src_len_count);
+        const size_type   max_copy_size = std::min(dst_capacity_count, src_len_count);
+        ConstructionGuard guard{dst, alloc, 0};
         for (size_type i = 0; i < max_copy_size; ++i)
         {
             std::allocator_traits<allocator_type>::construct(alloc,
                                                              &dst[static_cast<difference_type>(i)],
                                                              src[static_cast<difference_type>(i)]);
+            guard.constructed();
         }
+        guard.dismiss();
         return max_copy_size;
     }
 
@@ -373,11 +414,14 @@ protected:
         typename std::enable_if_t<
             !is_array_of_type_trivially_copyable<std::add_pointer_t<value_type>, InputIt>::value>* = nullptr)
     {
-        const size_type max_copy_size = std::min(dst_capacity_count, src_len_count);
+        const size_type   max_copy_size = std::min(dst_capacity_count, src_len_count);
+        ConstructionGuard guard{dst, alloc, 0};
         for (size_type i = 0; i < max_copy_size; ++i)
         {
             std::allocator_traits<allocator_type>::construct(alloc, &dst[i], std::move_if_noexcept(src[i]));
+            guard.constructed();
         }
+        guard.dismiss();
         return max_copy_size;
     }
 
@@ -699,7 +743,9 @@ protected:
             new_data = std::allocator_traits<allocator_type>::allocate(alloc_, no_shrink_capacity);
             if (nullptr != new_data)
             {
+                ConstructionGuard guard{new_data, alloc_, no_shrink_capacity};
                 fast_forward_construct(new_data, no_shrink_capacity, data_, size_, alloc_);
+                guard.dismiss();
                 fast_deallocate(data_, size_, capacity_, alloc_);
                 data_     = new_data;
                 capacity_ = no_shrink_capacity;
@@ -728,9 +774,9 @@ protected:
                 }
 #endif
             }
-            for (std::size_t i = size_; i < new_size; ++i)
+            for (; size_ < new_size; ++size_)
             {
-                std::allocator_traits<allocator_type>::construct(alloc_, &data_[i], std::forward<Args>(args)...);
+                std::allocator_traits<allocator_type>::construct(alloc_, &data_[size_], std::forward<Args>(args)...);
             }
         }
         else
@@ -782,7 +828,9 @@ protected:
         {
             if (minimized_data != data_)
             {
+                ConstructionGuard guard{minimized_data, alloc_, size_};
                 fast_forward_construct(minimized_data, size_, data_, size_, alloc_);
+                guard.dismiss();
                 fast_deallocate(data_, size_, capacity_, alloc_);
             }  // else the allocator was able to simply shrink the reserved area for the same memory pointer.
             data_     = minimized_data;
@@ -970,7 +1018,7 @@ public:
     ///                     `std::min(max_size_max, std::allocator_traits<allocator_type>::max_size(alloc))`
     /// @param alloc Allocator to use for all allocations.
     VariableLengthArray(std::initializer_list<value_type> l, size_type max_size_max, const allocator_type& alloc)
-        : Base(alloc, nullptr, 0, 0, max_size_max)
+        : VariableLengthArray(max_size_max, alloc)
     {
         reserve(l.size());
         size_ = Base::fast_copy_construct(data_, capacity_, l.begin(), l.size(), alloc_);
@@ -994,7 +1042,7 @@ public:
     /// @param alloc    Allocator to use for all allocations.
     template <class InputIt>
     VariableLengthArray(InputIt first, InputIt last, size_type max_size_max, const allocator_type& alloc)
-        : Base(alloc, nullptr, 0, 0, max_size_max)
+        : VariableLengthArray(max_size_max, alloc)
     {
         if (last >= first)
         {
@@ -1022,7 +1070,7 @@ public:
     // | RULE OF FIVE
     // +----------------------------------------------------------------------+
     VariableLengthArray(const VariableLengthArray& rhs, const allocator_type& alloc)
-        : Base(rhs, alloc)
+        : VariableLengthArray(rhs.max_size_max_, alloc)
     {
         reserve(rhs.size());
         size_ = Base::fast_copy_construct(data_, capacity_, rhs.data_, rhs.size_, alloc_);
-- 
2.43.0


From 19377c86bb2ee9e7247c6b6c6330c44c24b32896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:01 +0000
Subject: [PATCH 11/48] fix: keep a bit array consistent when an assignment to
 it fails

---
 include/cetl/variable_length_array.hpp | 29 ++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index 2b8a30f..ed8651d 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -1975,7 +1975,8 @@ public:
 
     VariableLengthArray& operator=(const VariableLengthArray& rhs)
     {
-        const size_type rhs_bits = rhs.size_bits();
+        const EmptyGuard guard{*this};
+        const size_type  rhs_bits = rhs.size_bits();
         Base::copy_assign_from(rhs, rhs.max_size_max_bytes());
         set_size_bits(rhs_bits);
         return *this;
@@ -2002,7 +2003,8 @@ public:
         std::allocator_traits<allocator_type>::propagate_on_container_move_assignment::value ||
         std::allocator_traits<allocator_type>::is_always_equal::value)
     {
-        const size_type rhs_bits = rhs.size_bits();
+        const EmptyGuard guard{*this};
+        const size_type  rhs_bits = rhs.size_bits();
         Base::template move_assign_from<allocator_type>(std::move(rhs), rhs.max_size_max_bytes());
         set_size_bits(rhs_bits);
         if (this != &rhs)
@@ -2529,6 +2531,29 @@ private:
         Base::reserve(bits2bytes(clamped_capacity), bits2bytes(max_size));
     }
 
+    /// Leaves no bits behind in an array that lost its bytes, in particular when it could not get others in exchange.
+    struct EmptyGuard final
+    {
+        explicit EmptyGuard(VariableLengthArray& array) noexcept
+            : array_(array)
+        {
+        }
+        EmptyGuard(const EmptyGuard&)            = delete;
+        EmptyGuard(EmptyGuard&&)                 = delete;
+        EmptyGuard& operator=(const EmptyGuard&) = delete;
+        EmptyGuard& operator=(EmptyGuard&&)      = delete;
+        ~EmptyGuard()
+        {
+            if (array_.size_ == 0)
+            {
+                array_.last_byte_bit_fill_ = 0;
+            }
+        }
+
+    private:
+        VariableLengthArray& array_;
+    };
+
     /// The bytes of another array of `bits` bits were taken over, all of them or as many as there was memory for.
     constexpr void set_size_bits(const size_type bits) noexcept
     {
-- 
2.43.0


From cd1dfd995abcf191fbd474976a93ffd41380980d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:38:07 +0000
Subject: [PATCH 12/48] fix: copy and move an unbounded_variant that lost its
 value

Copying or moving a variant that is valueless by exception called a null
copy or move handler. The result is now a valueless variant as well.
---
 include/cetl/unbounded_variant.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/cetl/unbounded_variant.hpp b/include/cetl/unbounded_variant.hpp
index f36dc41..7665d15 100644
--- a/include/cetl/unbounded_variant.hpp
+++ b/include/cetl/unbounded_variant.hpp
@@ -128,13 +128,13 @@ struct base_storage<void /*Pmr*/, Footprint, Alignment>
         return inplace_buffer_;
     }
 
-    CETL_NODISCARD bool copy_raw_storage_from(const base_storage& src) noexcept
+    CETL_NODISCARD bool copy_raw_storage_from(const base_storage& src, const bool src_has_value) noexcept
     {
         CETL_DEBUG_ASSERT(0UL == value_size_, "This object is expected to be a brand new (or reset) one.");
 
         value_size_ = src.value_size_;
 
-        return value_size_ > 0UL;
+        return src_has_value;
     }
 
     CETL_NODISCARD bool move_raw_storage_from(base_storage& src) noexcept
@@ -255,7 +255,7 @@ struct base_storage<Pmr, 0UL /*Footprint*/, Alignment>
         return allocated_buffer_;
     }
 
-    CETL_NODISCARD bool copy_raw_storage_from(const base_storage& src)
+    CETL_NODISCARD bool copy_raw_storage_from(const base_storage& src, const bool src_has_value)
     {
         CETL_DEBUG_ASSERT((0UL == value_size_) && (nullptr == allocated_buffer_),
                           "This object is expected to be a brand new (or reset) one.");
@@ -263,8 +263,10 @@ struct base_storage<Pmr, 0UL /*Footprint*/, Alignment>
         mem_res_ = src.get_memory_resource();
 
         // We don't allocate buffer for the valueless variant.
-        if (src.value_size_ == 0UL)
+        if (!src_has_value)
         {
+            value_size_ = src.value_size_;
+
             // Later we don't need to call copy-ctor for the valueless variant.
             return false;
         }
@@ -417,7 +419,7 @@ struct base_storage
         return allocated_buffer_;
     }
 
-    CETL_NODISCARD bool copy_raw_storage_from(const base_storage& src)
+    CETL_NODISCARD bool copy_raw_storage_from(const base_storage& src, const bool src_has_value)
     {
         CETL_DEBUG_ASSERT((0UL == value_size_) && (nullptr == allocated_buffer_),
                           "This object is expected to be a brand new (or reset) one.");
@@ -425,8 +427,10 @@ struct base_storage
         mem_res_ = src.get_memory_resource();
 
         // We don't even try to allocate buffer for the valueless variant.
-        if (src.value_size_ == 0UL)
+        if (!src_has_value)
         {
+            value_size_ = src.value_size_;
+
             // Later we don't need to call copy-ctor for the valueless variant.
             return false;
         }
@@ -903,7 +907,7 @@ private:
     {
         CETL_DEBUG_ASSERT(!base::has_value(), "Expected to be empty before copying from source.");
 
-        if (base::copy_raw_storage_from(src))
+        if (base::copy_raw_storage_from(src, src.has_value()))
         {
             CETL_DEBUG_ASSERT(nullptr != src.value_copier_, "");
 
@@ -991,7 +995,7 @@ private:
     {
         CETL_DEBUG_ASSERT(!base::has_value(), "Expected to be empty before moving from source.");
 
-        if (base::move_raw_storage_from(src))
+        if (base::move_raw_storage_from(src) && src.has_value())
         {
             CETL_DEBUG_ASSERT(nullptr != src.value_mover_, "");
 
-- 
2.43.0


From 9a7082e56fb775e139c2ae0628d0a93956dae150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:38:39 +0000
Subject: [PATCH 13/48] fix: swap of an unbounded_variant that lost its value

A side that is valueless by exception may still own a buffer. Swapping
leaked the buffer, or later returned it to the other memory resource.
---
 include/cetl/unbounded_variant.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/cetl/unbounded_variant.hpp b/include/cetl/unbounded_variant.hpp
index 7665d15..313c23e 100644
--- a/include/cetl/unbounded_variant.hpp
+++ b/include/cetl/unbounded_variant.hpp
@@ -1348,6 +1348,16 @@ public:
             return;
         }
 
+        // A side that lost its value may still own a buffer of its memory resource.
+        if (!has_value())
+        {
+            reset();
+        }
+        if (!rhs.has_value())
+        {
+            rhs.reset();
+        }
+
         swapVariants(detail::IsPmr<Pmr>{}, IsMovableT{}, rhs);
     }
 
-- 
2.43.0


From a5ef3cdcc13797134bcfe0cf2a122c0f975dc779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:40:04 +0000
Subject: [PATCH 14/48] fix: return the buffer of an unbounded_variant whose
 construction failed

When the value passed to a constructor, or the copied value, threw while
being constructed in memory of a resource, the block was never returned.
---
 include/cetl/unbounded_variant.hpp | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/include/cetl/unbounded_variant.hpp b/include/cetl/unbounded_variant.hpp
index 313c23e..b4c7d69 100644
--- a/include/cetl/unbounded_variant.hpp
+++ b/include/cetl/unbounded_variant.hpp
@@ -201,6 +201,20 @@ struct base_storage<Pmr, 0UL /*Footprint*/, Alignment>
         CETL_DEBUG_ASSERT(nullptr != mem_res_, "");
     }
 
+    base_storage(const base_storage&)            = delete;
+    base_storage(base_storage&&)                 = delete;
+    base_storage& operator=(const base_storage&) = delete;
+    base_storage& operator=(base_storage&&)      = delete;
+
+    ~base_storage()
+    {
+        // There is still a buffer only if construction of the very first value has failed.
+        if (nullptr != allocated_buffer_)
+        {
+            mem_res_->deallocate(allocated_buffer_, value_size_, Alignment);
+        }
+    }
+
     template <typename Tp>
     void check_footprint() const noexcept
     {
@@ -360,6 +374,20 @@ struct base_storage
         CETL_DEBUG_ASSERT(nullptr != mem_res_, "");
     }
 
+    base_storage(const base_storage&)            = delete;
+    base_storage(base_storage&&)                 = delete;
+    base_storage& operator=(const base_storage&) = delete;
+    base_storage& operator=(base_storage&&)      = delete;
+
+    ~base_storage()
+    {
+        // There is still a buffer only if construction of the very first value has failed.
+        if (nullptr != allocated_buffer_)
+        {
+            mem_res_->deallocate(allocated_buffer_, value_size_, Alignment);
+        }
+    }
+
     template <typename Tp>
     void check_footprint() const noexcept
     {
-- 
2.43.0


From ba764b9b54bc17e98041f0aefa02ad4bf18b6c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:57:23 +0000
Subject: [PATCH 15/48] fix: Forget the old target of a function before an
 assignment which may fail

When assigning a new target threw after the old one had been destroyed,
the wrapper kept a pointer to the destroyed target. The next test for
emptiness then stopped at its assertion.
---
 include/cetl/pmr/function.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/cetl/pmr/function.hpp b/include/cetl/pmr/function.hpp
index 2b99bc3..4097dd0 100644
--- a/include/cetl/pmr/function.hpp
+++ b/include/cetl/pmr/function.hpp
@@ -201,7 +201,11 @@ public:
               typename              = EnableIfLvIsCallable<FunctorDecay>>
     function& operator=(Functor&& functor)
     {
-        any_handler_ = detail::functor_handler<FunctorDecay, Result, Args...>{std::forward<Functor>(functor)};
+        detail::functor_handler<FunctorDecay, Result, Args...> handler{std::forward<Functor>(functor)};
+
+        // The assignment destroys the current target, and may fail (throw) after that.
+        handler_ptr_ = nullptr;
+        any_handler_ = std::move(handler);
         handler_ptr_ = get_if<handler_t>(&any_handler_);
         return *this;
     }
@@ -214,6 +218,8 @@ public:
     {
         if (this != &other)
         {
+            // The assignment destroys the current target, and may fail (throw) after that.
+            handler_ptr_ = nullptr;
             any_handler_ = other.any_handler_;
             handler_ptr_ = get_if<handler_t>(&any_handler_);
         }
-- 
2.43.0


From 160cc00848787ac21d8223479e3732de766f16e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:10:26 +0000
Subject: [PATCH 16/48] fix: Let owners made by the factory be assigned and
 swapped

The deleter assigned its polymorphic allocator, which has no assignment
operator, so neither assigning nor swapping the unique pointers compiled.
---
 include/cetl/pmr/memory.hpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/include/cetl/pmr/memory.hpp b/include/cetl/pmr/memory.hpp
index be4e333..0e6e707 100644
--- a/include/cetl/pmr/memory.hpp
+++ b/include/cetl/pmr/memory.hpp
@@ -15,6 +15,7 @@
 #endif
 
 #include <memory>
+#include <new>
 #include <utility>
 #include <cstddef>  // for std::max_align_t
 
@@ -168,10 +169,9 @@ public:
     }
 
     PolymorphicDeleter& operator=(PolymorphicDeleter&& rhs) noexcept(
-        std::is_nothrow_move_assignable<PolymorphicDeallocator>::value)
+        std::is_nothrow_copy_constructible<PolymorphicDeallocator>::value)
     {
-        alloc_     = rhs.alloc_;
-        obj_count_ = rhs.obj_count_;
+        assign(rhs);
         return *this;
     }
 
@@ -182,10 +182,9 @@ public:
     {
     }
     PolymorphicDeleter& operator=(const PolymorphicDeleter& rhs) noexcept(
-        std::is_nothrow_copy_assignable<PolymorphicDeallocator>::value)
+        std::is_nothrow_copy_constructible<PolymorphicDeallocator>::value)
     {
-        alloc_     = rhs.alloc_;
-        obj_count_ = rhs.obj_count_;
+        assign(rhs);
         return *this;
     }
 
@@ -203,6 +202,18 @@ public:
     }
 
 private:
+    // Polymorphic allocators can't be assigned, only copy constructed.
+    void assign(const PolymorphicDeleter& rhs)
+    {
+        if (this != &rhs)
+        {
+            PolymorphicDeallocator alloc{rhs.alloc_};
+            alloc_.~PolymorphicDeallocator();
+            new (&alloc_) PolymorphicDeallocator(std::move(alloc));
+            obj_count_ = rhs.obj_count_;
+        }
+    }
+
     PolymorphicDeallocator alloc_;
     std::size_t            obj_count_;
 };
-- 
2.43.0


From 37c42cc0321b9d91aaa6265fb7a346a17c1aee7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:10:26 +0000
Subject: [PATCH 17/48] fix: Keep the memory resource of a deleter when it is
 moved to itself

Move assignment of a unique pointer to itself lost the resource, so its
memory was never returned.
---
 include/cetl/pmr/memory.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cetl/pmr/memory.hpp b/include/cetl/pmr/memory.hpp
index 0e6e707..69d82bb 100644
--- a/include/cetl/pmr/memory.hpp
+++ b/include/cetl/pmr/memory.hpp
@@ -70,7 +70,10 @@ public:
     /// @return Reference to this.
     MemoryResourceDeleter& operator=(MemoryResourceDeleter&& rhs) noexcept
     {
-        swap(std::move(rhs));
+        if (this != &rhs)
+        {
+            swap(std::move(rhs));
+        }
         return *this;
     }
 
-- 
2.43.0


From 88d9fcdf6a02d513dcd96dae12930b91edb61d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:11:51 +0000
Subject: [PATCH 18/48] fix: Do not destroy an object the factory failed to
 construct

When the constructor threw, the unique pointer that already owned the
memory ran the destructor of an object that did not exist.
---
 include/cetl/pmr/memory.hpp | 37 +++++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/include/cetl/pmr/memory.hpp b/include/cetl/pmr/memory.hpp
index 69d82bb..86c2b1c 100644
--- a/include/cetl/pmr/memory.hpp
+++ b/include/cetl/pmr/memory.hpp
@@ -249,14 +249,43 @@ public:
     static auto make_unique(PolymorphicAllocatorTypeU& alloc, Args&&... args) ->
         typename Factory::unique_ptr_t<PolymorphicAllocatorTypeU>
     {
-        typename Factory::unique_ptr_t<PolymorphicAllocatorTypeU>
-            p{alloc.allocate(1), typename Factory::unique_ptr_t<PolymorphicAllocatorTypeU>::deleter_type{alloc, 1}};
-        if (nullptr != p)
+        // The memory is owned, but there is nothing to destroy in it until the object has been constructed.
+        Memory<PolymorphicAllocatorTypeU> memory{alloc};
+        if (nullptr != memory.ptr)
         {
-            alloc.construct(p.get(), std::forward<Args>(args)...);
+            alloc.construct(memory.ptr, std::forward<Args>(args)...);
         }
+        typename Factory::unique_ptr_t<PolymorphicAllocatorTypeU>
+            p{memory.ptr, typename Factory::unique_ptr_t<PolymorphicAllocatorTypeU>::deleter_type{alloc, 1}};
+        memory.ptr = nullptr;
         return p;
     }
+
+private:
+    // Returns the memory of an object whose construction failed (threw).
+    template <typename PolymorphicAllocatorTypeU>
+    struct Memory final
+    {
+        explicit Memory(PolymorphicAllocatorTypeU& allocator)
+            : alloc{allocator}
+            , ptr{allocator.allocate(1)}
+        {
+        }
+        ~Memory()
+        {
+            if (nullptr != ptr)
+            {
+                alloc.deallocate(ptr, 1);
+            }
+        }
+        Memory(const Memory&)                = delete;
+        Memory(Memory&&) noexcept            = delete;
+        Memory& operator=(const Memory&)     = delete;
+        Memory& operator=(Memory&&) noexcept = delete;
+
+        PolymorphicAllocatorTypeU&                     alloc;
+        typename PolymorphicAllocatorTypeU::value_type* ptr;
+    };
 };
 
 }  // namespace pmr
-- 
2.43.0


From 3788482edf8931f78708cc9eb0b6ad2a061c57ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:11:51 +0000
Subject: [PATCH 19/48] fix: Destroy all objects of a deleter made for several
 of them

Only the first one was destroyed before the memory of all was returned.
---
 include/cetl/pmr/memory.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cetl/pmr/memory.hpp b/include/cetl/pmr/memory.hpp
index 86c2b1c..bc44ae0 100644
--- a/include/cetl/pmr/memory.hpp
+++ b/include/cetl/pmr/memory.hpp
@@ -199,7 +199,10 @@ public:
         {
             // while pmr allocators define a destroy method, it is deprecated in C++20
             // since it adds little value over simply calling the destructor directly.
-            p->~value_type();
+            for (std::size_t i = 0; i < obj_count_; ++i)
+            {
+                p[i].~value_type();
+            }
         }
         alloc_.deallocate(p, obj_count_);
     }
-- 
2.43.0


From ebd8b9b599f9cff69cd02a125a47012c2d3046fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:18:34 +0000
Subject: [PATCH 20/48] fix: Align the control structures of a monotonic buffer
 resource

They were placed in memory obtained with the alignment of the request
only, which may be smaller than the alignment they need.
---
 include/cetl/pf17/memory_resource.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/cetl/pf17/memory_resource.hpp b/include/cetl/pf17/memory_resource.hpp
index e718ba2..344122d 100644
--- a/include/cetl/pf17/memory_resource.hpp
+++ b/include/cetl/pf17/memory_resource.hpp
@@ -693,7 +693,10 @@ protected:
             // Simple geometric progression of buffer size growth.
             const std::size_t next_buffer_size = std::min(max_size_v, grow_from_size + (grow_from_size / 2U));
 
-            void* raw = upstream_->allocate(sizeof(BufferControl) + next_buffer_size, alignment);
+            // The control structure is placed at the start of the memory, so it has to be aligned as well.
+            const std::size_t next_buffer_align = std::max(alignment, alignof(BufferControl));
+
+            void* raw = upstream_->allocate(sizeof(BufferControl) + next_buffer_size, next_buffer_align);
             if (nullptr == raw)
             {
                 // out-of-memory with no exceptions.
@@ -701,7 +704,7 @@ protected:
             }
             void* buffer = &static_cast<BufferControl*>(raw)[1];
             current_buffer_ =
-                new (raw) BufferControl{buffer, next_buffer_size, alignment, next_buffer_size, current_buffer_};
+                new (raw) BufferControl{buffer, next_buffer_size, next_buffer_align, next_buffer_size, current_buffer_};
 
             result = do_allocate_from_current_buffer(size_bytes, alignment);
         }
-- 
2.43.0


From 24da670b0fb4b541da8166bddd37859df2d57174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:38:31 +0000
Subject: [PATCH 21/48] fix: Refuse requests a monotonic buffer resource cannot
 represent

The size of the next buffer wrapped around for very large requests, so a
buffer too small even for its control structure was written to, or
upstream was asked again and again.
---
 include/cetl/pf17/memory_resource.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/cetl/pf17/memory_resource.hpp b/include/cetl/pf17/memory_resource.hpp
index 344122d..5232bc0 100644
--- a/include/cetl/pf17/memory_resource.hpp
+++ b/include/cetl/pf17/memory_resource.hpp
@@ -685,13 +685,25 @@ protected:
 
         while (nullptr == result)
         {
+            // No buffer can be larger than this, together with its control structure.
+            constexpr std::size_t size_limit = std::numeric_limits<std::size_t>::max() - sizeof(BufferControl);
+            if ((size_bytes > size_limit) || (alignment > (size_limit - size_bytes)))
+            {
+#if defined(__cpp_exceptions)
+                throw std::bad_alloc();
+#endif
+                break;
+            }
+
             // Grow the buffer starting with, at minimum 4 bytes, the current buffer size, or the requested size
             // plus alignment, whichever is larger.
             const std::size_t grow_from_size =
-                std::max({static_cast<std::size_t>(4), current_buffer_->buffer_size, size_bytes + alignment});
+                std::min(size_limit,
+                         std::max({static_cast<std::size_t>(4), current_buffer_->buffer_size, size_bytes + alignment}));
 
             // Simple geometric progression of buffer size growth.
-            const std::size_t next_buffer_size = std::min(max_size_v, grow_from_size + (grow_from_size / 2U));
+            const std::size_t grow_by_size     = std::min(grow_from_size / 2U, size_limit - grow_from_size);
+            const std::size_t next_buffer_size = std::min(max_size_v, grow_from_size + grow_by_size);
 
             // The control structure is placed at the start of the memory, so it has to be aligned as well.
             const std::size_t next_buffer_align = std::max(alignment, alignof(BufferControl));
-- 
2.43.0


From 9a5d5dab27e80d03bdb111634cbc6990bc4c39cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:40 +0000
Subject: [PATCH 22/48] fix: let an optional convert implicitly from an lvalue
 of its value type

---
 include/cetl/pf17/optional.hpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/cetl/pf17/optional.hpp b/include/cetl/pf17/optional.hpp
index 19b2e94..5a3e742 100644
--- a/include/cetl/pf17/optional.hpp
+++ b/include/cetl/pf17/optional.hpp
@@ -307,6 +307,10 @@ constexpr bool assignable = std::is_assignable<T, F&>::value ||        //
                             std::is_assignable<T, const F&>::value ||  //
                             std::is_assignable<T, F&&>::value ||       //
                             std::is_assignable<T, const F&&>::value;
+/// True if F converts to T implicitly. The second alternative is for C++14, see the caveat above; alone it would not
+/// do because T&& does not bind to an lvalue of T.
+template <typename F, typename T>
+constexpr bool implicitly_convertible = std::is_convertible<F, T>::value || std::is_convertible<F, T&&>::value;
 /// True if T is a specialization of optional.
 template <typename T>
 struct is_optional : std::false_type
@@ -320,14 +324,14 @@ struct is_optional<optional<T>> : std::true_type
 /// so we use std::is_convertible<F, T&&> instead.
 /// The specification of std::optional<> prescribes the use of T over T&& because it is written for C++17.
 template <typename T, typename U, bool Explicit>
-constexpr bool enable_ctor4 = (!std::is_same<bool, std::decay_t<T>>::value) &&            //
-                              std::is_constructible<T, const U&>::value &&                //
-                              (std::is_convertible<const U&, T&&>::value != Explicit) &&  //
+constexpr bool enable_ctor4 = (!std::is_same<bool, std::decay_t<T>>::value) &&        //
+                              std::is_constructible<T, const U&>::value &&            //
+                              (implicitly_convertible<const U&, T> != Explicit) &&    //
                               !convertible<T, optional<U>>;
 template <typename T, typename U, bool Explicit>
-constexpr bool enable_ctor5 = (!std::is_same<bool, std::decay_t<T>>::value) &&       //
-                              std::is_constructible<T, U&&>::value &&                //
-                              (std::is_convertible<U&&, T&&>::value != Explicit) &&  //
+constexpr bool enable_ctor5 = (!std::is_same<bool, std::decay_t<T>>::value) &&  //
+                              std::is_constructible<T, U&&>::value &&           //
+                              (implicitly_convertible<U&&, T> != Explicit) &&   //
                               !convertible<T, optional<U>>;
 template <typename T, typename U, bool Explicit>
 constexpr bool enable_ctor8 =
@@ -335,7 +339,7 @@ constexpr bool enable_ctor8 =
     (!std::is_same<std::decay_t<U>, in_place_t>::value) &&                                     //
     (!std::is_same<std::decay_t<U>, optional<T>>::value) &&                                    //
     (!(std::is_same<std::decay_t<T>, bool>::value && is_optional<std::decay_t<U>>::value)) &&  //
-    (std::is_convertible<U&&, T&&>::value != Explicit);
+    (implicitly_convertible<U&&, T> != Explicit);
 
 template <typename Expression>
 using enable_comparison = std::enable_if_t<std::is_convertible<Expression, bool>::value, bool>;
-- 
2.43.0


From 150028248a581a6a42435cc8298f427fa9ae21c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:56:26 +0000
Subject: [PATCH 23/48] fix: let exceptions of the value out of copies and
 moves of an optional

---
 include/cetl/pf17/optional.hpp | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/include/cetl/pf17/optional.hpp b/include/cetl/pf17/optional.hpp
index 5a3e742..81d7654 100644
--- a/include/cetl/pf17/optional.hpp
+++ b/include/cetl/pf17/optional.hpp
@@ -128,10 +128,10 @@ struct base_destruction<T, false>
             new (std::addressof(m_value)) T(std::forward<U>(other).m_value);
         }
     }
-    constexpr base_destruction(const base_destruction&) noexcept            = default;
-    constexpr base_destruction(base_destruction&&) noexcept                 = default;
-    constexpr base_destruction& operator=(const base_destruction&) noexcept = default;
-    constexpr base_destruction& operator=(base_destruction&&) noexcept      = default;
+    constexpr base_destruction(const base_destruction&)            = default;
+    constexpr base_destruction(base_destruction&&)                 = default;
+    constexpr base_destruction& operator=(const base_destruction&) = default;
+    constexpr base_destruction& operator=(base_destruction&&)      = default;
     ~base_destruction() noexcept
     {
         reset();
@@ -172,9 +172,9 @@ struct base_copy_construction<T, false> : base_destruction<T>
         : base_destruction<T>(copy_tag{}, other)
     {
     }
-    constexpr base_copy_construction(base_copy_construction&&) noexcept                 = default;
-    constexpr base_copy_construction& operator=(const base_copy_construction&) noexcept = default;
-    constexpr base_copy_construction& operator=(base_copy_construction&&) noexcept      = default;
+    constexpr base_copy_construction(base_copy_construction&&)                 = default;
+    constexpr base_copy_construction& operator=(const base_copy_construction&) = default;
+    constexpr base_copy_construction& operator=(base_copy_construction&&)      = default;
     ~base_copy_construction() noexcept                                                  = default;
 };
 
@@ -193,14 +193,14 @@ struct base_move_construction<T, false> : base_copy_construction<T>
 {
     using base_copy_construction<T>::base_copy_construction;
     constexpr base_move_construction() noexcept                              = default;
-    constexpr base_move_construction(const base_move_construction&) noexcept = default;
+    constexpr base_move_construction(const base_move_construction&) = default;
     constexpr base_move_construction(base_move_construction&& other) noexcept(
         std::is_nothrow_move_constructible<T>::value)
         : base_copy_construction<T>(copy_tag{}, std::move(other))
     {
     }
-    constexpr base_move_construction& operator=(const base_move_construction&) noexcept = default;
-    constexpr base_move_construction& operator=(base_move_construction&&) noexcept      = default;
+    constexpr base_move_construction& operator=(const base_move_construction&) = default;
+    constexpr base_move_construction& operator=(base_move_construction&&)      = default;
     ~base_move_construction() noexcept                                                  = default;
 };
 
@@ -222,8 +222,8 @@ struct base_copy_assignment<T, false> : base_move_construction<T>
 {
     using base_move_construction<T>::base_move_construction;
     constexpr base_copy_assignment() noexcept                            = default;
-    constexpr base_copy_assignment(const base_copy_assignment&) noexcept = default;
-    constexpr base_copy_assignment(base_copy_assignment&&) noexcept      = default;
+    constexpr base_copy_assignment(const base_copy_assignment&) = default;
+    constexpr base_copy_assignment(base_copy_assignment&&)      = default;
     constexpr base_copy_assignment& operator=(const base_copy_assignment& other) noexcept(
         std::is_nothrow_copy_assignable<T>::value && std::is_nothrow_copy_constructible<T>::value)
     {
@@ -242,7 +242,7 @@ struct base_copy_assignment<T, false> : base_move_construction<T>
         }
         return *this;
     }
-    constexpr base_copy_assignment& operator=(base_copy_assignment&&) noexcept = default;
+    constexpr base_copy_assignment& operator=(base_copy_assignment&&) = default;
     ~base_copy_assignment() noexcept                                           = default;
 };
 
@@ -264,9 +264,9 @@ struct base_move_assignment<T, false> : base_copy_assignment<T>
 {
     using base_copy_assignment<T>::base_copy_assignment;
     constexpr base_move_assignment() noexcept                                       = default;
-    constexpr base_move_assignment(const base_move_assignment&) noexcept            = default;
-    constexpr base_move_assignment(base_move_assignment&&) noexcept                 = default;
-    constexpr base_move_assignment& operator=(const base_move_assignment&) noexcept = default;
+    constexpr base_move_assignment(const base_move_assignment&)            = default;
+    constexpr base_move_assignment(base_move_assignment&&)                 = default;
+    constexpr base_move_assignment& operator=(const base_move_assignment&) = default;
     constexpr base_move_assignment& operator=(base_move_assignment&& other) noexcept(
         std::is_nothrow_move_assignable<T>::value && std::is_nothrow_move_constructible<T>::value)
     {
-- 
2.43.0


From de883d13a26133628a00a7113d2729afe0f676b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:08:46 +0000
Subject: [PATCH 24/48] fix: assign to a variant from a value whose own move
 may throw

The assertion guarding the conversion through a temporary looked at the
source type, while it is the alternative that is moved.
---
 include/cetl/pf17/variant.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cetl/pf17/variant.hpp b/include/cetl/pf17/variant.hpp
index 3357e0f..9a191d2 100644
--- a/include/cetl/pf17/variant.hpp
+++ b/include/cetl/pf17/variant.hpp
@@ -1079,8 +1079,8 @@ private:
     template <std::size_t Ix, typename U, typename Alt = nth_type<Ix>>
     std::enable_if_t<!allows_direct_conversion<U, Alt>> convert_from(U&& from)
     {  // This is never noexcept, otherwise we would have chosen the simpler case.
-        static_assert(std::is_move_constructible<U>::value && std::is_nothrow_move_constructible<U>::value,
-                      "U shall be nothrow move constructible in this context; the implementation appears broken");
+        static_assert(std::is_move_constructible<Alt>::value && std::is_nothrow_move_constructible<Alt>::value,
+                      "Alt shall be nothrow move constructible in this context; the implementation appears broken");
         this->template set<Ix>(Alt(std::forward<U>(from)));
     }
 };
-- 
2.43.0


From 964ea5819747c932bd9f2933c211a8076362edcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:08:46 +0000
Subject: [PATCH 25/48] fix: let variant::emplace take any initializer list its
 alternative accepts

The overloads were constrained on the remaining arguments alone, so an
alternative constructible from a list but not from those was rejected.
---
 include/cetl/pf17/variant.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/cetl/pf17/variant.hpp b/include/cetl/pf17/variant.hpp
index 9a191d2..550f2a0 100644
--- a/include/cetl/pf17/variant.hpp
+++ b/include/cetl/pf17/variant.hpp
@@ -991,8 +991,8 @@ public:
     template <typename T,
               typename U,
               typename... Args,
-              std::size_t Ix                                                  = index_of<T>,
-              std::enable_if_t<std::is_constructible<T, Args...>::value, int> = 0>
+              std::size_t Ix                                                                            = index_of<T>,
+              std::enable_if_t<std::is_constructible<T, std::initializer_list<U>&, Args...>::value, int> = 0>
     T& emplace(const std::initializer_list<U> il, Args&&... ar)
     {
         return this->template set<Ix>(il, std::forward<Args>(ar)...);
@@ -1009,9 +1009,9 @@ public:
     template <std::size_t Ix,
               typename U,
               typename... Args,
-              std::enable_if_t<(Ix < sizeof...(Ts)), int>                     = 0,
-              typename T                                                      = variant_alternative_t<Ix, variant>,
-              std::enable_if_t<std::is_constructible<T, Args...>::value, int> = 0>
+              std::enable_if_t<(Ix < sizeof...(Ts)), int> = 0,
+              typename T                                  = variant_alternative_t<Ix, variant>,
+              std::enable_if_t<std::is_constructible<T, std::initializer_list<U>&, Args...>::value, int> = 0>
     T& emplace(const std::initializer_list<U> il, Args&&... ar)
     {
         return this->template set<Ix>(il, std::forward<Args>(ar)...);
-- 
2.43.0


From e4f6e79efc1b275f4fa1fb4023997e28e0eb2b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:17:50 +0000
Subject: [PATCH 26/48] fix: compare optionals with the operators of their
 values

Four of the comparisons were derived from == and <, which gives wrong
answers for values that are not totally ordered, such as NaN.
---
 include/cetl/pf17/optional.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/cetl/pf17/optional.hpp b/include/cetl/pf17/optional.hpp
index 81d7654..0eb124c 100644
--- a/include/cetl/pf17/optional.hpp
+++ b/include/cetl/pf17/optional.hpp
@@ -680,7 +680,7 @@ constexpr detail::opt::enable_comparison<decltype(std::declval<const T&>() != st
     const optional<T>& lhs,
     const optional<U>& rhs)
 {
-    return !(lhs == rhs);
+    return (lhs.has_value() != rhs.has_value()) || (lhs.has_value() && ((*lhs) != (*rhs)));
 }
 template <typename T, typename U>
 constexpr detail::opt::enable_comparison<decltype(std::declval<const T&>() < std::declval<const U&>())> operator<(
@@ -694,21 +694,21 @@ constexpr detail::opt::enable_comparison<decltype(std::declval<const T&>() <= st
     const optional<T>& lhs,
     const optional<U>& rhs)
 {
-    return !(rhs < lhs);
+    return (!lhs.has_value()) || (rhs.has_value() && ((*lhs) <= (*rhs)));
 }
 template <typename T, typename U>
 constexpr detail::opt::enable_comparison<decltype(std::declval<const T&>() > std::declval<const U&>())> operator>(
     const optional<T>& lhs,
     const optional<U>& rhs)
 {
-    return rhs < lhs;
+    return lhs.has_value() && ((!rhs.has_value()) || ((*lhs) > (*rhs)));
 }
 template <typename T, typename U>
 constexpr detail::opt::enable_comparison<decltype(std::declval<const T&>() >= std::declval<const U&>())> operator>=(
     const optional<T>& lhs,
     const optional<U>& rhs)
 {
-    return !(lhs < rhs);
+    return (!rhs.has_value()) || (lhs.has_value() && ((*lhs) >= (*rhs)));
 }
 /// @}
 
-- 
2.43.0


From 08ddfeaae3e5475d950c1e5cea24dfd6aade4667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:17:50 +0000
Subject: [PATCH 27/48] fix: keep the operand order when comparing a value with
 an optional

The inequality with the value on the left compared the two the other way
around.
---
 include/cetl/pf17/optional.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cetl/pf17/optional.hpp b/include/cetl/pf17/optional.hpp
index 0eb124c..3074842 100644
--- a/include/cetl/pf17/optional.hpp
+++ b/include/cetl/pf17/optional.hpp
@@ -807,7 +807,7 @@ constexpr detail::opt::enable_comparison<decltype(std::declval<const T&>() != st
     const T&           value,
     const optional<U>& opt)
 {
-    return (!opt.has_value()) || ((*opt) != value);
+    return (!opt.has_value()) || (value != (*opt));
 }
 template <typename T, typename U>
 constexpr detail::opt::enable_comparison<decltype(std::declval<const T&>() < std::declval<const U&>())> operator<(
-- 
2.43.0


From 05b5b91495e98eb9e5b44121be799a67c969cdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:41:48 +0000
Subject: [PATCH 28/48] fix: compare variants with the operators of their
 alternatives

Four of the comparisons were derived from == and <, which gives wrong
answers for alternatives that are not totally ordered, such as NaN.
---
 include/cetl/pf17/variant.hpp | 86 +++++++++++++++++++++++++++++++++--
 1 file changed, 81 insertions(+), 5 deletions(-)

diff --git a/include/cetl/pf17/variant.hpp b/include/cetl/pf17/variant.hpp
index 550f2a0..2bbb8ec 100644
--- a/include/cetl/pf17/variant.hpp
+++ b/include/cetl/pf17/variant.hpp
@@ -991,7 +991,7 @@ public:
     template <typename T,
               typename U,
               typename... Args,
-              std::size_t Ix                                                                            = index_of<T>,
+              std::size_t Ix                                                                             = index_of<T>,
               std::enable_if_t<std::is_constructible<T, std::initializer_list<U>&, Args...>::value, int> = 0>
     T& emplace(const std::initializer_list<U> il, Args&&... ar)
     {
@@ -1183,6 +1183,26 @@ constexpr decltype(auto) visit(F&& fun, Vs&&... vars)
 
 // --------------------------------------------------------------------------------------------------------------------
 
+namespace detail
+{
+namespace var
+{
+/// Compares two alternatives with the operator they provide; those that only provide == and < are compared with these.
+/// @{
+// clang-format off
+template <typename T> constexpr auto is_ne(const T& a, const T& b, int) -> decltype(static_cast<bool>(a != b)) { return static_cast<bool>(a != b); }
+template <typename T> constexpr bool is_ne(const T& a, const T& b, long) { return !static_cast<bool>(a == b); }
+template <typename T> constexpr auto is_gt(const T& a, const T& b, int) -> decltype(static_cast<bool>(a > b)) { return static_cast<bool>(a > b); }
+template <typename T> constexpr bool is_gt(const T& a, const T& b, long) { return static_cast<bool>(b < a); }
+template <typename T> constexpr auto is_le(const T& a, const T& b, int) -> decltype(static_cast<bool>(a <= b)) { return static_cast<bool>(a <= b); }
+template <typename T> constexpr bool is_le(const T& a, const T& b, long) { return !static_cast<bool>(b < a); }
+template <typename T> constexpr auto is_ge(const T& a, const T& b, int) -> decltype(static_cast<bool>(a >= b)) { return static_cast<bool>(a >= b); }
+template <typename T> constexpr bool is_ge(const T& a, const T& b, long) { return !static_cast<bool>(a < b); }
+// clang-format on
+/// @}
+}  // namespace var
+}  // namespace detail
+
 template <typename... Ts>
 constexpr bool operator==(const variant<Ts...>& lhs, const variant<Ts...>& rhs)
 {
@@ -1202,7 +1222,18 @@ constexpr bool operator==(const variant<Ts...>& lhs, const variant<Ts...>& rhs)
 template <typename... Ts>
 constexpr bool operator!=(const variant<Ts...>& lhs, const variant<Ts...>& rhs)
 {
-    return !(lhs == rhs);
+    if (lhs.index() != rhs.index())
+    {
+        return true;
+    }
+    if (lhs.valueless_by_exception())
+    {
+        return false;
+    }
+    return detail::var::chronomorphize<sizeof...(
+        Ts)>([&lhs,
+              &rhs](const auto index) { return detail::var::is_ne(get<index.value>(lhs), get<index.value>(rhs), 0); },
+             lhs.index());
 }
 template <typename... Ts>
 constexpr bool operator<(const variant<Ts...>& lhs, const variant<Ts...>& rhs)
@@ -1231,17 +1262,62 @@ constexpr bool operator<(const variant<Ts...>& lhs, const variant<Ts...>& rhs)
 template <typename... Ts>
 constexpr bool operator>(const variant<Ts...>& lhs, const variant<Ts...>& rhs)
 {
-    return rhs < lhs;
+    if (lhs.valueless_by_exception())
+    {
+        return false;
+    }
+    if (rhs.valueless_by_exception())
+    {
+        return true;
+    }
+    if (lhs.index() != rhs.index())
+    {
+        return lhs.index() > rhs.index();
+    }
+    return detail::var::chronomorphize<sizeof...(
+        Ts)>([&lhs,
+              &rhs](const auto index) { return detail::var::is_gt(get<index.value>(lhs), get<index.value>(rhs), 0); },
+             lhs.index());
 }
 template <typename... Ts>
 constexpr bool operator<=(const variant<Ts...>& lhs, const variant<Ts...>& rhs)
 {
-    return !(rhs < lhs);
+    if (lhs.valueless_by_exception())
+    {
+        return true;
+    }
+    if (rhs.valueless_by_exception())
+    {
+        return false;
+    }
+    if (lhs.index() != rhs.index())
+    {
+        return lhs.index() < rhs.index();
+    }
+    return detail::var::chronomorphize<sizeof...(
+        Ts)>([&lhs,
+              &rhs](const auto index) { return detail::var::is_le(get<index.value>(lhs), get<index.value>(rhs), 0); },
+             lhs.index());
 }
 template <typename... Ts>
 constexpr bool operator>=(const variant<Ts...>& lhs, const variant<Ts...>& rhs)
 {
-    return !(lhs < rhs);
+    if (rhs.valueless_by_exception())
+    {
+        return true;
+    }
+    if (lhs.valueless_by_exception())
+    {
+        return false;
+    }
+    if (lhs.index() != rhs.index())
+    {
+        return lhs.index() > rhs.index();
+    }
+    return detail::var::chronomorphize<sizeof...(
+        Ts)>([&lhs,
+              &rhs](const auto index) { return detail::var::is_ge(get<index.value>(lhs), get<index.value>(rhs), 0); },
+             lhs.index());
 }
 
 }  // namespace pf17
-- 
2.43.0


From 4bdfe0f9a6db35902877c3fdc1f60153c8e49de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:24:43 +0000
Subject: [PATCH 29/48] fix: return what the visitor of a variant returns

A reference returned by the visitor was copied on the way out. It is now
passed on unless the alternatives return different types.
---
 include/cetl/pf17/variant.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/cetl/pf17/variant.hpp b/include/cetl/pf17/variant.hpp
index 2bbb8ec..9496f12 100644
--- a/include/cetl/pf17/variant.hpp
+++ b/include/cetl/pf17/variant.hpp
@@ -66,6 +66,12 @@ using req = std::enable_if_t<C, int>;
 
 // --------------------------------------------------------------------------------------------------------------------
 
+/// The result is exactly what the alternatives return if they agree on it; otherwise, it is their common type.
+template <typename R, typename... Rs>
+struct visit_result
+    : std::conditional_t<conjunction_v<std::is_same<R, Rs>...>, std::enable_if<true, R>, std::common_type<R, Rs...>>
+{};
+
 template <typename>
 struct chronomorphize_impl;
 template <std::size_t... Is>
@@ -78,8 +84,8 @@ struct chronomorphize_impl<std::index_sequence<Is...>>
         static decltype(auto)
         lookup(F&& fun, const std::size_t index, Args&&... ar)
     {
-        using R = std::common_type_t<decltype(std::forward<F>(fun)(std::integral_constant<std::size_t, Is>{},
-                                                                   std::forward<Args>(ar)...))...>;
+        using R = typename visit_result<decltype(std::forward<F>(fun)(std::integral_constant<std::size_t, Is>{},
+                                                                      std::forward<Args>(ar)...))...>::type;
 #if __cplusplus >= 201703L
         constexpr
 #else
@@ -752,7 +758,7 @@ constexpr decltype(auto) visit(F&& fun, V&& var)
 {
     // https://twitter.com/PavelKirienko/status/1761525562370040002
     return chronomorphize(
-        [&fun, &var](const auto index) {
+        [&fun, &var](const auto index) -> decltype(auto) {
             return std::forward<F>(fun)(alt<index.value>(std::forward<V>(var)));  //
         },
         var);
@@ -765,9 +771,9 @@ constexpr decltype(auto) visit(F&& fun, V0&& var0, Vs&&... vars)
     // per variant. The recursive structure below builds a Cartesian product of the variant combinations
     // one level at a time starting with the leftmost variant. The complexity is one table jump per variant level.
     return visit(
-        [&](auto&& hh) {  // https://twitter.com/PavelKirienko/status/1761525562370040002
+        [&](auto&& hh) -> decltype(auto) {  // https://twitter.com/PavelKirienko/status/1761525562370040002
             return visit(
-                [&](auto&&... tt) {
+                [&](auto&&... tt) -> decltype(auto) {
                     return std::forward<F>(fun)(std::forward<decltype(hh)>(hh), std::forward<decltype(tt)>(tt)...);
                 },
                 std::forward<Vs>(vars)...);
-- 
2.43.0


From 92a3425f1eb6b3cd8823f1cb686a2eb600f817a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:24:43 +0000
Subject: [PATCH 30/48] fix: accept named callables in make_overloaded

The overload set was built from the reference types of callables given as
lvalues, which cannot be inherited from.
---
 include/cetl/visit_helpers.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/cetl/visit_helpers.hpp b/include/cetl/visit_helpers.hpp
index b522a10..d22cdfb 100644
--- a/include/cetl/visit_helpers.hpp
+++ b/include/cetl/visit_helpers.hpp
@@ -10,6 +10,7 @@
 #define CETL_VISIT_HELPERS_HPP_INCLUDED
 
 #include <type_traits>
+#include <utility>
 
 namespace cetl
 {
@@ -40,7 +41,7 @@ struct overloaded<T, Ts...> : public T, public overloaded<Ts...>
     template <typename A, typename... B, std::enable_if_t<(sizeof...(B) > 0), int> = 0>
     constexpr explicit overloaded(A&& a, B&&... b)
         : T(std::forward<A>(a))
-        , overloaded<B...>(std::forward<B>(b)...)
+        , overloaded<Ts...>(std::forward<B>(b)...)
     {
     }
 };
@@ -54,9 +55,9 @@ struct overloaded<T, Ts...> : public T, public overloaded<Ts...>
 /// ), variant);
 /// @endcode
 template <typename... Ts>
-constexpr overloaded<Ts...> make_overloaded(Ts&&... ts)
+constexpr overloaded<std::decay_t<Ts>...> make_overloaded(Ts&&... ts)
 {
-    return overloaded<Ts...>(std::forward<Ts>(ts)...);
+    return overloaded<std::decay_t<Ts>...>(std::forward<Ts>(ts)...);
 }
 
 }  // namespace cetl
-- 
2.43.0


From 2c515c4d61953477b9c6b7eaee47b2ec3fbf477a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:11:21 +0000
Subject: [PATCH 31/48] fix: pad the output of a string view when no adjustment
 is set

A stream pads on the left unless left adjustment alone is requested.
The string view was only padded when left or right was set explicitly.
A stream in its initial state, or with internal adjustment, ignored the width.
---
 include/cetl/pf17/string_view.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/cetl/pf17/string_view.hpp b/include/cetl/pf17/string_view.hpp
index ce2ca61..f2506d8 100644
--- a/include/cetl/pf17/string_view.hpp
+++ b/include/cetl/pf17/string_view.hpp
@@ -358,10 +358,9 @@ public:
                 };
 
                 const std::streamsize padding_len = width - sv_length;
-                const bool            left        = os.flags() & std::basic_ios<CharT, Traits>::left;
-                const bool            right       = os.flags() & std::basic_ios<CharT, Traits>::right;
+                const bool            left        = (os.flags() & std::ios_base::adjustfield) == std::ios_base::left;
 
-                if (right)
+                if (!left)
                 {
                     pad(padding_len);
                 }
-- 
2.43.0


From 4b5c9894c4739899fa7288b11f8821d498018786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:11:21 +0000
Subject: [PATCH 32/48] fix: find the empty sequence at the end of a string
 view

An empty sequence occurs at every position up to and including the end.
Searching for it from the end reported that it is not there.
---
 include/cetl/pf17/string_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cetl/pf17/string_view.hpp b/include/cetl/pf17/string_view.hpp
index f2506d8..9c8e731 100644
--- a/include/cetl/pf17/string_view.hpp
+++ b/include/cetl/pf17/string_view.hpp
@@ -333,7 +333,7 @@ public:
             return npos;
         }
         const const_iterator result = std::search(data_ + pos, data_ + size_, sv.data_, sv.data_ + sv.size_);
-        return result != data_ + size_ ? static_cast<size_type>(result - data_) : npos;
+        return (result != data_ + size_ || sv.empty()) ? static_cast<size_type>(result - data_) : npos;
     }
 
     /// Performs stream output on string view.
-- 
2.43.0


From 7a9d1a20021c8cbdc0864813c550a458c179369c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:11:21 +0000
Subject: [PATCH 33/48] fix: search a string view with its character traits

Characters are equal when the traits say so, as comparison already does.
Searching compared them with the operator instead.
---
 include/cetl/pf17/string_view.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cetl/pf17/string_view.hpp b/include/cetl/pf17/string_view.hpp
index 9c8e731..e469733 100644
--- a/include/cetl/pf17/string_view.hpp
+++ b/include/cetl/pf17/string_view.hpp
@@ -320,7 +320,7 @@ public:
         {
             return npos;
         }
-        const const_iterator result = std::find(data_ + pos, data_ + size_, ch);
+        const const_iterator result = std::search(data_ + pos, data_ + size_, &ch, &ch + 1, traits_type::eq);
         return result != data_ + size_ ? static_cast<size_type>(result - data_) : npos;
     }
 
@@ -332,7 +332,8 @@ public:
         {
             return npos;
         }
-        const const_iterator result = std::search(data_ + pos, data_ + size_, sv.data_, sv.data_ + sv.size_);
+        const const_iterator result =
+            std::search(data_ + pos, data_ + size_, sv.data_, sv.data_ + sv.size_, traits_type::eq);
         return (result != data_ + size_ || sv.empty()) ? static_cast<size_type>(result - data_) : npos;
     }
 
-- 
2.43.0


From 740c294cf47a2335f00e79cdfcb3fb4fa4e68d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:17:13 +0000
Subject: [PATCH 34/48] fix: make a span of const elements from a range of
 non-const elements

The distance between the two pointers was taken by a function that needs
both to have the same type. A span of const elements between two pointers
to non-const elements did not compile.
---
 include/cetl/pf20/span.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/cetl/pf20/span.hpp b/include/cetl/pf20/span.hpp
index 7a5cb5a..2fc1d06 100644
--- a/include/cetl/pf20/span.hpp
+++ b/include/cetl/pf20/span.hpp
@@ -125,7 +125,7 @@ public:
         : data_(first)
     {
         (void) end;  // Last isn't actually used in static spans.
-        CETL_DEBUG_ASSERT(std::distance(first, end) == Extent, "CDE_span_002: Iterator range does not equal Extent.");
+        CETL_DEBUG_ASSERT((end - first) == Extent, "CDE_span_002: Iterator range does not equal Extent.");
     }
 
     /// Creates a span starting at the first element of a c-style array through to the end of that array.
@@ -525,11 +525,11 @@ public:
               typename std::enable_if<!std::is_convertible<EndType, size_type>::value, bool>::type = true>
     constexpr span(pointer first, EndType end)
         : data_{first}
-        , size_{static_cast<size_type>(std::distance(first, end))}
+        , size_{static_cast<size_type>(end - first)}
     {
         static_assert(sizeof(size_type) >= sizeof(typename std::iterator_traits<EndType>::difference_type),
                       "Signed conversion is not safe if the iterator difference type is larger than our size_type");
-        CETL_DEBUG_ASSERT(std::distance(first, end) >= 0,
+        CETL_DEBUG_ASSERT((end - first) >= 0,
                           "CDE_span_012: Negative distance between first and end iterators is undefined.");
     }
 
-- 
2.43.0


From 6e5dd967e4be558921cc6b80dede4983ce4c0aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:21:01 +0000
Subject: [PATCH 35/48] fix: make a fixed span only from an array of as many
 elements

The length of the array was deduced but not compared with the extent.
A span of five elements could be made from an array of three.
It then denoted elements that are not part of the array.
---
 include/cetl/pf20/span.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cetl/pf20/span.hpp b/include/cetl/pf20/span.hpp
index 2fc1d06..cd7c080 100644
--- a/include/cetl/pf20/span.hpp
+++ b/include/cetl/pf20/span.hpp
@@ -131,7 +131,7 @@ public:
     /// Creates a span starting at the first element of a c-style array through to the end of that array.
     /// @param arr  Reference to a C-style array.
     /// @see std::span::span()
-    template <std::size_t DeducedExtent = Extent, typename std::enable_if<(DeducedExtent != 0), bool>::type = true>
+    template <std::size_t DeducedExtent = Extent, typename std::enable_if<(DeducedExtent == Extent), bool>::type = true>
     constexpr span(element_type (&arr)[DeducedExtent]) noexcept
         : data_(arr)
     {
-- 
2.43.0


From dba5443cd980ba08d4e894145f47d42bb7cf06cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:27:49 +0000
Subject: [PATCH 36/48] fix: move from an rvalue pair in
 polymorphic_allocator::construct

The overload for rvalue pairs named the first type twice.
The second type could not be deduced, so the overload was never used.
Pairs were copied instead, and pairs of move-only types were rejected.
---
 include/cetl/pf17/memory_resource.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cetl/pf17/memory_resource.hpp b/include/cetl/pf17/memory_resource.hpp
index 5232bc0..f098065 100644
--- a/include/cetl/pf17/memory_resource.hpp
+++ b/include/cetl/pf17/memory_resource.hpp
@@ -569,7 +569,7 @@ public:
     }
 
     template <class FirstType, class SecondType, class MoveFromFirstType, class MoveFromSecondType>
-    void construct(std::pair<FirstType, FirstType>* p, std::pair<MoveFromFirstType, MoveFromSecondType>&& moveFrom)
+    void construct(std::pair<FirstType, SecondType>* p, std::pair<MoveFromFirstType, MoveFromSecondType>&& moveFrom)
     {
         construct(p,
                   std::piecewise_construct,
-- 
2.43.0


From 53d760c9adb2a739d1e52101c6189cfb5bd763d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:27:49 +0000
Subject: [PATCH 37/48] fix: prefer the leading allocator in
 polymorphic_allocator::construct

A type may take the allocator first or last.
For a type that accepts both the call was ambiguous and did not compile.
The allocator is passed first then, as the standard requires.
---
 include/cetl/pf17/memory_resource.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cetl/pf17/memory_resource.hpp b/include/cetl/pf17/memory_resource.hpp
index f098065..6b33941 100644
--- a/include/cetl/pf17/memory_resource.hpp
+++ b/include/cetl/pf17/memory_resource.hpp
@@ -371,6 +371,7 @@ class polymorphic_allocator
     struct is_trailing_allocator_constructible
     {
         static constexpr bool value = std::uses_allocator<U, polymorphic_allocator<T>>::value &&
+                                      !is_leading_allocator_constructible<U, Args...>::value &&
                                       std::is_constructible<U, Args..., const polymorphic_allocator<T>&>::value;
     };
 
-- 
2.43.0


From 35792a9aa3782fd40d047981b9bc42632f9f7220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:27:49 +0000
Subject: [PATCH 38/48] fix: decide whether a type takes this
 polymorphic_allocator with its own type

Whether a type takes no allocator was decided for an allocator of that type.
Whether it takes one was decided for the allocator at hand.
Types whose allocator converts from only one of the two did not compile.
---
 include/cetl/pf17/memory_resource.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cetl/pf17/memory_resource.hpp b/include/cetl/pf17/memory_resource.hpp
index 6b33941..daeb300 100644
--- a/include/cetl/pf17/memory_resource.hpp
+++ b/include/cetl/pf17/memory_resource.hpp
@@ -378,7 +378,7 @@ class polymorphic_allocator
     template <typename U, typename... Args>
     struct is_not_allocator_constructable
     {
-        static constexpr bool value = !std::uses_allocator<U, polymorphic_allocator<U>>::value;
+        static constexpr bool value = !std::uses_allocator<U, polymorphic_allocator<T>>::value;
     };
 
     template <typename U, typename Enable = void>
-- 
2.43.0


From ab23de8c3b19908c7980a9c59b81f8a51b58d527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:27:49 +0000
Subject: [PATCH 39/48] fix: keep arguments alive while polymorphic_allocator
 constructs a pair

Arguments given by value in a tuple were moved to a temporary tuple.
References into the temporary were used after it was destroyed.
The references now refer to the tuples given.
---
 include/cetl/pf17/memory_resource.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cetl/pf17/memory_resource.hpp b/include/cetl/pf17/memory_resource.hpp
index daeb300..62d241a 100644
--- a/include/cetl/pf17/memory_resource.hpp
+++ b/include/cetl/pf17/memory_resource.hpp
@@ -406,7 +406,7 @@ class polymorphic_allocator
     make_pair_member_args(std::tuple<PTArgsT...>& pmArgs)
     {
         // https://cplusplus.github.io/LWG/issue2969
-        return std::tuple_cat(std::make_tuple(std::allocator_arg, *this), std::move(pmArgs));
+        return std::tuple_cat(std::make_tuple(std::allocator_arg, *this), std::tuple<PTArgsT&&...>{std::move(pmArgs)});
     }
 
     template <typename PairType, typename... PTArgsT>
@@ -415,7 +415,7 @@ class polymorphic_allocator
     make_pair_member_args(std::tuple<PTArgsT...>& pmArgs)
     {
         // https://cplusplus.github.io/LWG/issue2969
-        return std::tuple_cat(std::move(pmArgs), std::make_tuple(*this));
+        return std::tuple_cat(std::tuple<PTArgsT&&...>{std::move(pmArgs)}, std::make_tuple(*this));
     }
 
     template <typename U, typename... UArgsT>
-- 
2.43.0


From fdb8c5d9267af27d91c52bc8900c81a3de28dc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:27:49 +0000
Subject: [PATCH 40/48] fix: construct classes derived from a pair as what they
 are

A class derived from a pair was taken for a pair.
Only its base was constructed in the storage of the whole object.
---
 include/cetl/pf17/memory_resource.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/cetl/pf17/memory_resource.hpp b/include/cetl/pf17/memory_resource.hpp
index 62d241a..c6fa34c 100644
--- a/include/cetl/pf17/memory_resource.hpp
+++ b/include/cetl/pf17/memory_resource.hpp
@@ -387,10 +387,8 @@ class polymorphic_allocator
         using return_type = void;
     };
 
-    template <typename U>
-    struct EnableIfNotPair<U,
-                           typename std::enable_if_t<
-                               std::is_base_of<std::pair<typename U::first_type, typename U::second_type>, U>::value>>
+    template <typename FirstType, typename SecondType>
+    struct EnableIfNotPair<std::pair<FirstType, SecondType>>
     {};
 
     template <typename PairType, typename... PTArgsT>
-- 
2.43.0


From b70554538c74f8e240033a6d34098e894ad08bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:28:02 +0000
Subject: [PATCH 41/48] fix: let a memory resource report a failed reallocation

A memory resource throws when it cannot reallocate.
The traits called it in a function declared not to throw,
which ended the program.
---
 include/cetl/pf17/memory_resource.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/cetl/pf17/memory_resource.hpp b/include/cetl/pf17/memory_resource.hpp
index c6fa34c..bbef555 100644
--- a/include/cetl/pf17/memory_resource.hpp
+++ b/include/cetl/pf17/memory_resource.hpp
@@ -272,11 +272,7 @@ private:
     // +--[reallocate_impl]---------------------------------------------------+
     template <typename U>
     static constexpr typename std::enable_if<std::is_base_of<cetl::pf17::pmr::memory_resource, U>::value>::type*
-    reallocate_impl(U&          mr,
-                    void*       ptr,
-                    std::size_t old_size_bytes,
-                    std::size_t new_size_bytes,
-                    std::size_t alignment) noexcept
+    reallocate_impl(U& mr, void* ptr, std::size_t old_size_bytes, std::size_t new_size_bytes, std::size_t alignment)
     {
         return mr.reallocate(ptr, old_size_bytes, new_size_bytes, alignment);
     }
-- 
2.43.0


From 619ade3700b5b2c523a32f9e6898b267b9ef7424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:28:02 +0000
Subject: [PATCH 42/48] fix: refuse to reallocate more objects than can be
 addressed

The number of bytes wrapped around for a large number of objects.
Too little memory was then reported as a success.
Allocation already refuses such a number.
---
 include/cetl/pf17/memory_resource.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/cetl/pf17/memory_resource.hpp b/include/cetl/pf17/memory_resource.hpp
index bbef555..3695f3b 100644
--- a/include/cetl/pf17/memory_resource.hpp
+++ b/include/cetl/pf17/memory_resource.hpp
@@ -487,6 +487,14 @@ public:
     typename std::enable_if<deviant::memory_resource_traits<memory_resource>::is_reallocate_defined::value, U>::type*
     reallocate(U* ptr, std::size_t old_object_count, std::size_t new_object_count)
     {
+        if (std::numeric_limits<std::size_t>::max() / sizeof(U) < new_object_count)
+        {
+#if defined(__cpp_exceptions)
+            throw std::bad_array_new_length();
+#else
+            return nullptr;
+#endif
+        }
         return static_cast<T*>(
             deviant::memory_resource_traits<memory_resource>::reallocate(*memory_resource_,
                                                                          ptr,
-- 
2.43.0


From e0ca82bac381adb2caf79bf5e2e1bffad225c612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:45:38 +0000
Subject: [PATCH 43/48] fix: report a failed allocation of the system memory
 resource as std::bad_alloc

MaxAlignNewDeleteResource returned a null pointer when malloc failed, although
memory_resource::allocate promises std::bad_alloc unless exceptions are off.
---
 include/cetl/pf17/sys/memory_resource.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/cetl/pf17/sys/memory_resource.hpp b/include/cetl/pf17/sys/memory_resource.hpp
index 4193a0a..c45de5a 100644
--- a/include/cetl/pf17/sys/memory_resource.hpp
+++ b/include/cetl/pf17/sys/memory_resource.hpp
@@ -44,7 +44,14 @@ protected:
 #endif
             return nullptr;
         }
-        return std::malloc(size_bytes);
+        void* const result = std::malloc(size_bytes);
+#if defined(__cpp_exceptions)
+        if ((nullptr == result) && (size_bytes > 0))
+        {
+            throw std::bad_alloc();
+        }
+#endif
+        return result;
     }
 
     void do_deallocate(void* p, std::size_t size_bytes, std::size_t alignment) override
-- 
2.43.0


From 0535c1125c0a74f0c49dcd1c5d31d25d4bf5e972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:45:38 +0000
Subject: [PATCH 44/48] fix: refuse over-aligned reallocation from the system
 memory resource

MaxAlignNewDeleteResource refuses to allocate over-aligned memory, but reallocated
it with realloc, which does not align any better than malloc.
---
 include/cetl/pf17/sys/memory_resource.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/cetl/pf17/sys/memory_resource.hpp b/include/cetl/pf17/sys/memory_resource.hpp
index c45de5a..518266e 100644
--- a/include/cetl/pf17/sys/memory_resource.hpp
+++ b/include/cetl/pf17/sys/memory_resource.hpp
@@ -67,7 +67,13 @@ protected:
                         std::size_t alignment) override
     {
         (void) old_size_bytes;
-        (void) alignment;
+        if (alignment > alignof(std::max_align_t))
+        {
+#if defined(__cpp_exceptions)
+            throw std::bad_alloc();
+#endif
+            return nullptr;
+        }
         return std::realloc(ptr, new_size_bytes);
     }
 
-- 
2.43.0


From 218df43f53aa95c178d8fe420b77b392b054f4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:45:38 +0000
Subject: [PATCH 45/48] fix: refuse alignments that an o1heap cannot provide

UnsynchronizedO1HeapMemoryResourceDelegate ignored the alignment, and gave out
memory that was not aligned as requested when it was above O1HEAP_ALIGNMENT.
---
 include/cetl/pmr/o1heap_memory_resource_delegate.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/cetl/pmr/o1heap_memory_resource_delegate.hpp b/include/cetl/pmr/o1heap_memory_resource_delegate.hpp
index 9b0194c..01c7238 100644
--- a/include/cetl/pmr/o1heap_memory_resource_delegate.hpp
+++ b/include/cetl/pmr/o1heap_memory_resource_delegate.hpp
@@ -64,9 +64,8 @@ public:
 
     void* allocate(std::size_t size_bytes, std::size_t alignment = alignof(std::max_align_t))
     {
-        (void) alignment;
         // TODO: https://github.com/pavel-kirienko/o1heap/issues/13
-        void* result = o1heapAllocate(o1heap_, size_bytes);
+        void* result = (alignment > O1HEAP_ALIGNMENT) ? nullptr : o1heapAllocate(o1heap_, size_bytes);
 
 #if defined(__cpp_exceptions)
         if (nullptr == result)
-- 
2.43.0


From 824a9cdab303839831a6a2fe40dc2b44c96bd1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:11:31 +0000
Subject: [PATCH 46/48] fix: forward the arguments of a function call to the
 target

Every argument was passed on as an lvalue, so rvalue references and arguments that
can only be moved could not be used, and others were copied.
---
 include/cetl/pmr/function.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cetl/pmr/function.hpp b/include/cetl/pmr/function.hpp
index 4097dd0..c1bf642 100644
--- a/include/cetl/pmr/function.hpp
+++ b/include/cetl/pmr/function.hpp
@@ -62,7 +62,7 @@ public:
 
     Result operator()(Args... args) override
     {
-        return functor_(args...);
+        return functor_(std::forward<Args>(args)...);
     }
 
 private:
@@ -273,7 +273,7 @@ public:
 
         CETL_DEBUG_ASSERT(nullptr != handler_ptr_, "");
 
-        return handler_ptr_->operator()(args...);
+        return handler_ptr_->operator()(std::forward<Args>(args)...);
     }
 
     /// @brief Resets the current target. `*this` is empty after the call.
-- 
2.43.0


From c2bfaf35e393ab72fc972fc14804b93d8e3a0308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:11:31 +0000
Subject: [PATCH 47/48] fix: let a function without result hold targets that
 return something

A function whose result is void did not compile for a target that returns a value,
although such targets are accepted.
---
 include/cetl/pmr/function.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/cetl/pmr/function.hpp b/include/cetl/pmr/function.hpp
index c1bf642..244c53d 100644
--- a/include/cetl/pmr/function.hpp
+++ b/include/cetl/pmr/function.hpp
@@ -62,10 +62,22 @@ public:
 
     Result operator()(Args... args) override
     {
-        return functor_(std::forward<Args>(args)...);
+        return call(std::is_void<Result>{}, std::forward<Args>(args)...);
     }
 
 private:
+    template <typename... CallArgs>
+    Result call(std::false_type, CallArgs&&... args)
+    {
+        return functor_(std::forward<CallArgs>(args)...);
+    }
+
+    template <typename... CallArgs>
+    void call(std::true_type, CallArgs&&... args)
+    {
+        static_cast<void>(functor_(std::forward<CallArgs>(args)...));
+    }
+
     Functor functor_;
 
 };  // functor_handler
-- 
2.43.0


From f34fd77c72e32286a8c86271085e3dcc57054c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:32:23 +0000
Subject: [PATCH 48/48] fix: let an unbounded variant that is not copyable or
 movable say so

---
 include/cetl/unbounded_variant.hpp | 33 +++++++++++-------------------
 1 file changed, 12 insertions(+), 21 deletions(-)

diff --git a/include/cetl/unbounded_variant.hpp b/include/cetl/unbounded_variant.hpp
index b4c7d69..522201c 100644
--- a/include/cetl/unbounded_variant.hpp
+++ b/include/cetl/unbounded_variant.hpp
@@ -908,8 +908,11 @@ struct base_copy<Pmr, Footprint, true /*Copyable*/, Moveable, Alignment>
 
     base_copy& operator=(const base_copy& other)
     {
-        base::reset();
-        copy_from(other);
+        if (this != &other)
+        {
+            base::reset();
+            copy_from(other);
+        }
         return *this;
     }
 
@@ -997,7 +1000,11 @@ struct base_move<Pmr, Footprint, Copyable, true /*Movable*/, Alignment>
 
     base_move& operator=(base_move&& other) noexcept
     {
-        move_from(other);
+        if (this != &other)
+        {
+            base::reset();
+            move_from(other);
+        }
         return *this;
     }
 
@@ -1279,30 +1286,14 @@ public:
     /// Any failure during the copy operation will result in the "valueless by exception" state.
     /// In case of enabled PMR support, the memory resource pointer is copied from the `rhs` variant.
     ///
-    unbounded_variant& operator=(const unbounded_variant& rhs)
-    {
-        if (this != &rhs)
-        {
-            reset();
-            base::operator=(rhs);
-        }
-        return *this;
-    }
+    unbounded_variant& operator=(const unbounded_variant& rhs) = default;
 
     /// \brief Assigns the content of `rhs` to `*this` using move semantics.
     ///
     /// Any failure during the move operation will result in the "valueless by exception" state.
     /// In case of enabled PMR support, the memory resource pointer is copied from the `rhs` variant.
     ///
-    unbounded_variant& operator=(unbounded_variant&& rhs) noexcept
-    {
-        if (this != &rhs)
-        {
-            reset();
-            base::operator=(std::move(rhs));
-        }
-        return *this;
-    }
+    unbounded_variant& operator=(unbounded_variant&& rhs) noexcept = default;
 
     /// \brief Assigns `value` to `*this` by forwarding its value.
     ///
-- 
2.43.0


From 2e99686168f7316d138e674d8eb02a49f337f4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:52 +0000
Subject: [PATCH 01/45] fix: allocator-extended array constructors honour the
 given allocator

The allocator-extended move constructor of VariableLengthArray took over memory
that its allocator cannot deallocate, or leaked the elements and the block of
the source and reported the wrong capacity. It was also noexcept although it
may have to allocate. The extended constructors additionally asked
select_on_container_copy_construction to replace an explicitly given allocator.

Memory is now only taken over if the allocators are equal. Otherwise the
elements are moved into memory of the given allocator and the source keeps its
own block.
---
 include/cetl/variable_length_array.hpp | 115 +++++++++++--------------
 1 file changed, 50 insertions(+), 65 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index 5f8f917..92b8b1e 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -593,6 +593,37 @@ protected:
         }
     }
 
+    // +----------------------------------------------------------------------+
+    // | MOVE CONSTRUCT IMPLEMENTATION
+    // +----------------------------------------------------------------------+
+    ///
+    /// Take the elements from rhs. Must only be called for an array that doesn't have any storage yet.
+    constexpr void move_construct_from(VariableLengthArrayBase&& rhs, const size_type rhs_max_size)
+    {
+        CETL_DEBUG_ASSERT(nullptr == data_, "CDE_vla_009: Can't move construct into existing storage.");
+        if (std::allocator_traits<allocator_type>::is_always_equal::value || alloc_ == rhs.alloc_)
+        {
+            // Our allocator can deallocate the incoming memory so we can simply take ownership of it.
+            data_         = rhs.data_;
+            capacity_     = rhs.capacity_;
+            size_         = rhs.size_;
+            rhs.data_     = nullptr;
+            rhs.capacity_ = 0;
+            rhs.size_     = 0;
+        }
+        else if (rhs.size_ > 0)
+        {
+            // The incoming memory has to remain with its allocator. Move only the elements.
+            reserve(rhs.size_, rhs_max_size);
+            if (rhs.size_ <= capacity_)
+            {
+                size_ = fast_forward_construct(data_, capacity_, rhs.data_, rhs.size_, alloc_);
+                fast_destroy(rhs.data_, rhs.size_);
+                rhs.size_ = 0;
+            }
+        }
+    }
+
     // +----------------------------------------------------------------------+
     // | Common Implementation
     // +----------------------------------------------------------------------+
@@ -763,9 +794,9 @@ protected:
     {
     }
 
-    constexpr VariableLengthArrayBase(const VariableLengthArrayBase& rhs, const allocator_type& rhs_alloc) noexcept(
+    constexpr VariableLengthArrayBase(const VariableLengthArrayBase& rhs, const allocator_type& alloc) noexcept(
         std::is_nothrow_copy_constructible<allocator_type>::value)
-        : alloc_(std::allocator_traits<allocator_type>::select_on_container_copy_construction(rhs_alloc))
+        : alloc_(alloc)
         , data_(nullptr)
         , capacity_(0)
         , size_(0)
@@ -787,61 +818,6 @@ protected:
         rhs.data_     = nullptr;
     }
 
-    template <typename UAlloc>
-    constexpr VariableLengthArrayBase(
-        VariableLengthArrayBase&& rhs,
-        const UAlloc&             rhs_alloc,
-        typename std::enable_if_t<is_pocma_or_is_always_equal<UAlloc>::value>* = nullptr) noexcept
-        : alloc_(std::allocator_traits<UAlloc>::select_on_container_copy_construction(rhs_alloc))
-        , data_(std::move(rhs.data_))
-        , capacity_(rhs.capacity_)
-        , size_(rhs.size_)
-        , max_size_max_(rhs.max_size_max_)
-    {
-        static_assert(std::is_nothrow_copy_constructible<UAlloc>::value,
-                      "Allocator must be nothrow copy constructible.");
-        rhs.size_     = 0;
-        rhs.capacity_ = 0;
-        rhs.data_     = nullptr;
-    }
-
-    template <typename UAlloc>
-    constexpr VariableLengthArrayBase(
-        VariableLengthArrayBase&& rhs,
-        const UAlloc&             rhs_alloc,
-        typename std::enable_if_t<!is_pocma_or_is_always_equal<UAlloc>::value>* = nullptr) noexcept
-        : alloc_(std::allocator_traits<UAlloc>::select_on_container_copy_construction(rhs_alloc))
-        , data_{nullptr}
-        , capacity_(0)
-        , size_(0)
-        , max_size_max_(rhs.max_size_max_)
-    {
-        static_assert(std::is_nothrow_copy_constructible<UAlloc>::value,
-                      "Allocator must be nothrow copy constructible.");
-        if (alloc_ == rhs.alloc_)
-        {
-            // The allocators may not always be equal, but they are this time.
-            data_     = std::move(rhs.data_);
-            capacity_ = rhs.capacity_;
-            size_     = rhs.size_;
-        }
-        else
-        {
-            // The allocators are not equal, so we need to move the data over
-            // manually.
-            if (rhs.size_ > 0)
-            {
-                data_ = std::allocator_traits<allocator_type>::allocate(alloc_, rhs.size_);
-                fast_forward_construct(data_, rhs.size_, rhs.data_, rhs.size_, alloc_);
-            }
-            capacity_ = rhs.capacity_;
-            size_     = rhs.size_;
-        }
-        rhs.size_     = 0;
-        rhs.capacity_ = 0;
-        rhs.data_     = nullptr;
-    }
-
     ~VariableLengthArrayBase() = default;
 
     // +----------------------------------------------------------------------+
@@ -1022,7 +998,8 @@ public:
     }
 
     VariableLengthArray(const VariableLengthArray& rhs)
-        : VariableLengthArray(rhs, rhs.alloc_)
+        : VariableLengthArray(rhs,
+                              std::allocator_traits<allocator_type>::select_on_container_copy_construction(rhs.alloc_))
     {
     }
 
@@ -1032,9 +1009,11 @@ public:
         return *this;
     }
 
-    VariableLengthArray(VariableLengthArray&& rhs, const allocator_type& alloc) noexcept
-        : Base(std::move(rhs), alloc)
+    VariableLengthArray(VariableLengthArray&& rhs, const allocator_type& alloc) noexcept(
+        std::allocator_traits<allocator_type>::is_always_equal::value)
+        : VariableLengthArray(rhs.max_size_max_, alloc)
     {
+        Base::move_construct_from(std::move(rhs), max_size());
     }
 
     VariableLengthArray(VariableLengthArray&& rhs) noexcept
@@ -1882,7 +1861,8 @@ public:
     }
 
     VariableLengthArray(const VariableLengthArray& rhs)
-        : VariableLengthArray(rhs, rhs.alloc_)
+        : VariableLengthArray(rhs,
+                              std::allocator_traits<allocator_type>::select_on_container_copy_construction(rhs.alloc_))
     {
     }
 
@@ -1900,11 +1880,16 @@ public:
         rhs.last_byte_bit_fill_ = 0;
     }
 
-    VariableLengthArray(VariableLengthArray&& rhs, const allocator_type& alloc) noexcept
-        : Base(std::move(rhs), alloc)
-        , last_byte_bit_fill_{rhs.last_byte_bit_fill_}
+    VariableLengthArray(VariableLengthArray&& rhs, const allocator_type& alloc) noexcept(
+        std::allocator_traits<allocator_type>::is_always_equal::value)
+        : VariableLengthArray(rhs.max_size_max_, alloc)
     {
-        rhs.last_byte_bit_fill_ = 0;
+        Base::move_construct_from(std::move(rhs), bits2bytes(max_size()));
+        if (rhs.size_ == 0)
+        {
+            last_byte_bit_fill_     = rhs.last_byte_bit_fill_;
+            rhs.last_byte_bit_fill_ = 0;
+        }
     }
 
     VariableLengthArray& operator=(VariableLengthArray&& rhs) noexcept(
-- 
2.43.0


From 54543a2d2221ac21fda8fe457889bc9a48f6e5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:52 +0000
Subject: [PATCH 02/45] fix: keep array capacity within the maximum size

Assigning a VariableLengthArray adopts the maximum size of the source, but the
existing storage was reused even if it was larger than this maximum. push_back
then only looked at the capacity and went beyond the limit. Moving between
unequal allocators didn't adopt the limit at all. The bool array used its limit
in bits as a limit in bytes when it grew.
---
 include/cetl/variable_length_array.hpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index 92b8b1e..d03b039 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -425,9 +425,10 @@ protected:
         max_size_max_ = rhs.max_size_max_;
         if ((std::allocator_traits<allocator_type>::is_always_equal::value || alloc_ == rhs.alloc_ ||
              !std::allocator_traits<allocator_type>::propagate_on_container_copy_assignment::value) &&
-            rhs.size_ <= capacity_)
+            rhs.size_ <= capacity_ && capacity_ <= rhs_max_size)
         {
-            // First off, we're here because the incoming data will fit within our existing capacity.
+            // First off, we're here because the incoming data will fit within our existing capacity and because our
+            // existing capacity doesn't exceed the maximum size we are going to adopt.
 
             // Next we are here because either the allocators are equal or we are not going to adopt the incoming
             // allocator.
@@ -540,7 +541,8 @@ protected:
         }
         else
         {
-            if (rhs.size_ <= capacity_)
+            max_size_max_ = rhs.max_size_max_;
+            if (rhs.size_ <= capacity_ && capacity_ <= rhs_max_size)
             {
                 // We're here because the incoming data will fit within our existing capacity and because we can't
                 // just move the memory from the rhs allocator since that allocator is neither equal to our own nor are
@@ -1868,7 +1870,7 @@ public:
 
     VariableLengthArray& operator=(const VariableLengthArray& rhs)
     {
-        Base::copy_assign_from(rhs, rhs.max_size());
+        Base::copy_assign_from(rhs, bits2bytes(rhs.max_size()));
         last_byte_bit_fill_ = rhs.last_byte_bit_fill_;
         return *this;
     }
@@ -1897,7 +1899,7 @@ public:
         std::allocator_traits<allocator_type>::is_always_equal::value)
     {
         last_byte_bit_fill_ = rhs.last_byte_bit_fill_;
-        Base::template move_assign_from<allocator_type>(std::move(rhs), rhs.max_size());
+        Base::template move_assign_from<allocator_type>(std::move(rhs), bits2bytes(rhs.max_size()));
         return *this;
     }
 
@@ -2363,15 +2365,19 @@ public:
 private:
     constexpr bool ensure_size_plus_one()
     {
+        if (size_bits() >= max_size())
+        {
+            return false;
+        }
         if (capacity_ > 0 && (last_byte_bit_fill_ < 7 || size_ < capacity_))
         {
             // we have at least one byte of capacity (first allocation)
             // and we have room in the last byte or we have room for another byte
             // but we haven't reached the max
-            return size_bits() < max_size();
+            return true;
         }
 
-        return Base::grow(max_size());
+        return Base::grow(bits2bytes(max_size()));
     }
 
     constexpr bool emplace_back_impl(bool value)
-- 
2.43.0


From 87d299e22e033e937f851c7aef102461b2dc3102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:52 +0000
Subject: [PATCH 03/45] fix: compare all bytes of bool arrays

operator== of VariableLengthArray<bool> skipped the second to last byte, so
arrays that differ only in these eight elements were reported to be equal.
---
 include/cetl/variable_length_array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index d03b039..433a202 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -1926,7 +1926,7 @@ public:
         {
             return false;
         }
-        if (size_ > 1 && !std::equal(data_, data_ + size_ - 2, rhs.data_, rhs.data_ + rhs.size_ - 2))
+        if (size_ > 1 && !std::equal(data_, data_ + size_ - 1, rhs.data_, rhs.data_ + rhs.size_ - 1))
         {
             return false;
         }
-- 
2.43.0


From 38bb25f8059d9a61d5ce93a2d4e72a0da09a8a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:52 +0000
Subject: [PATCH 04/45] fix: keep the bit count of bool arrays consistent

The number of bits used in the last byte of a VariableLengthArray<bool> wasn't
reset for a moved-from array and wasn't corrected if an assignment, a copy or a
resize failed for lack of memory. The array then reported a wrong size. With
exceptions disabled resize even wrote through a null pointer.
---
 include/cetl/variable_length_array.hpp | 59 ++++++++++++++++++++++----
 1 file changed, 51 insertions(+), 8 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index 433a202..ee86af8 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -589,8 +589,11 @@ protected:
                 const size_type new_size = rhs.size_;
                 move_assign_alloc(rhs.alloc_);
                 reserve(new_size, rhs_max_size);
-                size_ = fast_forward_construct(data_, capacity_, rhs.data_, new_size, alloc_);
-                rhs.resize(0, rhs_max_size);
+                if (new_size <= capacity_)
+                {
+                    size_ = fast_forward_construct(data_, capacity_, rhs.data_, new_size, alloc_);
+                    rhs.resize(0, rhs_max_size);
+                }
             }
         }
     }
@@ -1856,10 +1859,11 @@ public:
     // +----------------------------------------------------------------------+
     VariableLengthArray(const VariableLengthArray& rhs, const allocator_type& alloc)
         : Base(rhs, alloc)
-        , last_byte_bit_fill_{rhs.last_byte_bit_fill_}
+        , last_byte_bit_fill_{0}
     {
         reserve_bits(rhs.size(), rhs.max_size());
         size_ = Base::fast_copy_construct(data_, capacity_, rhs.data_, rhs.size_, alloc_);
+        set_last_byte_bit_fill(rhs.size_, rhs.last_byte_bit_fill_);
     }
 
     VariableLengthArray(const VariableLengthArray& rhs)
@@ -1870,8 +1874,10 @@ public:
 
     VariableLengthArray& operator=(const VariableLengthArray& rhs)
     {
+        const Storage rhs_last_byte_bit_fill = rhs.last_byte_bit_fill_;
+        last_byte_bit_fill_                  = 0;  // in case the assignment fails.
         Base::copy_assign_from(rhs, bits2bytes(rhs.max_size()));
-        last_byte_bit_fill_ = rhs.last_byte_bit_fill_;
+        set_last_byte_bit_fill(rhs.size_, rhs_last_byte_bit_fill);
         return *this;
     }
 
@@ -1898,8 +1904,18 @@ public:
         std::allocator_traits<allocator_type>::propagate_on_container_move_assignment::value ||
         std::allocator_traits<allocator_type>::is_always_equal::value)
     {
-        last_byte_bit_fill_ = rhs.last_byte_bit_fill_;
-        Base::template move_assign_from<allocator_type>(std::move(rhs), bits2bytes(rhs.max_size()));
+        if (this != &rhs)
+        {
+            const size_type rhs_size  = rhs.size_;
+            const size_type max_bytes = bits2bytes(rhs.max_size());
+            last_byte_bit_fill_       = 0;  // in case the assignment fails.
+            Base::template move_assign_from<allocator_type>(std::move(rhs), max_bytes);
+            set_last_byte_bit_fill(rhs_size, rhs.last_byte_bit_fill_);
+            if (rhs.size_ == 0)
+            {
+                rhs.last_byte_bit_fill_ = 0;
+            }
+        }
         return *this;
     }
 
@@ -2306,10 +2322,17 @@ public:
         const std::size_t current_count = size_bits();
         if (clamped_count != current_count)
         {
-            const std::size_t byte_sized = bits2bytes(clamped_count);
+            std::size_t byte_sized = bits2bytes(clamped_count);
             if (byte_sized > capacity_)
             {
                 reserve_bits(clamped_count, max_size());
+#if !defined(__cpp_exceptions)
+                if (byte_sized > capacity_)
+                {
+                    byte_sized    = capacity_;
+                    clamped_count = capacity_bits();
+                }
+#endif
             }
             if (byte_sized == 0)
             {
@@ -2359,7 +2382,11 @@ public:
     {
         const size_type size_before = size_;
         resize(count, value);
-        (void) memset(data_, (value) ? 0xFF : 0, (size_ > size_before) ? size_before : size_);
+        const size_type back_fill_count = (size_ > size_before) ? size_before : size_;
+        if (back_fill_count > 0)
+        {
+            (void) memset(data_, (value) ? 0xFF : 0, back_fill_count);
+        }
     }
 
 private:
@@ -2418,6 +2445,22 @@ private:
         Base::reserve(bits2bytes(clamped_capacity), bits2bytes(max_size));
     }
 
+    /// Set the number of valid bits in the last byte after copying bytes from another array.
+    /// @param expected_size      The number of bytes in the other array.
+    /// @param expected_bit_fill  The value of last_byte_bit_fill_ of the other array.
+    constexpr void set_last_byte_bit_fill(const size_type expected_size, const Storage expected_bit_fill) noexcept
+    {
+        if (size_ == expected_size)
+        {
+            last_byte_bit_fill_ = expected_bit_fill;
+        }
+        else
+        {
+            // Not all bytes could be copied, but all bits in the ones we got are valid.
+            last_byte_bit_fill_ = (size_ > 0) ? 7 : 0;
+        }
+    }
+
     constexpr static size_type round8(const size_type value) noexcept
     {
         return (value + 7U) & ~static_cast<size_type>(7U);  // Careful, make sure the mask is long enough
-- 
2.43.0


From c7c2e40a8b7feef42818a0e10c6aa01d3bca8ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:52 +0000
Subject: [PATCH 05/45] fix: don't leak array elements or memory when an
 element throws

If copying or moving an element threw, VariableLengthArray lost track of the
elements that were already constructed and of the block that was just
allocated. Copy assignment terminated the program because an internal helper
was always noexcept. The constructors leaked everything as the destructor isn't
called for an array that isn't fully constructed, so they now delegate to
another constructor.
---
 include/cetl/variable_length_array.hpp | 124 ++++++++++++++++++-------
 1 file changed, 90 insertions(+), 34 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index ee86af8..6489708 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -252,6 +252,68 @@ protected:
         alloc.deallocate(src, src_capacity_count);
     }
 
+    // +----------------------------------------------------------------------+
+    // | exception safety
+    // +----------------------------------------------------------------------+
+    ///
+    /// Destroys the elements constructed so far if constructing the next one throws.
+    ///
+    struct ConstructionGuard final
+    {
+        explicit ConstructionGuard(value_type* const first) noexcept
+            : data{first}
+            , size{0}
+        {
+        }
+        ~ConstructionGuard()
+        {
+            fast_destroy(data, size);
+        }
+        ConstructionGuard(const ConstructionGuard&)            = delete;
+        ConstructionGuard& operator=(const ConstructionGuard&) = delete;
+
+        size_type release() noexcept
+        {
+            const size_type result = size;
+            size                   = 0;
+            return result;
+        }
+
+        value_type* data;
+        size_type   size;
+    };
+
+    ///
+    /// Deallocates a block of memory if the elements can't be moved into it.
+    ///
+    struct AllocationGuard final
+    {
+        AllocationGuard(allocator_type& block_alloc, value_type* const block, const size_type block_capacity) noexcept
+            : alloc(block_alloc)
+            , data{block}
+            , capacity{block_capacity}
+        {
+        }
+        ~AllocationGuard()
+        {
+            if (nullptr != data)
+            {
+                alloc.deallocate(data, capacity);
+            }
+        }
+        AllocationGuard(const AllocationGuard&)            = delete;
+        AllocationGuard& operator=(const AllocationGuard&) = delete;
+
+        void release() noexcept
+        {
+            data = nullptr;
+        }
+
+        allocator_type& alloc;
+        value_type*     data;
+        size_type       capacity;
+    };
+
     // +----------------------------------------------------------------------+
     // | COPY ASSIGNMENT
     // +----------------------------------------------------------------------+
@@ -260,8 +322,7 @@ protected:
     /// @return the number of elements copied.
     ///
     template <typename InputIt>
-    static constexpr size_type fast_copy_assign(value_type* dst, size_type dst_capacity_count, InputIt src) noexcept(
-        noexcept(std::is_nothrow_assignable<value_type, std::remove_pointer_t<InputIt>>::value))
+    static constexpr size_type fast_copy_assign(value_type* dst, size_type dst_capacity_count, InputIt src)
     {
         if (nullptr == dst)
         {
@@ -280,8 +341,7 @@ protected:
         value_type* dst,
         size_type   dst_capacity_count,
         InputIt     src,
-        size_type   src_len_count) noexcept(noexcept(std::is_nothrow_assignable<value_type,
-                                                                              std::remove_pointer_t<InputIt>>::value))
+        size_type   src_len_count)
     {
         if (nullptr == dst || nullptr == src)
         {
@@ -335,13 +395,14 @@ protected:
                                                          decltype(std::declval<const InputIt>()[0])>>())))
     {
         const size_type max_copy_size = std::min(dst_capacity_count, src_len_count);
-        for (size_type i = 0; i < max_copy_size; ++i)
+        ConstructionGuard guard{dst};
+        for (; guard.size < max_copy_size; ++guard.size)
         {
             std::allocator_traits<allocator_type>::construct(alloc,
-                                                             &dst[static_cast<difference_type>(i)],
-                                                             src[static_cast<difference_type>(i)]);
+                                                             &dst[static_cast<difference_type>(guard.size)],
+                                                             src[static_cast<difference_type>(guard.size)]);
         }
-        return max_copy_size;
+        return guard.release();
     }
 
     // +----------------------------------------------------------------------+
@@ -373,11 +434,14 @@ protected:
             !is_array_of_type_trivially_copyable<std::add_pointer_t<value_type>, InputIt>::value>* = nullptr)
     {
         const size_type max_copy_size = std::min(dst_capacity_count, src_len_count);
-        for (size_type i = 0; i < max_copy_size; ++i)
+        ConstructionGuard guard{dst};
+        for (; guard.size < max_copy_size; ++guard.size)
         {
-            std::allocator_traits<allocator_type>::construct(alloc, &dst[i], std::move_if_noexcept(src[i]));
+            std::allocator_traits<allocator_type>::construct(alloc,
+                                                             &dst[guard.size],
+                                                             std::move_if_noexcept(src[guard.size]));
         }
-        return max_copy_size;
+        return guard.release();
     }
 
     // +----------------------------------------------------------------------+
@@ -673,7 +737,9 @@ protected:
             new_data = std::allocator_traits<allocator_type>::allocate(alloc_, no_shrink_capacity);
             if (nullptr != new_data)
             {
+                AllocationGuard guard{alloc_, new_data, no_shrink_capacity};
                 fast_forward_construct(new_data, no_shrink_capacity, data_, size_, alloc_);
+                guard.release();
                 fast_deallocate(data_, size_, capacity_, alloc_);
                 data_     = new_data;
                 capacity_ = no_shrink_capacity;
@@ -702,9 +768,10 @@ protected:
                 }
 #endif
             }
-            for (std::size_t i = size_; i < new_size; ++i)
+            // Count each element right away such that none is lost if constructing the next one throws.
+            for (; size_ < new_size; ++size_)
             {
-                std::allocator_traits<allocator_type>::construct(alloc_, &data_[i], std::forward<Args>(args)...);
+                std::allocator_traits<allocator_type>::construct(alloc_, &data_[size_], std::forward<Args>(args)...);
             }
         }
         else
@@ -756,7 +823,9 @@ protected:
         {
             if (minimized_data != data_)
             {
+                AllocationGuard guard{alloc_, minimized_data, size_};
                 fast_forward_construct(minimized_data, size_, data_, size_, alloc_);
+                guard.release();
                 fast_deallocate(data_, size_, capacity_, alloc_);
             }  // else the allocator was able to simply shrink the reserved area for the same memory pointer.
             data_     = minimized_data;
@@ -799,16 +868,6 @@ protected:
     {
     }
 
-    constexpr VariableLengthArrayBase(const VariableLengthArrayBase& rhs, const allocator_type& alloc) noexcept(
-        std::is_nothrow_copy_constructible<allocator_type>::value)
-        : alloc_(alloc)
-        , data_(nullptr)
-        , capacity_(0)
-        , size_(0)
-        , max_size_max_(rhs.max_size_max_)
-    {
-    }
-
     constexpr VariableLengthArrayBase(VariableLengthArrayBase&& rhs) noexcept
         : alloc_(std::move(rhs.alloc_))
         , data_(std::move(rhs.data_))
@@ -944,7 +1003,7 @@ public:
     ///                     `std::min(max_size_max, std::allocator_traits<allocator_type>::max_size(alloc))`
     /// @param alloc Allocator to use for all allocations.
     VariableLengthArray(std::initializer_list<value_type> l, size_type max_size_max, const allocator_type& alloc)
-        : Base(alloc, nullptr, 0, 0, max_size_max)
+        : VariableLengthArray(max_size_max, alloc)
     {
         reserve(l.size());
         size_ = Base::fast_copy_construct(data_, capacity_, l.begin(), l.size(), alloc_);
@@ -968,7 +1027,7 @@ public:
     /// @param alloc    Allocator to use for all allocations.
     template <class InputIt>
     VariableLengthArray(InputIt first, InputIt last, size_type max_size_max, const allocator_type& alloc)
-        : Base(alloc, nullptr, 0, 0, max_size_max)
+        : VariableLengthArray(max_size_max, alloc)
     {
         if (last >= first)
         {
@@ -996,9 +1055,9 @@ public:
     // | RULE OF FIVE
     // +----------------------------------------------------------------------+
     VariableLengthArray(const VariableLengthArray& rhs, const allocator_type& alloc)
-        : Base(rhs, alloc)
+        : VariableLengthArray(rhs.max_size_max_, alloc)
     {
-        Base::reserve(rhs.size(), rhs.max_size());
+        reserve(rhs.size());
         size_ = Base::fast_copy_construct(data_, capacity_, rhs.data_, rhs.size_, alloc_);
     }
 
@@ -1801,8 +1860,7 @@ public:
     ///                     `std::min(max_size_max, std::allocator_traits<allocator_type>::max_size(alloc))`
     /// @param alloc Allocator to use for all allocations.
     VariableLengthArray(std::initializer_list<bool> l, size_type max_size_max, const allocator_type& alloc)
-        : Base(alloc, nullptr, 0, 0, max_size_max)
-        , last_byte_bit_fill_{0}
+        : VariableLengthArray(max_size_max, alloc)
     {
         reserve_bits(l.size(), max_size());
         for (auto list_item : l)
@@ -1829,8 +1887,7 @@ public:
     /// @param alloc    Allocator to use for all allocations.
     template <class InputIt>
     VariableLengthArray(InputIt first, InputIt last, size_type max_size_max, const allocator_type& alloc)
-        : Base(alloc, nullptr, 0, 0, max_size_max)
-        , last_byte_bit_fill_{0}
+        : VariableLengthArray(max_size_max, alloc)
     {
         if (last >= first)
         {
@@ -1858,10 +1915,9 @@ public:
     // | RULE OF FIVE
     // +----------------------------------------------------------------------+
     VariableLengthArray(const VariableLengthArray& rhs, const allocator_type& alloc)
-        : Base(rhs, alloc)
-        , last_byte_bit_fill_{0}
+        : VariableLengthArray(rhs.max_size_max_, alloc)
     {
-        reserve_bits(rhs.size(), rhs.max_size());
+        reserve(rhs.size());
         size_ = Base::fast_copy_construct(data_, capacity_, rhs.data_, rhs.size_, alloc_);
         set_last_byte_bit_fill(rhs.size_, rhs.last_byte_bit_fill_);
     }
-- 
2.43.0


From 580a1321f5ab28880cda87b9640bea7e0d1fd196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:36 +0000
Subject: [PATCH 06/45] fix: release allocated storage of unbounded_variant
 when its value constructor throws

A variant with a memory resource allocates a buffer before it constructs
the value. When the value constructor threw inside of a variant constructor
(value, in-place or copy), the buffer was never returned to the resource.

Release the buffer as soon as the construction of the value fails. The
variant still reports valueless_by_exception() after a failed assignment.
---
 include/cetl/unbounded_variant.hpp | 69 +++++++++++++++++++++++++++---
 1 file changed, 64 insertions(+), 5 deletions(-)

diff --git a/include/cetl/unbounded_variant.hpp b/include/cetl/unbounded_variant.hpp
index f36dc41..97f9080 100644
--- a/include/cetl/unbounded_variant.hpp
+++ b/include/cetl/unbounded_variant.hpp
@@ -146,6 +146,10 @@ struct base_storage<void /*Pmr*/, Footprint, Alignment>
         return value_size_ > 0UL;
     }
 
+    /// @brief Releases raw storage whose value has failed to be constructed - nothing to release for in-place buffer.
+    ///
+    void release_raw_storage() noexcept {}
+
     void reset() noexcept
     {
         value_size_ = 0UL;
@@ -299,16 +303,24 @@ struct base_storage<Pmr, 0UL /*Footprint*/, Alignment>
         return false;
     }
 
-    void reset() noexcept
+    /// @brief Releases raw storage whose value has failed to be constructed.
+    ///
+    /// The value size is kept, so this object stays in the "valueless by exception" state.
+    ///
+    void release_raw_storage() noexcept
     {
-        CETL_DEBUG_ASSERT((nullptr == allocated_buffer_) || (0UL != value_size_), "");
-
         if (nullptr != allocated_buffer_)
         {
             get_memory_resource()->deallocate(allocated_buffer_, value_size_, Alignment);
             allocated_buffer_ = nullptr;
         }
+    }
+
+    void reset() noexcept
+    {
+        CETL_DEBUG_ASSERT((nullptr == allocated_buffer_) || (0UL != value_size_), "");
 
+        release_raw_storage();
         value_size_ = 0UL;
     }
 
@@ -460,14 +472,22 @@ struct base_storage
         return (value_size_ > 0UL) && (nullptr == allocated_buffer_);
     }
 
-    void reset() noexcept
+    /// @brief Releases raw storage whose value has failed to be constructed.
+    ///
+    /// The value size is kept, so this object stays in the "valueless by exception" state.
+    ///
+    void release_raw_storage() noexcept
     {
         if (nullptr != allocated_buffer_)
         {
             get_memory_resource()->deallocate(allocated_buffer_, value_size_, Alignment);
             allocated_buffer_ = nullptr;
         }
+    }
 
+    void reset() noexcept
+    {
+        release_raw_storage();
         value_size_ = 0UL;
     }
 
@@ -508,6 +528,41 @@ private:
 
 };  // base_storage
 
+// Releases raw storage of a variant on leaving the scope (f.e. b/c an exception was thrown by a value constructor),
+// unless the construction of the value has been reported as completed.
+//
+template <typename Storage>
+class raw_storage_guard final
+{
+public:
+    explicit raw_storage_guard(Storage& storage) noexcept
+        : storage_{&storage}
+    {
+    }
+
+    raw_storage_guard(raw_storage_guard&&)                 = delete;
+    raw_storage_guard(const raw_storage_guard&)            = delete;
+    raw_storage_guard& operator=(raw_storage_guard&&)      = delete;
+    raw_storage_guard& operator=(const raw_storage_guard&) = delete;
+
+    ~raw_storage_guard()
+    {
+        if (nullptr != storage_)
+        {
+            storage_->release_raw_storage();
+        }
+    }
+
+    void complete() noexcept
+    {
+        storage_ = nullptr;
+    }
+
+private:
+    Storage* storage_;
+
+};  // raw_storage_guard
+
 // MARK: - Access policy.
 //
 template <typename Pmr, std::size_t Footprint, std::size_t Alignment>
@@ -907,7 +962,9 @@ private:
         {
             CETL_DEBUG_ASSERT(nullptr != src.value_copier_, "");
 
+            raw_storage_guard<base> guard{*this};
             src.value_copier_(src.get_raw_storage(), base::get_raw_storage());
+            guard.complete();
 
             base::copy_handlers_from(src);
         }
@@ -1394,7 +1451,9 @@ private:
             return nullptr;
         }
 
-        auto* ptr = new (raw_storage) Tp(std::forward<Args>(args)...);
+        detail::raw_storage_guard<base> guard{*this};
+        auto*                           ptr = new (raw_storage) Tp(std::forward<Args>(args)...);
+        guard.complete();
 
         base::template make_handlers<Tp>();
 
-- 
2.43.0


From fe6646e02762d3978127c84fbfe7390e414006c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:12 +0000
Subject: [PATCH 07/45] fix: copy, move and swap of an unbounded_variant which
 is valueless by exception

Copying or moving from a variant which has lost its value (because an
allocation or a value constructor failed) called a null copy or move
handler. Swapping a value into such a variant skipped the reset of its
storage.

A copy of (or a move from) such a variant has no value either. The move
assignment of the base resets the destination first, like the copy
assignment already does.
---
 include/cetl/unbounded_variant.hpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/include/cetl/unbounded_variant.hpp b/include/cetl/unbounded_variant.hpp
index 97f9080..ca18e5d 100644
--- a/include/cetl/unbounded_variant.hpp
+++ b/include/cetl/unbounded_variant.hpp
@@ -128,13 +128,14 @@ struct base_storage<void /*Pmr*/, Footprint, Alignment>
         return inplace_buffer_;
     }
 
-    CETL_NODISCARD bool copy_raw_storage_from(const base_storage& src) noexcept
+    CETL_NODISCARD bool copy_raw_storage_from(const base_storage& src, const bool src_has_value) noexcept
     {
         CETL_DEBUG_ASSERT(0UL == value_size_, "This object is expected to be a brand new (or reset) one.");
 
         value_size_ = src.value_size_;
 
-        return value_size_ > 0UL;
+        // Later we don't need to call copy-ctor for the valueless variant.
+        return src_has_value;
     }
 
     CETL_NODISCARD bool move_raw_storage_from(base_storage& src) noexcept
@@ -259,7 +260,7 @@ struct base_storage<Pmr, 0UL /*Footprint*/, Alignment>
         return allocated_buffer_;
     }
 
-    CETL_NODISCARD bool copy_raw_storage_from(const base_storage& src)
+    CETL_NODISCARD bool copy_raw_storage_from(const base_storage& src, const bool src_has_value)
     {
         CETL_DEBUG_ASSERT((0UL == value_size_) && (nullptr == allocated_buffer_),
                           "This object is expected to be a brand new (or reset) one.");
@@ -267,8 +268,10 @@ struct base_storage<Pmr, 0UL /*Footprint*/, Alignment>
         mem_res_ = src.get_memory_resource();
 
         // We don't allocate buffer for the valueless variant.
-        if (src.value_size_ == 0UL)
+        if (!src_has_value)
         {
+            value_size_ = src.value_size_;
+
             // Later we don't need to call copy-ctor for the valueless variant.
             return false;
         }
@@ -429,7 +432,7 @@ struct base_storage
         return allocated_buffer_;
     }
 
-    CETL_NODISCARD bool copy_raw_storage_from(const base_storage& src)
+    CETL_NODISCARD bool copy_raw_storage_from(const base_storage& src, const bool src_has_value)
     {
         CETL_DEBUG_ASSERT((0UL == value_size_) && (nullptr == allocated_buffer_),
                           "This object is expected to be a brand new (or reset) one.");
@@ -437,8 +440,10 @@ struct base_storage
         mem_res_ = src.get_memory_resource();
 
         // We don't even try to allocate buffer for the valueless variant.
-        if (src.value_size_ == 0UL)
+        if (!src_has_value)
         {
+            value_size_ = src.value_size_;
+
             // Later we don't need to call copy-ctor for the valueless variant.
             return false;
         }
@@ -958,7 +963,7 @@ private:
     {
         CETL_DEBUG_ASSERT(!base::has_value(), "Expected to be empty before copying from source.");
 
-        if (base::copy_raw_storage_from(src))
+        if (base::copy_raw_storage_from(src, src.has_value()))
         {
             CETL_DEBUG_ASSERT(nullptr != src.value_copier_, "");
 
@@ -1022,6 +1027,7 @@ struct base_move<Pmr, Footprint, Copyable, true /*Movable*/, Alignment>
 
     base_move& operator=(base_move&& other) noexcept
     {
+        base::reset();
         move_from(other);
         return *this;
     }
@@ -1048,7 +1054,8 @@ private:
     {
         CETL_DEBUG_ASSERT(!base::has_value(), "Expected to be empty before moving from source.");
 
-        if (base::move_raw_storage_from(src))
+        // There is nothing to move from the "valueless by exception" source.
+        if (base::move_raw_storage_from(src) && src.has_value())
         {
             CETL_DEBUG_ASSERT(nullptr != src.value_mover_, "");
 
-- 
2.43.0


From eb371cfd951a22c84a739913fee25c7c547605ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:19:40 +0000
Subject: [PATCH 08/45] fix: no stale handler in pmr::function after a failed
 assignment

When copying a callable or allocating memory for it failed during an
assignment, the function had lost its target but kept a pointer to the
destroyed handler, which operator bool() detects by a failed assertion.

Drop the pointer before the assignment.
---
 include/cetl/pmr/function.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/cetl/pmr/function.hpp b/include/cetl/pmr/function.hpp
index 2b99bc3..82ad4d0 100644
--- a/include/cetl/pmr/function.hpp
+++ b/include/cetl/pmr/function.hpp
@@ -201,7 +201,11 @@ public:
               typename              = EnableIfLvIsCallable<FunctorDecay>>
     function& operator=(Functor&& functor)
     {
-        any_handler_ = detail::functor_handler<FunctorDecay, Result, Args...>{std::forward<Functor>(functor)};
+        detail::functor_handler<FunctorDecay, Result, Args...> functor_handler{std::forward<Functor>(functor)};
+
+        // There will be no handler if the assignment below fails.
+        handler_ptr_ = nullptr;
+        any_handler_ = std::move(functor_handler);
         handler_ptr_ = get_if<handler_t>(&any_handler_);
         return *this;
     }
@@ -214,6 +218,8 @@ public:
     {
         if (this != &other)
         {
+            // There will be no handler if the assignment below fails.
+            handler_ptr_ = nullptr;
             any_handler_ = other.any_handler_;
             handler_ptr_ = get_if<handler_t>(&any_handler_);
         }
-- 
2.43.0


From 10beda166264c573f050a2d27daaa30011e3d598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:15 +0000
Subject: [PATCH 09/45] fix: self-move of MemoryResourceDeleter lost its memory
 resource

Moving (or swapping) a smart pointer with itself moves its deleter to
itself too. The deleter forgot its memory resource, so the memory of the
pointer was never returned.
---
 include/cetl/pmr/memory.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cetl/pmr/memory.hpp b/include/cetl/pmr/memory.hpp
index be4e333..0356a5e 100644
--- a/include/cetl/pmr/memory.hpp
+++ b/include/cetl/pmr/memory.hpp
@@ -69,7 +69,10 @@ public:
     /// @return Reference to this.
     MemoryResourceDeleter& operator=(MemoryResourceDeleter&& rhs) noexcept
     {
-        swap(std::move(rhs));
+        if (this != &rhs)
+        {
+            swap(std::move(rhs));
+        }
         return *this;
     }
 
-- 
2.43.0


From 7a90ff124bdc0317cca80822282efb77d914396a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:32 +0000
Subject: [PATCH 10/45] fix: Factory::make_unique destroyed an object whose
 constructor has thrown

The smart pointer owned the memory already while the object was being
constructed, so an exception from the constructor made it run the
destructor of an object which does not exist.

Let the smart pointer take over after the construction.
---
 include/cetl/pmr/memory.hpp | 58 +++++++++++++++++++++++++++++++++----
 1 file changed, 53 insertions(+), 5 deletions(-)

diff --git a/include/cetl/pmr/memory.hpp b/include/cetl/pmr/memory.hpp
index 0356a5e..fef4a87 100644
--- a/include/cetl/pmr/memory.hpp
+++ b/include/cetl/pmr/memory.hpp
@@ -238,14 +238,62 @@ public:
     static auto make_unique(PolymorphicAllocatorTypeU& alloc, Args&&... args) ->
         typename Factory::unique_ptr_t<PolymorphicAllocatorTypeU>
     {
-        typename Factory::unique_ptr_t<PolymorphicAllocatorTypeU>
-            p{alloc.allocate(1), typename Factory::unique_ptr_t<PolymorphicAllocatorTypeU>::deleter_type{alloc, 1}};
-        if (nullptr != p)
+        using UniquePtr = typename Factory::unique_ptr_t<PolymorphicAllocatorTypeU>;
+
+        // The object could throw on construction, in which case its memory has to be deallocated
+        // BUT the destructor must not be called - so smart pointer takes over only after the construction.
+        //
+        MemoryGuard<PolymorphicAllocatorTypeU> memory{alloc};
+        if (nullptr != memory.get())
         {
-            alloc.construct(p.get(), std::forward<Args>(args)...);
+            alloc.construct(memory.get(), std::forward<Args>(args)...);
         }
-        return p;
+        return UniquePtr{memory.release(), typename UniquePtr::deleter_type{alloc, 1}};
     }
+
+private:
+    /// Helper RAII class for temporal management of allocated (but not yet initialized) memory of an object.
+    ///
+    template <typename PolymorphicAllocatorType>
+    class MemoryGuard final
+    {
+        using value_type = typename PolymorphicAllocatorType::value_type;
+
+    public:
+        explicit MemoryGuard(PolymorphicAllocatorType& alloc)
+            : alloc_{alloc}
+            , ptr_{alloc.allocate(1)}
+        {
+        }
+        ~MemoryGuard()
+        {
+            if (nullptr != ptr_)
+            {
+                alloc_.deallocate(ptr_, 1);
+            }
+        }
+        MemoryGuard(const MemoryGuard&)                = delete;
+        MemoryGuard(MemoryGuard&&) noexcept            = delete;
+        MemoryGuard& operator=(const MemoryGuard&)     = delete;
+        MemoryGuard& operator=(MemoryGuard&&) noexcept = delete;
+
+        value_type* get() const noexcept
+        {
+            return ptr_;
+        }
+
+        value_type* release() noexcept
+        {
+            value_type* result{nullptr};
+            std::swap(result, ptr_);
+            return result;
+        }
+
+    private:
+        PolymorphicAllocatorType& alloc_;
+        value_type*               ptr_;
+
+    };  // MemoryGuard
 };
 
 }  // namespace pmr
-- 
2.43.0


From 6a48a75e5ca530bc97888e496ddb4e7a105af8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:17 +0000
Subject: [PATCH 11/45] fix: keep the block of a buffer memory resource when
 its reallocation fails

A reallocation that did not fit the buffer marked the buffer as unused. The
block stayed in use by the caller, so the next allocation overlapped it and
its deallocation was sent upstream.
---
 .../pmr/buffer_memory_resource_delegate.hpp     | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/cetl/pmr/buffer_memory_resource_delegate.hpp b/include/cetl/pmr/buffer_memory_resource_delegate.hpp
index 652f2db..aac4e3a 100644
--- a/include/cetl/pmr/buffer_memory_resource_delegate.hpp
+++ b/include/cetl/pmr/buffer_memory_resource_delegate.hpp
@@ -110,8 +110,7 @@ private:
         void* result = nullptr;
         if (data == in_use_)
         {
-            result  = allocate_internal_buffer(new_object_count, new_align);
-            in_use_ = result;
+            result = reallocate_internal_buffer(new_object_count, new_align);
         }
         return result;
     }
@@ -128,8 +127,7 @@ private:
         void* result = nullptr;
         if (data == in_use_)
         {
-            result  = allocate_internal_buffer(new_object_count, new_align);
-            in_use_ = result;
+            result = reallocate_internal_buffer(new_object_count, new_align);
         }
         else
         {
@@ -252,6 +250,17 @@ private:
         return result;
     }
 
+    /// Like allocate_internal_buffer but keeps the current allocation if the buffer cannot satisfy the request.
+    constexpr void* reallocate_internal_buffer(std::size_t size_bytes, std::size_t alignment)
+    {
+        void* const result = allocate_internal_buffer(size_bytes, alignment);
+        if (nullptr != result)
+        {
+            in_use_ = result;
+        }
+        return result;
+    }
+
     UpstreamMemoryResourceType* upstream_;
     void*                       buffer_;
     const std::size_t           buffer_size_bytes_;
-- 
2.43.0


From cde1077f5af94c3444989148eae0ea09652fbcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:43 +0000
Subject: [PATCH 12/45] fix: honour the upstream limit when a buffer memory
 resource reallocates

Allocations larger than upstream_max_size_bytes never reach the upstream
resource. Reallocations did.
---
 include/cetl/pmr/buffer_memory_resource_delegate.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cetl/pmr/buffer_memory_resource_delegate.hpp b/include/cetl/pmr/buffer_memory_resource_delegate.hpp
index aac4e3a..bcaf762 100644
--- a/include/cetl/pmr/buffer_memory_resource_delegate.hpp
+++ b/include/cetl/pmr/buffer_memory_resource_delegate.hpp
@@ -129,7 +129,7 @@ private:
         {
             result = reallocate_internal_buffer(new_object_count, new_align);
         }
-        else
+        else if (new_object_count <= upstream_max_size_bytes_)
         {
             result = upstream.reallocate(data, old_object_count, new_object_count, new_align);
         }
-- 
2.43.0


From ce93c2a24bb6133d9fc437c21d57b0664c504be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:28:21 +0000
Subject: [PATCH 13/45] fix: align the blocks of monotonic_buffer_resource for
 their header

The resource places its bookkeeping in front of each upstream block but
requested the block only with the alignment of the user's request. With an
alignment below alignof(void*) the bookkeeping was misaligned.
---
 include/cetl/pf17/memory_resource.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/cetl/pf17/memory_resource.hpp b/include/cetl/pf17/memory_resource.hpp
index e718ba2..0392da4 100644
--- a/include/cetl/pf17/memory_resource.hpp
+++ b/include/cetl/pf17/memory_resource.hpp
@@ -693,7 +693,10 @@ protected:
             // Simple geometric progression of buffer size growth.
             const std::size_t next_buffer_size = std::min(max_size_v, grow_from_size + (grow_from_size / 2U));
 
-            void* raw = upstream_->allocate(sizeof(BufferControl) + next_buffer_size, alignment);
+            // The block starts with a BufferControl so it must, at least, be aligned for one.
+            const std::size_t next_buffer_align = std::max(alignment, alignof(BufferControl));
+
+            void* raw = upstream_->allocate(sizeof(BufferControl) + next_buffer_size, next_buffer_align);
             if (nullptr == raw)
             {
                 // out-of-memory with no exceptions.
@@ -701,7 +704,7 @@ protected:
             }
             void* buffer = &static_cast<BufferControl*>(raw)[1];
             current_buffer_ =
-                new (raw) BufferControl{buffer, next_buffer_size, alignment, next_buffer_size, current_buffer_};
+                new (raw) BufferControl{buffer, next_buffer_size, next_buffer_align, next_buffer_size, current_buffer_};
 
             result = do_allocate_from_current_buffer(size_bytes, alignment);
         }
-- 
2.43.0


From 2e95e0efbdaed66105966c46872765d3e6194050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:58 +0000
Subject: [PATCH 14/45] fix: do not overflow in monotonic_buffer_resource for
 huge requests

The size of the next buffer was computed without regard to overflow. A huge
request made the resource take ever more small blocks from upstream until
upstream failed, and could even return a block of the wrong size.
---
 include/cetl/pf17/memory_resource.hpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/cetl/pf17/memory_resource.hpp b/include/cetl/pf17/memory_resource.hpp
index 0392da4..8d0d0ef 100644
--- a/include/cetl/pf17/memory_resource.hpp
+++ b/include/cetl/pf17/memory_resource.hpp
@@ -681,17 +681,31 @@ protected:
     {
         void* result = do_allocate_from_current_buffer(size_bytes, alignment);
 
-        const std::size_t max_size_v = max_size();
+        // The largest buffer that can be requested together with its BufferControl.
+        constexpr std::size_t max_buffer_size = std::numeric_limits<std::size_t>::max() - sizeof(BufferControl);
+        const std::size_t     max_size_v      = std::min(max_size(), max_buffer_size);
 
         while (nullptr == result)
         {
+            if (size_bytes > max_buffer_size || alignment > (max_buffer_size - size_bytes))
+            {
+                // The request plus its alignment cannot be represented by std::size_t.
+#if defined(__cpp_exceptions)
+                throw std::bad_alloc();
+#else
+                break;
+#endif
+            }
+
             // Grow the buffer starting with, at minimum 4 bytes, the current buffer size, or the requested size
             // plus alignment, whichever is larger.
             const std::size_t grow_from_size =
                 std::max({static_cast<std::size_t>(4), current_buffer_->buffer_size, size_bytes + alignment});
 
-            // Simple geometric progression of buffer size growth.
-            const std::size_t next_buffer_size = std::min(max_size_v, grow_from_size + (grow_from_size / 2U));
+            // Simple geometric progression of buffer size growth that saturates instead of overflowing.
+            const std::size_t clamped_grow_from_size = std::min(max_size_v, grow_from_size);
+            const std::size_t next_buffer_size =
+                clamped_grow_from_size + std::min(max_size_v - clamped_grow_from_size, grow_from_size / 2U);
 
             // The block starts with a BufferControl so it must, at least, be aligned for one.
             const std::size_t next_buffer_align = std::max(alignment, alignof(BufferControl));
-- 
2.43.0


From b36fee6777e24308dfb26332758e42ef9105ffdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:31:47 +0000
Subject: [PATCH 15/45] fix: polymorphic_allocator::construct of types
 supporting both conventions

A type that can be constructed with a leading as well as with a trailing
allocator made the call ambiguous. As in the standard, the leading convention
is now preferred.
---
 include/cetl/pf17/memory_resource.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cetl/pf17/memory_resource.hpp b/include/cetl/pf17/memory_resource.hpp
index 8d0d0ef..7699f89 100644
--- a/include/cetl/pf17/memory_resource.hpp
+++ b/include/cetl/pf17/memory_resource.hpp
@@ -370,7 +370,9 @@ class polymorphic_allocator
     template <typename U, typename... Args>
     struct is_trailing_allocator_constructible
     {
+        // The leading-allocator convention takes precedence where a type supports both.
         static constexpr bool value = std::uses_allocator<U, polymorphic_allocator<T>>::value &&
+                                      !is_leading_allocator_constructible<U, Args...>::value &&
                                       std::is_constructible<U, Args..., const polymorphic_allocator<T>&>::value;
     };
 
-- 
2.43.0


From 624c7e538fe16172e25ad94bf3cc5444d96272f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:31:47 +0000
Subject: [PATCH 16/45] fix: polymorphic_allocator::construct of a pair from an
 rvalue pair

The overload could never be selected because the type of the second member
could not be deduced. The members of an rvalue pair were copied.
---
 include/cetl/pf17/memory_resource.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cetl/pf17/memory_resource.hpp b/include/cetl/pf17/memory_resource.hpp
index 7699f89..ac82af7 100644
--- a/include/cetl/pf17/memory_resource.hpp
+++ b/include/cetl/pf17/memory_resource.hpp
@@ -571,7 +571,7 @@ public:
     }
 
     template <class FirstType, class SecondType, class MoveFromFirstType, class MoveFromSecondType>
-    void construct(std::pair<FirstType, FirstType>* p, std::pair<MoveFromFirstType, MoveFromSecondType>&& moveFrom)
+    void construct(std::pair<FirstType, SecondType>* p, std::pair<MoveFromFirstType, MoveFromSecondType>&& moveFrom)
     {
         construct(p,
                   std::piecewise_construct,
-- 
2.43.0


From a7a450a182ce3b83248748a3ec2020caf95d3e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:31:47 +0000
Subject: [PATCH 17/45] fix: polymorphic_allocator::reallocate wrapped around
 for huge counts

allocate() rejects a number of objects whose size in bytes cannot be
represented. reallocate() multiplied without a check and returned a block
that was too small.
---
 include/cetl/pf17/memory_resource.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/cetl/pf17/memory_resource.hpp b/include/cetl/pf17/memory_resource.hpp
index ac82af7..f5b85a6 100644
--- a/include/cetl/pf17/memory_resource.hpp
+++ b/include/cetl/pf17/memory_resource.hpp
@@ -494,6 +494,14 @@ public:
     typename std::enable_if<deviant::memory_resource_traits<memory_resource>::is_reallocate_defined::value, U>::type*
     reallocate(U* ptr, std::size_t old_object_count, std::size_t new_object_count)
     {
+        if (std::numeric_limits<std::size_t>::max() / sizeof(U) < new_object_count)
+        {
+#if defined(__cpp_exceptions)
+            throw std::bad_array_new_length();
+#else
+            return nullptr;
+#endif
+        }
         return static_cast<T*>(
             deviant::memory_resource_traits<memory_resource>::reallocate(*memory_resource_,
                                                                          ptr,
-- 
2.43.0


From 1d20c9e7e2032a774522c54c2a8cd0112c9bd0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:09 +0000
Subject: [PATCH 18/45] fix: let exceptions of memory_resource::reallocate
 reach the caller

memory_resource_traits::reallocate is documented to throw std::bad_alloc but
its implementation was noexcept and terminated the program.
---
 include/cetl/pf17/memory_resource.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/cetl/pf17/memory_resource.hpp b/include/cetl/pf17/memory_resource.hpp
index f5b85a6..2979167 100644
--- a/include/cetl/pf17/memory_resource.hpp
+++ b/include/cetl/pf17/memory_resource.hpp
@@ -272,11 +272,7 @@ private:
     // +--[reallocate_impl]---------------------------------------------------+
     template <typename U>
     static constexpr typename std::enable_if<std::is_base_of<cetl::pf17::pmr::memory_resource, U>::value>::type*
-    reallocate_impl(U&          mr,
-                    void*       ptr,
-                    std::size_t old_size_bytes,
-                    std::size_t new_size_bytes,
-                    std::size_t alignment) noexcept
+    reallocate_impl(U& mr, void* ptr, std::size_t old_size_bytes, std::size_t new_size_bytes, std::size_t alignment)
     {
         return mr.reallocate(ptr, old_size_bytes, new_size_bytes, alignment);
     }
-- 
2.43.0


From 065dd7a1e671d4a4401803597576cea09820402d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:09 +0000
Subject: [PATCH 19/45] fix: dangling arguments in piecewise
 polymorphic_allocator::construct

Arguments held by value in the tuples passed to the piecewise construct were
moved to a temporary tuple. The pair member was then constructed from
references into that destroyed temporary if the member uses allocators.
---
 include/cetl/pf17/memory_resource.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cetl/pf17/memory_resource.hpp b/include/cetl/pf17/memory_resource.hpp
index 2979167..5722420 100644
--- a/include/cetl/pf17/memory_resource.hpp
+++ b/include/cetl/pf17/memory_resource.hpp
@@ -403,7 +403,7 @@ class polymorphic_allocator
     make_pair_member_args(std::tuple<PTArgsT...>& pmArgs)
     {
         // https://cplusplus.github.io/LWG/issue2969
-        return std::tuple_cat(std::make_tuple(std::allocator_arg, *this), std::move(pmArgs));
+        return std::tuple_cat(std::make_tuple(std::allocator_arg, *this), std::tuple<PTArgsT&&...>{std::move(pmArgs)});
     }
 
     template <typename PairType, typename... PTArgsT>
@@ -412,7 +412,7 @@ class polymorphic_allocator
     make_pair_member_args(std::tuple<PTArgsT...>& pmArgs)
     {
         // https://cplusplus.github.io/LWG/issue2969
-        return std::tuple_cat(std::move(pmArgs), std::make_tuple(*this));
+        return std::tuple_cat(std::tuple<PTArgsT&&...>{std::move(pmArgs)}, std::make_tuple(*this));
     }
 
     template <typename U, typename... UArgsT>
-- 
2.43.0


From 34e0553fe6012fa7a6d4e059613260ee35a89d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:51 +0000
Subject: [PATCH 20/45] fix: throw std::bad_alloc when the built-in resource is
 out of memory

memory_resource::allocate is documented to throw unless exceptions are
disabled. MaxAlignNewDeleteResource returned the null pointer of malloc.
---
 include/cetl/pf17/sys/memory_resource.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/cetl/pf17/sys/memory_resource.hpp b/include/cetl/pf17/sys/memory_resource.hpp
index 4193a0a..7d39896 100644
--- a/include/cetl/pf17/sys/memory_resource.hpp
+++ b/include/cetl/pf17/sys/memory_resource.hpp
@@ -44,7 +44,14 @@ protected:
 #endif
             return nullptr;
         }
-        return std::malloc(size_bytes);
+        void* const result = std::malloc(size_bytes);
+#if defined(__cpp_exceptions)
+        if (nullptr == result && size_bytes > 0)
+        {
+            throw std::bad_alloc();
+        }
+#endif
+        return result;
     }
 
     void do_deallocate(void* p, std::size_t size_bytes, std::size_t alignment) override
-- 
2.43.0


From 96f1cf509c30316b6e6e1c2504c30255b8e3b915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:38:00 +0000
Subject: [PATCH 21/45] fix: fail over-aligned allocations of the o1heap memory
 resource

o1heap aligns its blocks to O1HEAP_ALIGNMENT. Requests for more were served
with memory that is not aligned as requested. The inability to align memory
is an allocation failure.
---
 include/cetl/pmr/o1heap_memory_resource_delegate.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cetl/pmr/o1heap_memory_resource_delegate.hpp b/include/cetl/pmr/o1heap_memory_resource_delegate.hpp
index 9b0194c..810c991 100644
--- a/include/cetl/pmr/o1heap_memory_resource_delegate.hpp
+++ b/include/cetl/pmr/o1heap_memory_resource_delegate.hpp
@@ -64,9 +64,9 @@ public:
 
     void* allocate(std::size_t size_bytes, std::size_t alignment = alignof(std::max_align_t))
     {
-        (void) alignment;
         // TODO: https://github.com/pavel-kirienko/o1heap/issues/13
-        void* result = o1heapAllocate(o1heap_, size_bytes);
+        // o1heap never aligns to more than O1HEAP_ALIGNMENT.
+        void* result = (alignment <= O1HEAP_ALIGNMENT) ? o1heapAllocate(o1heap_, size_bytes) : nullptr;
 
 #if defined(__cpp_exceptions)
         if (nullptr == result)
-- 
2.43.0


From b7517a4532d6b7aa086026296f7fd6ca0c069ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:02:33 +0000
Subject: [PATCH 22/45] fix: allow implicit conversion of an lvalue to
 pf17::optional

The converting constructors asked whether the argument converts to T&&, which
is never true for an lvalue of type T. As a result, `optional<int> o = x;` and
`o = x;` did not compile for an lvalue x.
---
 include/cetl/pf17/optional.hpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/include/cetl/pf17/optional.hpp b/include/cetl/pf17/optional.hpp
index 19b2e94..2217393 100644
--- a/include/cetl/pf17/optional.hpp
+++ b/include/cetl/pf17/optional.hpp
@@ -307,6 +307,12 @@ constexpr bool assignable = std::is_assignable<T, F&>::value ||        //
                             std::is_assignable<T, const F&>::value ||  //
                             std::is_assignable<T, F&&>::value ||       //
                             std::is_assignable<T, const F&&>::value;
+/// True if F is implicitly convertible to T.
+/// CAVEAT: in C++14, std::is_convertible<F, T> is not true if T is not copyable, even if F is convertible to T,
+/// so we use std::is_convertible<F, T&&> in addition, which alone is not enough because T&& does not bind to lvalue T.
+/// The specification of std::optional<> prescribes the use of T over T&& because it is written for C++17.
+template <typename F, typename T>
+constexpr bool implicitly_convertible = std::is_convertible<F, T>::value || std::is_convertible<F, T&&>::value;
 /// True if T is a specialization of optional.
 template <typename T>
 struct is_optional : std::false_type
@@ -316,18 +322,15 @@ struct is_optional<optional<T>> : std::true_type
 {};
 
 /// https://en.cppreference.com/w/cpp/utility/optional/optional
-/// CAVEAT: in C++14, std::is_convertible<F, T> is not true if T is not copyable, even if F is convertible to T,
-/// so we use std::is_convertible<F, T&&> instead.
-/// The specification of std::optional<> prescribes the use of T over T&& because it is written for C++17.
 template <typename T, typename U, bool Explicit>
-constexpr bool enable_ctor4 = (!std::is_same<bool, std::decay_t<T>>::value) &&            //
-                              std::is_constructible<T, const U&>::value &&                //
-                              (std::is_convertible<const U&, T&&>::value != Explicit) &&  //
+constexpr bool enable_ctor4 = (!std::is_same<bool, std::decay_t<T>>::value) &&      //
+                              std::is_constructible<T, const U&>::value &&          //
+                              (implicitly_convertible<const U&, T> != Explicit) &&  //
                               !convertible<T, optional<U>>;
 template <typename T, typename U, bool Explicit>
-constexpr bool enable_ctor5 = (!std::is_same<bool, std::decay_t<T>>::value) &&       //
-                              std::is_constructible<T, U&&>::value &&                //
-                              (std::is_convertible<U&&, T&&>::value != Explicit) &&  //
+constexpr bool enable_ctor5 = (!std::is_same<bool, std::decay_t<T>>::value) &&  //
+                              std::is_constructible<T, U&&>::value &&           //
+                              (implicitly_convertible<U&&, T> != Explicit) &&   //
                               !convertible<T, optional<U>>;
 template <typename T, typename U, bool Explicit>
 constexpr bool enable_ctor8 =
@@ -335,7 +338,7 @@ constexpr bool enable_ctor8 =
     (!std::is_same<std::decay_t<U>, in_place_t>::value) &&                                     //
     (!std::is_same<std::decay_t<U>, optional<T>>::value) &&                                    //
     (!(std::is_same<std::decay_t<T>, bool>::value && is_optional<std::decay_t<U>>::value)) &&  //
-    (std::is_convertible<U&&, T&&>::value != Explicit);
+    (implicitly_convertible<U&&, T> != Explicit);
 
 template <typename Expression>
 using enable_comparison = std::enable_if_t<std::is_convertible<Expression, bool>::value, bool>;
-- 
2.43.0


From 6fdd51bfabbb9fe4f359cdb59cbb008771647f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:02:47 +0000
Subject: [PATCH 23/45] fix: let exceptions out of the copy and move operations
 of pf17::optional

The base classes of optional declared their defaulted copy and move operations
noexcept unconditionally, so an exception thrown by the contained type's copy or
move operation terminated the program. Let the compiler deduce the exception
specification instead.
---
 include/cetl/pf17/optional.hpp | 44 +++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/include/cetl/pf17/optional.hpp b/include/cetl/pf17/optional.hpp
index 2217393..28e9b49 100644
--- a/include/cetl/pf17/optional.hpp
+++ b/include/cetl/pf17/optional.hpp
@@ -128,10 +128,10 @@ struct base_destruction<T, false>
             new (std::addressof(m_value)) T(std::forward<U>(other).m_value);
         }
     }
-    constexpr base_destruction(const base_destruction&) noexcept            = default;
-    constexpr base_destruction(base_destruction&&) noexcept                 = default;
-    constexpr base_destruction& operator=(const base_destruction&) noexcept = default;
-    constexpr base_destruction& operator=(base_destruction&&) noexcept      = default;
+    constexpr base_destruction(const base_destruction&)            = default;
+    constexpr base_destruction(base_destruction&&)                 = default;
+    constexpr base_destruction& operator=(const base_destruction&) = default;
+    constexpr base_destruction& operator=(base_destruction&&)      = default;
     ~base_destruction() noexcept
     {
         reset();
@@ -172,10 +172,10 @@ struct base_copy_construction<T, false> : base_destruction<T>
         : base_destruction<T>(copy_tag{}, other)
     {
     }
-    constexpr base_copy_construction(base_copy_construction&&) noexcept                 = default;
-    constexpr base_copy_construction& operator=(const base_copy_construction&) noexcept = default;
-    constexpr base_copy_construction& operator=(base_copy_construction&&) noexcept      = default;
-    ~base_copy_construction() noexcept                                                  = default;
+    constexpr base_copy_construction(base_copy_construction&&)                 = default;
+    constexpr base_copy_construction& operator=(const base_copy_construction&) = default;
+    constexpr base_copy_construction& operator=(base_copy_construction&&)      = default;
+    ~base_copy_construction() noexcept                                         = default;
 };
 
 /// MOVE CONSTRUCTION POLICY
@@ -192,16 +192,16 @@ template <typename T>
 struct base_move_construction<T, false> : base_copy_construction<T>
 {
     using base_copy_construction<T>::base_copy_construction;
-    constexpr base_move_construction() noexcept                              = default;
-    constexpr base_move_construction(const base_move_construction&) noexcept = default;
+    constexpr base_move_construction() noexcept                     = default;
+    constexpr base_move_construction(const base_move_construction&) = default;
     constexpr base_move_construction(base_move_construction&& other) noexcept(
         std::is_nothrow_move_constructible<T>::value)
         : base_copy_construction<T>(copy_tag{}, std::move(other))
     {
     }
-    constexpr base_move_construction& operator=(const base_move_construction&) noexcept = default;
-    constexpr base_move_construction& operator=(base_move_construction&&) noexcept      = default;
-    ~base_move_construction() noexcept                                                  = default;
+    constexpr base_move_construction& operator=(const base_move_construction&) = default;
+    constexpr base_move_construction& operator=(base_move_construction&&)      = default;
+    ~base_move_construction() noexcept                                         = default;
 };
 
 /// COPY ASSIGNMENT POLICY
@@ -221,9 +221,9 @@ template <typename T>
 struct base_copy_assignment<T, false> : base_move_construction<T>
 {
     using base_move_construction<T>::base_move_construction;
-    constexpr base_copy_assignment() noexcept                            = default;
-    constexpr base_copy_assignment(const base_copy_assignment&) noexcept = default;
-    constexpr base_copy_assignment(base_copy_assignment&&) noexcept      = default;
+    constexpr base_copy_assignment() noexcept                   = default;
+    constexpr base_copy_assignment(const base_copy_assignment&) = default;
+    constexpr base_copy_assignment(base_copy_assignment&&)      = default;
     constexpr base_copy_assignment& operator=(const base_copy_assignment& other) noexcept(
         std::is_nothrow_copy_assignable<T>::value && std::is_nothrow_copy_constructible<T>::value)
     {
@@ -242,8 +242,8 @@ struct base_copy_assignment<T, false> : base_move_construction<T>
         }
         return *this;
     }
-    constexpr base_copy_assignment& operator=(base_copy_assignment&&) noexcept = default;
-    ~base_copy_assignment() noexcept                                           = default;
+    constexpr base_copy_assignment& operator=(base_copy_assignment&&) = default;
+    ~base_copy_assignment() noexcept                                  = default;
 };
 
 /// MOVE ASSIGNMENT POLICY
@@ -263,10 +263,10 @@ template <typename T>
 struct base_move_assignment<T, false> : base_copy_assignment<T>
 {
     using base_copy_assignment<T>::base_copy_assignment;
-    constexpr base_move_assignment() noexcept                                       = default;
-    constexpr base_move_assignment(const base_move_assignment&) noexcept            = default;
-    constexpr base_move_assignment(base_move_assignment&&) noexcept                 = default;
-    constexpr base_move_assignment& operator=(const base_move_assignment&) noexcept = default;
+    constexpr base_move_assignment() noexcept                              = default;
+    constexpr base_move_assignment(const base_move_assignment&)            = default;
+    constexpr base_move_assignment(base_move_assignment&&)                 = default;
+    constexpr base_move_assignment& operator=(const base_move_assignment&) = default;
     constexpr base_move_assignment& operator=(base_move_assignment&& other) noexcept(
         std::is_nothrow_move_assignable<T>::value && std::is_nothrow_move_constructible<T>::value)
     {
-- 
2.43.0


From f4544eabc757a53005c04e2f6b084ac80965426c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:04:18 +0000
Subject: [PATCH 24/45] fix: compare pf17::optional using the corresponding
 operator of the values

The operators !=, <=, > and >= of two optionals were expressed through == and <,
which gives wrong answers for unordered values such as NaN. Use the operator
asked for, as documented, and keep the operand order when comparing a value with
an optional.
---
 include/cetl/pf17/optional.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/cetl/pf17/optional.hpp b/include/cetl/pf17/optional.hpp
index 28e9b49..0cb8267 100644
--- a/include/cetl/pf17/optional.hpp
+++ b/include/cetl/pf17/optional.hpp
@@ -679,7 +679,7 @@ constexpr detail::opt::enable_comparison<decltype(std::declval<const T&>() != st
     const optional<T>& lhs,
     const optional<U>& rhs)
 {
-    return !(lhs == rhs);
+    return (lhs.has_value() != rhs.has_value()) || (lhs.has_value() && ((*lhs) != (*rhs)));
 }
 template <typename T, typename U>
 constexpr detail::opt::enable_comparison<decltype(std::declval<const T&>() < std::declval<const U&>())> operator<(
@@ -693,21 +693,21 @@ constexpr detail::opt::enable_comparison<decltype(std::declval<const T&>() <= st
     const optional<T>& lhs,
     const optional<U>& rhs)
 {
-    return !(rhs < lhs);
+    return (!lhs.has_value()) || (rhs.has_value() && ((*lhs) <= (*rhs)));
 }
 template <typename T, typename U>
 constexpr detail::opt::enable_comparison<decltype(std::declval<const T&>() > std::declval<const U&>())> operator>(
     const optional<T>& lhs,
     const optional<U>& rhs)
 {
-    return rhs < lhs;
+    return lhs.has_value() && ((!rhs.has_value()) || ((*lhs) > (*rhs)));
 }
 template <typename T, typename U>
 constexpr detail::opt::enable_comparison<decltype(std::declval<const T&>() >= std::declval<const U&>())> operator>=(
     const optional<T>& lhs,
     const optional<U>& rhs)
 {
-    return !(lhs < rhs);
+    return (!rhs.has_value()) || (lhs.has_value() && ((*lhs) >= (*rhs)));
 }
 /// @}
 
@@ -806,7 +806,7 @@ constexpr detail::opt::enable_comparison<decltype(std::declval<const T&>() != st
     const T&           value,
     const optional<U>& opt)
 {
-    return (!opt.has_value()) || ((*opt) != value);
+    return (!opt.has_value()) || (value != (*opt));
 }
 template <typename T, typename U>
 constexpr detail::opt::enable_comparison<decltype(std::declval<const T&>() < std::declval<const U&>())> operator<(
-- 
2.43.0


From 2ea795c1564ef48541107a795c9eff5fc3b5a4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:19:35 +0000
Subject: [PATCH 25/45] fix: variant: constrain emplace from an initializer
 list on the list

The overloads of emplace that take an initializer list were available when the
alternative could be constructed from the remaining arguments alone.  A type
that is constructible from the list and the arguments, but not from the
arguments, could not be emplaced.
---
 include/cetl/pf17/variant.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/cetl/pf17/variant.hpp b/include/cetl/pf17/variant.hpp
index 3357e0f..0a46bed 100644
--- a/include/cetl/pf17/variant.hpp
+++ b/include/cetl/pf17/variant.hpp
@@ -991,8 +991,8 @@ public:
     template <typename T,
               typename U,
               typename... Args,
-              std::size_t Ix                                                  = index_of<T>,
-              std::enable_if_t<std::is_constructible<T, Args...>::value, int> = 0>
+              std::size_t Ix                                                                             = index_of<T>,
+              std::enable_if_t<std::is_constructible<T, std::initializer_list<U>&, Args...>::value, int> = 0>
     T& emplace(const std::initializer_list<U> il, Args&&... ar)
     {
         return this->template set<Ix>(il, std::forward<Args>(ar)...);
@@ -1009,9 +1009,9 @@ public:
     template <std::size_t Ix,
               typename U,
               typename... Args,
-              std::enable_if_t<(Ix < sizeof...(Ts)), int>                     = 0,
-              typename T                                                      = variant_alternative_t<Ix, variant>,
-              std::enable_if_t<std::is_constructible<T, Args...>::value, int> = 0>
+              std::enable_if_t<(Ix < sizeof...(Ts)), int> = 0,
+              typename T                                  = variant_alternative_t<Ix, variant>,
+              std::enable_if_t<std::is_constructible<T, std::initializer_list<U>&, Args...>::value, int> = 0>
     T& emplace(const std::initializer_list<U> il, Args&&... ar)
     {
         return this->template set<Ix>(il, std::forward<Args>(ar)...);
-- 
2.43.0


From e4eee2a658941c452d86cf779b0c31cb13a26c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:19:54 +0000
Subject: [PATCH 26/45] fix: variant: accept assignment from a value whose move
 may throw

When the alternative is made in a temporary first, it is the alternative that
is moved afterwards, so it is the alternative that has to be nothrow movable.
The assertion looked at the assigned value instead and rejected valid code.
---
 include/cetl/pf17/variant.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cetl/pf17/variant.hpp b/include/cetl/pf17/variant.hpp
index 0a46bed..7e530b1 100644
--- a/include/cetl/pf17/variant.hpp
+++ b/include/cetl/pf17/variant.hpp
@@ -1079,8 +1079,8 @@ private:
     template <std::size_t Ix, typename U, typename Alt = nth_type<Ix>>
     std::enable_if_t<!allows_direct_conversion<U, Alt>> convert_from(U&& from)
     {  // This is never noexcept, otherwise we would have chosen the simpler case.
-        static_assert(std::is_move_constructible<U>::value && std::is_nothrow_move_constructible<U>::value,
-                      "U shall be nothrow move constructible in this context; the implementation appears broken");
+        static_assert(std::is_move_constructible<Alt>::value && std::is_nothrow_move_constructible<Alt>::value,
+                      "Alt shall be nothrow move constructible in this context; the implementation appears broken");
         this->template set<Ix>(Alt(std::forward<U>(from)));
     }
 };
-- 
2.43.0


From ddb5d7c861a14cca5afcf69b22d3103c681ce2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:26:32 +0000
Subject: [PATCH 27/45] fix: variant: compare alternatives with the operator
 that was asked for

The operators !=, >, <= and >= were expressed through == and <, which gives
the wrong answer when the alternatives are not totally ordered: two variants
holding a NaN were reported to be <= and >= each other.  The old definition is
kept for alternatives that only define == and <.
---
 include/cetl/pf17/variant.hpp | 122 ++++++++++++++++++++++++++++++++--
 1 file changed, 118 insertions(+), 4 deletions(-)

diff --git a/include/cetl/pf17/variant.hpp b/include/cetl/pf17/variant.hpp
index 7e530b1..ead54f2 100644
--- a/include/cetl/pf17/variant.hpp
+++ b/include/cetl/pf17/variant.hpp
@@ -775,6 +775,51 @@ constexpr decltype(auto) visit(F&& fun, V0&& var0, Vs&&... vars)
         std::forward<V0>(var0));
 }
 
+// --------------------------------------------------------------------------------------------------------------------
+
+/// Comparisons of alternatives by the operator of the alternative. The overloads accepting long are the fallbacks for
+/// the alternatives that only define the equality and less-than operators.
+template <typename T>
+constexpr auto not_equal(const T& lhs, const T& rhs, int) -> decltype(static_cast<bool>(lhs != rhs))
+{
+    return static_cast<bool>(lhs != rhs);
+}
+template <typename T>
+constexpr bool not_equal(const T& lhs, const T& rhs, long)
+{
+    return !static_cast<bool>(lhs == rhs);
+}
+template <typename T>
+constexpr auto greater(const T& lhs, const T& rhs, int) -> decltype(static_cast<bool>(lhs > rhs))
+{
+    return static_cast<bool>(lhs > rhs);
+}
+template <typename T>
+constexpr bool greater(const T& lhs, const T& rhs, long)
+{
+    return static_cast<bool>(rhs < lhs);
+}
+template <typename T>
+constexpr auto less_equal(const T& lhs, const T& rhs, int) -> decltype(static_cast<bool>(lhs <= rhs))
+{
+    return static_cast<bool>(lhs <= rhs);
+}
+template <typename T>
+constexpr bool less_equal(const T& lhs, const T& rhs, long)
+{
+    return !static_cast<bool>(rhs < lhs);
+}
+template <typename T>
+constexpr auto greater_equal(const T& lhs, const T& rhs, int) -> decltype(static_cast<bool>(lhs >= rhs))
+{
+    return static_cast<bool>(lhs >= rhs);
+}
+template <typename T>
+constexpr bool greater_equal(const T& lhs, const T& rhs, long)
+{
+    return !static_cast<bool>(lhs < rhs);
+}
+
 }  // namespace var
 }  // namespace detail
 
@@ -1202,7 +1247,18 @@ constexpr bool operator==(const variant<Ts...>& lhs, const variant<Ts...>& rhs)
 template <typename... Ts>
 constexpr bool operator!=(const variant<Ts...>& lhs, const variant<Ts...>& rhs)
 {
-    return !(lhs == rhs);
+    if (lhs.index() != rhs.index())
+    {
+        return true;
+    }
+    if (lhs.valueless_by_exception())
+    {
+        return false;
+    }
+    return detail::var::chronomorphize<sizeof...(
+        Ts)>([&lhs, &rhs](
+                 const auto index) { return detail::var::not_equal(get<index.value>(lhs), get<index.value>(rhs), 0); },
+             lhs.index());
 }
 template <typename... Ts>
 constexpr bool operator<(const variant<Ts...>& lhs, const variant<Ts...>& rhs)
@@ -1231,17 +1287,75 @@ constexpr bool operator<(const variant<Ts...>& lhs, const variant<Ts...>& rhs)
 template <typename... Ts>
 constexpr bool operator>(const variant<Ts...>& lhs, const variant<Ts...>& rhs)
 {
-    return rhs < lhs;
+    if (lhs.valueless_by_exception())
+    {
+        return false;
+    }
+    if (rhs.valueless_by_exception())
+    {
+        return true;
+    }
+    if (lhs.index() > rhs.index())
+    {
+        return true;
+    }
+    if (lhs.index() < rhs.index())
+    {
+        return false;
+    }
+    return detail::var::chronomorphize<sizeof...(
+        Ts)>([&lhs,
+              &rhs](const auto index) { return detail::var::greater(get<index.value>(lhs), get<index.value>(rhs), 0); },
+             lhs.index());
 }
 template <typename... Ts>
 constexpr bool operator<=(const variant<Ts...>& lhs, const variant<Ts...>& rhs)
 {
-    return !(rhs < lhs);
+    if (lhs.valueless_by_exception())
+    {
+        return true;
+    }
+    if (rhs.valueless_by_exception())
+    {
+        return false;
+    }
+    if (lhs.index() < rhs.index())
+    {
+        return true;
+    }
+    if (lhs.index() > rhs.index())
+    {
+        return false;
+    }
+    return detail::var::chronomorphize<sizeof...(
+        Ts)>([&lhs, &rhs](
+                 const auto index) { return detail::var::less_equal(get<index.value>(lhs), get<index.value>(rhs), 0); },
+             lhs.index());
 }
 template <typename... Ts>
 constexpr bool operator>=(const variant<Ts...>& lhs, const variant<Ts...>& rhs)
 {
-    return !(lhs < rhs);
+    if (rhs.valueless_by_exception())
+    {
+        return true;
+    }
+    if (lhs.valueless_by_exception())
+    {
+        return false;
+    }
+    if (lhs.index() > rhs.index())
+    {
+        return true;
+    }
+    if (lhs.index() < rhs.index())
+    {
+        return false;
+    }
+    return detail::var::chronomorphize<sizeof...(
+        Ts)>([&lhs,
+              &rhs](const auto
+                        index) { return detail::var::greater_equal(get<index.value>(lhs), get<index.value>(rhs), 0); },
+             lhs.index());
 }
 
 }  // namespace pf17
-- 
2.43.0


From 928451fe98a77aa9d88c6f1749b396b2f5a06e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:19:54 +0000
Subject: [PATCH 28/45] fix: variant: return references from visit as
 references

A visitor that returns a reference for every alternative had its result copied
into a temporary, so that writing through the result had no effect, binding it
to a reference did not compile, and visitors returning references to objects
that cannot be copied were rejected.  When the results differ in type they are
converted to their common type, as before.
---
 include/cetl/pf17/variant.hpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/include/cetl/pf17/variant.hpp b/include/cetl/pf17/variant.hpp
index ead54f2..204da2e 100644
--- a/include/cetl/pf17/variant.hpp
+++ b/include/cetl/pf17/variant.hpp
@@ -66,6 +66,20 @@ using req = std::enable_if_t<C, int>;
 
 // --------------------------------------------------------------------------------------------------------------------
 
+/// The result type of a call that selects one of several functions: if all of them return the same type, it is kept
+/// as-is, so that references remain references; otherwise, it is the common type.
+template <bool same, typename R, typename... Rs>
+struct common_result_impl : std::common_type<R, Rs...>
+{};
+template <typename R, typename... Rs>
+struct common_result_impl<true, R, Rs...>
+{
+    using type = R;
+};
+template <typename R, typename... Rs>
+struct common_result : common_result_impl<conjunction_v<std::is_same<R, Rs>...>, R, Rs...>
+{};
+
 template <typename>
 struct chronomorphize_impl;
 template <std::size_t... Is>
@@ -78,8 +92,8 @@ struct chronomorphize_impl<std::index_sequence<Is...>>
         static decltype(auto)
         lookup(F&& fun, const std::size_t index, Args&&... ar)
     {
-        using R = std::common_type_t<decltype(std::forward<F>(fun)(std::integral_constant<std::size_t, Is>{},
-                                                                   std::forward<Args>(ar)...))...>;
+        using R = typename common_result<decltype(std::forward<F>(fun)(std::integral_constant<std::size_t, Is>{},
+                                                                       std::forward<Args>(ar)...))...>::type;
 #if __cplusplus >= 201703L
         constexpr
 #else
@@ -752,7 +766,7 @@ constexpr decltype(auto) visit(F&& fun, V&& var)
 {
     // https://twitter.com/PavelKirienko/status/1761525562370040002
     return chronomorphize(
-        [&fun, &var](const auto index) {
+        [&fun, &var](const auto index) -> decltype(auto) {
             return std::forward<F>(fun)(alt<index.value>(std::forward<V>(var)));  //
         },
         var);
@@ -765,9 +779,9 @@ constexpr decltype(auto) visit(F&& fun, V0&& var0, Vs&&... vars)
     // per variant. The recursive structure below builds a Cartesian product of the variant combinations
     // one level at a time starting with the leftmost variant. The complexity is one table jump per variant level.
     return visit(
-        [&](auto&& hh) {  // https://twitter.com/PavelKirienko/status/1761525562370040002
+        [&](auto&& hh) -> decltype(auto) {  // https://twitter.com/PavelKirienko/status/1761525562370040002
             return visit(
-                [&](auto&&... tt) {
+                [&](auto&&... tt) -> decltype(auto) {
                     return std::forward<F>(fun)(std::forward<decltype(hh)>(hh), std::forward<decltype(tt)>(tt)...);
                 },
                 std::forward<Vs>(vars)...);
-- 
2.43.0


From d944114fc86fd6e5c6dde7aff046dd774aafb14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:28:25 +0000
Subject: [PATCH 29/45] fix: visit_helpers: include the header that declares
 std::forward

The header did not compile unless <utility> had been included before it.
---
 include/cetl/visit_helpers.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cetl/visit_helpers.hpp b/include/cetl/visit_helpers.hpp
index b522a10..adf53d1 100644
--- a/include/cetl/visit_helpers.hpp
+++ b/include/cetl/visit_helpers.hpp
@@ -10,6 +10,7 @@
 #define CETL_VISIT_HELPERS_HPP_INCLUDED
 
 #include <type_traits>
+#include <utility>
 
 namespace cetl
 {
-- 
2.43.0


From 5c3085d73d8e541e730e2c8b084804c5b0028043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:28:25 +0000
Subject: [PATCH 30/45] fix: make_overloaded: accept callables that are lvalues

A named lambda made the function attempt to inherit from a reference, which
does not compile.  Such callables are now copied into the overload set.
---
 include/cetl/visit_helpers.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/cetl/visit_helpers.hpp b/include/cetl/visit_helpers.hpp
index adf53d1..d22cdfb 100644
--- a/include/cetl/visit_helpers.hpp
+++ b/include/cetl/visit_helpers.hpp
@@ -41,7 +41,7 @@ struct overloaded<T, Ts...> : public T, public overloaded<Ts...>
     template <typename A, typename... B, std::enable_if_t<(sizeof...(B) > 0), int> = 0>
     constexpr explicit overloaded(A&& a, B&&... b)
         : T(std::forward<A>(a))
-        , overloaded<B...>(std::forward<B>(b)...)
+        , overloaded<Ts...>(std::forward<B>(b)...)
     {
     }
 };
@@ -55,9 +55,9 @@ struct overloaded<T, Ts...> : public T, public overloaded<Ts...>
 /// ), variant);
 /// @endcode
 template <typename... Ts>
-constexpr overloaded<Ts...> make_overloaded(Ts&&... ts)
+constexpr overloaded<std::decay_t<Ts>...> make_overloaded(Ts&&... ts)
 {
-    return overloaded<Ts...>(std::forward<Ts>(ts)...);
+    return overloaded<std::decay_t<Ts>...>(std::forward<Ts>(ts)...);
 }
 
 }  // namespace cetl
-- 
2.43.0


From 4ee1e1b100d495ea99facd2335903ba110e40a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:37:30 +0000
Subject: [PATCH 31/45] fix: rtti: ignore references and cv-qualifiers in
 type_id_value

The documentation says that T and const T& are the same type, and has_type_id
holds for both, but type_id_value<const T&> did not compile, and neither did
type_id_value<const T> for a type that has a specialization of type_id_getter.
---
 include/cetl/rtti.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cetl/rtti.hpp b/include/cetl/rtti.hpp
index 28c02a7..f50de89 100644
--- a/include/cetl/rtti.hpp
+++ b/include/cetl/rtti.hpp
@@ -98,8 +98,9 @@ constexpr type_id type_id_getter<void>() noexcept
 /// The type ID value of the given type.
 /// This helper is provided for regularity; it has the same value as \c T::_get_type_id_().
 /// The type shall satisfy \ref cetl::has_type_id.
+/// CV-qualifiers and references are not considered.
 template <typename T>
-constexpr type_id type_id_value = type_id_getter<T>();
+constexpr type_id type_id_value = type_id_getter<std::remove_cv_t<std::remove_reference_t<T>>>();
 
 /// An alternative implementation of simple runtime type information (RTTI) capability designed for high-integrity
 /// real-time systems, where the use of the standard C++ RTTI is discouraged.
-- 
2.43.0


From 4302e651516f754694fc307da72331657d405479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:41:35 +0000
Subject: [PATCH 32/45] fix: unbounded_variant: provide assignment exactly when
 it is enabled

The assignment operators were always declared.  A variant that is not copyable
reported to be copy assignable although assigning it did not compile, and a
variant that is copyable but not movable could not be assigned from an rvalue,
while it could be constructed from one.  Let the base classes, which delete
the operators that are not enabled, decide.
---
 include/cetl/unbounded_variant.hpp | 34 +++++++++++-------------------
 1 file changed, 12 insertions(+), 22 deletions(-)

diff --git a/include/cetl/unbounded_variant.hpp b/include/cetl/unbounded_variant.hpp
index ca18e5d..1924bd6 100644
--- a/include/cetl/unbounded_variant.hpp
+++ b/include/cetl/unbounded_variant.hpp
@@ -936,8 +936,11 @@ struct base_copy<Pmr, Footprint, true /*Copyable*/, Moveable, Alignment>
 
     base_copy& operator=(const base_copy& other)
     {
-        base::reset();
-        copy_from(other);
+        if (this != &other)
+        {
+            base::reset();
+            copy_from(other);
+        }
         return *this;
     }
 
@@ -1027,8 +1030,11 @@ struct base_move<Pmr, Footprint, Copyable, true /*Movable*/, Alignment>
 
     base_move& operator=(base_move&& other) noexcept
     {
-        base::reset();
-        move_from(other);
+        if (this != &other)
+        {
+            base::reset();
+            move_from(other);
+        }
         return *this;
     }
 
@@ -1311,30 +1317,14 @@ public:
     /// Any failure during the copy operation will result in the "valueless by exception" state.
     /// In case of enabled PMR support, the memory resource pointer is copied from the `rhs` variant.
     ///
-    unbounded_variant& operator=(const unbounded_variant& rhs)
-    {
-        if (this != &rhs)
-        {
-            reset();
-            base::operator=(rhs);
-        }
-        return *this;
-    }
+    unbounded_variant& operator=(const unbounded_variant& rhs) = default;
 
     /// \brief Assigns the content of `rhs` to `*this` using move semantics.
     ///
     /// Any failure during the move operation will result in the "valueless by exception" state.
     /// In case of enabled PMR support, the memory resource pointer is copied from the `rhs` variant.
     ///
-    unbounded_variant& operator=(unbounded_variant&& rhs) noexcept
-    {
-        if (this != &rhs)
-        {
-            reset();
-            base::operator=(std::move(rhs));
-        }
-        return *this;
-    }
+    unbounded_variant& operator=(unbounded_variant&& rhs) noexcept = default;
 
     /// \brief Assigns `value` to `*this` by forwarding its value.
     ///
-- 
2.43.0


From 801e0989416ed04c9a01a4bf7b3ef4f08e9cfdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:59:51 +0000
Subject: [PATCH 33/45] fix: is_swappable: accept a swap function that returns
 a value

The type returned by swap() was compared with void, so a type whose own
swap() returns anything else was reported as not swappable.
---
 include/cetl/pf17/type_traits.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cetl/pf17/type_traits.hpp b/include/cetl/pf17/type_traits.hpp
index 8836be0..569db26 100644
--- a/include/cetl/pf17/type_traits.hpp
+++ b/include/cetl/pf17/type_traits.hpp
@@ -28,7 +28,7 @@ template <typename T, typename = void>
 struct is_swappable : std::false_type
 {};
 template <typename T>
-struct is_swappable<T, decltype(swap(std::declval<T&>(), std::declval<T&>()))> : std::true_type
+struct is_swappable<T, decltype(static_cast<void>(swap(std::declval<T&>(), std::declval<T&>())))> : std::true_type
 {};
 
 template <typename T, bool = is_swappable<T>::value>
-- 
2.43.0


From bd4a49b1bfcc0dfdfc237bec5e3e3ac3179474e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:17:40 +0000
Subject: [PATCH 34/45] fix: string_view: find an empty needle at the end of
 the view

An empty sequence is found at the position where the search starts, also
when that is the end of the view or when the view itself is empty.
---
 include/cetl/pf17/string_view.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/cetl/pf17/string_view.hpp b/include/cetl/pf17/string_view.hpp
index ce2ca61..e76a056 100644
--- a/include/cetl/pf17/string_view.hpp
+++ b/include/cetl/pf17/string_view.hpp
@@ -332,6 +332,10 @@ public:
         {
             return npos;
         }
+        if (sv.size_ == 0)
+        {
+            return pos;
+        }
         const const_iterator result = std::search(data_ + pos, data_ + size_, sv.data_, sv.data_ + sv.size_);
         return result != data_ + size_ ? static_cast<size_type>(result - data_) : npos;
     }
-- 
2.43.0


From d733ca56b4cf969524ff991b768b0e2d12b88a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:17:40 +0000
Subject: [PATCH 35/45] fix: string_view: use the character traits in find

Characters were compared with operator== even when the traits of the view
define equality in another way.
---
 include/cetl/pf17/string_view.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cetl/pf17/string_view.hpp b/include/cetl/pf17/string_view.hpp
index e76a056..0fcf369 100644
--- a/include/cetl/pf17/string_view.hpp
+++ b/include/cetl/pf17/string_view.hpp
@@ -320,7 +320,8 @@ public:
         {
             return npos;
         }
-        const const_iterator result = std::find(data_ + pos, data_ + size_, ch);
+        const const_iterator result =
+            std::find_if(data_ + pos, data_ + size_, [ch](const CharT x) { return traits_type::eq(x, ch); });
         return result != data_ + size_ ? static_cast<size_type>(result - data_) : npos;
     }
 
@@ -336,7 +337,8 @@ public:
         {
             return pos;
         }
-        const const_iterator result = std::search(data_ + pos, data_ + size_, sv.data_, sv.data_ + sv.size_);
+        const const_iterator result =
+            std::search(data_ + pos, data_ + size_, sv.data_, sv.data_ + sv.size_, traits_type::eq);
         return result != data_ + size_ ? static_cast<size_type>(result - data_) : npos;
     }
 
-- 
2.43.0


From 91858445c8f49d73b1a5cede9bea82c40575fd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:17:40 +0000
Subject: [PATCH 36/45] fix: string_view: pad stream output unless it is
 left-adjusted on the left

With a field width but without the left or right flag (the default), or with
the internal flag, nothing was padded. Padding goes before the text unless the
output is left-adjusted. The width is only reset when something was written.
---
 include/cetl/pf17/string_view.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/cetl/pf17/string_view.hpp b/include/cetl/pf17/string_view.hpp
index 0fcf369..15007fd 100644
--- a/include/cetl/pf17/string_view.hpp
+++ b/include/cetl/pf17/string_view.hpp
@@ -364,10 +364,9 @@ public:
                 };
 
                 const std::streamsize padding_len = width - sv_length;
-                const bool            left        = os.flags() & std::basic_ios<CharT, Traits>::left;
-                const bool            right       = os.flags() & std::basic_ios<CharT, Traits>::right;
+                const bool            left        = (os.flags() & std::ios_base::adjustfield) == std::ios_base::left;
 
-                if (right)
+                if (!left)
                 {
                     pad(padding_len);
                 }
@@ -381,8 +380,8 @@ public:
             {
                 os.write(sv.data(), sv_length);
             }
+            os.width(0);
         }
-        os.width(0);
         return os;
     }
 
-- 
2.43.0


From 7da005dc620a96f3941efedc1e0be0cea993aa17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:21:59 +0000
Subject: [PATCH 37/45] fix: span: construct a span of static extent only from
 an array of that length

The length of the array was deduced without being compared with the extent,
so a span of five elements could be made from an array of two.
---
 include/cetl/pf20/span.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cetl/pf20/span.hpp b/include/cetl/pf20/span.hpp
index 7a5cb5a..c0149f0 100644
--- a/include/cetl/pf20/span.hpp
+++ b/include/cetl/pf20/span.hpp
@@ -131,7 +131,7 @@ public:
     /// Creates a span starting at the first element of a c-style array through to the end of that array.
     /// @param arr  Reference to a C-style array.
     /// @see std::span::span()
-    template <std::size_t DeducedExtent = Extent, typename std::enable_if<(DeducedExtent != 0), bool>::type = true>
+    template <std::size_t DeducedExtent, typename std::enable_if<(DeducedExtent == Extent), bool>::type = true>
     constexpr span(element_type (&arr)[DeducedExtent]) noexcept
         : data_(arr)
     {
-- 
2.43.0


From f1c80488185498aa886f814994a7acc9a34afd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:21:59 +0000
Subject: [PATCH 38/45] fix: span: accept an end pointer that differs in
 constness from the element type

A span of constant elements could not be made from a pair of pointers to
mutable elements because std::distance() requires iterators of the same type.
---
 include/cetl/pf20/span.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/cetl/pf20/span.hpp b/include/cetl/pf20/span.hpp
index c0149f0..ba12cf8 100644
--- a/include/cetl/pf20/span.hpp
+++ b/include/cetl/pf20/span.hpp
@@ -125,7 +125,7 @@ public:
         : data_(first)
     {
         (void) end;  // Last isn't actually used in static spans.
-        CETL_DEBUG_ASSERT(std::distance(first, end) == Extent, "CDE_span_002: Iterator range does not equal Extent.");
+        CETL_DEBUG_ASSERT((end - first) == Extent, "CDE_span_002: Iterator range does not equal Extent.");
     }
 
     /// Creates a span starting at the first element of a c-style array through to the end of that array.
@@ -525,11 +525,11 @@ public:
               typename std::enable_if<!std::is_convertible<EndType, size_type>::value, bool>::type = true>
     constexpr span(pointer first, EndType end)
         : data_{first}
-        , size_{static_cast<size_type>(std::distance(first, end))}
+        , size_{static_cast<size_type>(end - first)}
     {
         static_assert(sizeof(size_type) >= sizeof(typename std::iterator_traits<EndType>::difference_type),
                       "Signed conversion is not safe if the iterator difference type is larger than our size_type");
-        CETL_DEBUG_ASSERT(std::distance(first, end) >= 0,
+        CETL_DEBUG_ASSERT((end - first) >= 0,
                           "CDE_span_012: Negative distance between first and end iterators is undefined.");
     }
 
-- 
2.43.0


From 270fd1f4d6991abb00375934c2a93682126baae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:05:34 +0000
Subject: [PATCH 39/45] fix: VariableLengthArray returns no null block to its
 allocator

Destroying or growing an array that never allocated called deallocate()
with a null pointer. Allocators may only be given back what they handed
out; with std::pmr::polymorphic_allocator this is undefined behaviour.
---
 include/cetl/variable_length_array.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index 6489708..f0274cb 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -234,7 +234,10 @@ protected:
         typename std::enable_if_t<std::is_trivially_destructible<U>::value>* = nullptr)
     {
         fast_destroy(src, src_size_count);
-        alloc.deallocate(src, src_capacity_count);
+        if (src != nullptr)
+        {
+            alloc.deallocate(src, src_capacity_count);
+        }
     }
 
     ///
@@ -249,7 +252,10 @@ protected:
         typename std::enable_if_t<!std::is_trivially_destructible<U>::value>* = nullptr)
     {
         fast_destroy(src, src_size_count);
-        alloc.deallocate(src, src_capacity_count);
+        if (src != nullptr)
+        {
+            alloc.deallocate(src, src_capacity_count);
+        }
     }
 
     // +----------------------------------------------------------------------+
-- 
2.43.0


From 9970a18037fedbd315a07d265592f98a81e2d645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:35:22 +0000
Subject: [PATCH 40/45] fix: pmr::function passes arguments on with their value
 category

Arguments were passed to the stored callable as lvalues. Parameters of
move-only types and rvalue references did not compile, and a callable
with overloads for lvalues and rvalues was called differently than by
std::function.
---
 include/cetl/pmr/function.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cetl/pmr/function.hpp b/include/cetl/pmr/function.hpp
index 82ad4d0..bb41330 100644
--- a/include/cetl/pmr/function.hpp
+++ b/include/cetl/pmr/function.hpp
@@ -12,6 +12,7 @@
 #include <exception>
 #include <functional>
 #include <type_traits>
+#include <utility>
 
 namespace cetl
 {
@@ -62,7 +63,7 @@ public:
 
     Result operator()(Args... args) override
     {
-        return functor_(args...);
+        return functor_(std::forward<Args>(args)...);
     }
 
 private:
@@ -273,7 +274,7 @@ public:
 
         CETL_DEBUG_ASSERT(nullptr != handler_ptr_, "");
 
-        return handler_ptr_->operator()(args...);
+        return handler_ptr_->operator()(std::forward<Args>(args)...);
     }
 
     /// @brief Resets the current target. `*this` is empty after the call.
-- 
2.43.0


From 4af09b3fc8e5e225142ecea0ca66c8b37dba26cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:35:38 +0000
Subject: [PATCH 41/45] fix: pmr::function<void(...)> accepts callables that
 return a value

As with std::function, the result is dropped.
---
 include/cetl/pmr/function.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/cetl/pmr/function.hpp b/include/cetl/pmr/function.hpp
index bb41330..f7155a6 100644
--- a/include/cetl/pmr/function.hpp
+++ b/include/cetl/pmr/function.hpp
@@ -63,10 +63,21 @@ public:
 
     Result operator()(Args... args) override
     {
-        return functor_(std::forward<Args>(args)...);
+        return invoke(std::is_void<Result>{}, std::forward<Args>(args)...);
     }
 
 private:
+    // The result of the functor (if any) is dropped in case of `void` result type.
+    void invoke(std::true_type, Args&&... args)
+    {
+        functor_(std::forward<Args>(args)...);
+    }
+
+    Result invoke(std::false_type, Args&&... args)
+    {
+        return functor_(std::forward<Args>(args)...);
+    }
+
     Functor functor_;
 
 };  // functor_handler
-- 
2.43.0


From 9168ecede4f9711a6da08a78df87b85c23a01c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:44:11 +0000
Subject: [PATCH 42/45] fix: hold values of types that are const or declare
 their own operator new

optional, variant, unbounded_variant and polymorphic_allocator::construct used a placement new expression that looks
up operator new in the class of the value. A class that declares its own operator new, for instance to forbid the use
of the heap, could not be stored. emplace was ill-formed for const-qualified types for a similar reason.
---
 include/cetl/pf17/memory_resource.hpp |  6 +++---
 include/cetl/pf17/optional.hpp        | 25 ++++++++++++++++---------
 include/cetl/pf17/variant.hpp         |  4 +++-
 include/cetl/unbounded_variant.hpp    |  6 +++---
 4 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/include/cetl/pf17/memory_resource.hpp b/include/cetl/pf17/memory_resource.hpp
index 5722420..ac47d79 100644
--- a/include/cetl/pf17/memory_resource.hpp
+++ b/include/cetl/pf17/memory_resource.hpp
@@ -420,7 +420,7 @@ class polymorphic_allocator
         U* p,
         UArgsT&&... uArgs)
     {
-        new (p) U(std::forward<UArgsT>(uArgs)...);
+        ::new (static_cast<void*>(p)) U(std::forward<UArgsT>(uArgs)...);
     }
 
     template <typename U, typename... UArgsT>
@@ -429,7 +429,7 @@ class polymorphic_allocator
         UArgsT&&... uArgs)
     {
         // https://cplusplus.github.io/LWG/issue2969
-        new (p) U(std::allocator_arg, *this, std::forward<UArgsT>(uArgs)...);
+        ::new (static_cast<void*>(p)) U(std::allocator_arg, *this, std::forward<UArgsT>(uArgs)...);
     }
 
     template <typename U, typename... UArgsT>
@@ -438,7 +438,7 @@ class polymorphic_allocator
         UArgsT&&... uArgs)
     {
         // https://cplusplus.github.io/LWG/issue2969
-        new (p) U(std::forward<UArgsT>(uArgs)..., *this);
+        ::new (static_cast<void*>(p)) U(std::forward<UArgsT>(uArgs)..., *this);
     }
 
     // +-----------------------------------------------------------------------+
diff --git a/include/cetl/pf17/optional.hpp b/include/cetl/pf17/optional.hpp
index 0cb8267..3626a9a 100644
--- a/include/cetl/pf17/optional.hpp
+++ b/include/cetl/pf17/optional.hpp
@@ -66,6 +66,13 @@ namespace opt
 struct copy_tag final
 {};
 
+/// The place to construct a value in. The type of the value may be const-qualified or declare its own operator new.
+template <typename T>
+void* raw_storage(T& value) noexcept
+{
+    return const_cast<void*>(static_cast<const volatile void*>(std::addressof(value)));
+}
+
 /// DESTRUCTION POLICY
 template <typename T, bool = std::is_trivially_destructible<T>::value>
 struct base_destruction;
@@ -90,7 +97,7 @@ struct base_destruction<T, true>
     {
         if (m_engaged)
         {
-            new (std::addressof(m_value)) T(std::forward<U>(other).m_value);
+            ::new (detail::opt::raw_storage(m_value)) T(std::forward<U>(other).m_value);
         }
     }
     void reset() noexcept
@@ -125,7 +132,7 @@ struct base_destruction<T, false>
     {
         if (m_engaged)
         {
-            new (std::addressof(m_value)) T(std::forward<U>(other).m_value);
+            ::new (detail::opt::raw_storage(m_value)) T(std::forward<U>(other).m_value);
         }
     }
     constexpr base_destruction(const base_destruction&)            = default;
@@ -233,7 +240,7 @@ struct base_copy_assignment<T, false> : base_move_construction<T>
         }
         else if (other.m_engaged)
         {
-            new (std::addressof(this->m_value)) T(other.m_value);
+            ::new (detail::opt::raw_storage(this->m_value)) T(other.m_value);
             this->m_engaged = true;
         }
         else
@@ -276,7 +283,7 @@ struct base_move_assignment<T, false> : base_copy_assignment<T>
         }
         else if (other.m_engaged)
         {
-            new (std::addressof(this->m_value)) T(std::move(other.m_value));
+            ::new (detail::opt::raw_storage(this->m_value)) T(std::move(other.m_value));
             this->m_engaged = true;
         }
         else
@@ -462,7 +469,7 @@ public:
         }
         else
         {
-            new (std::addressof(this->m_value)) T(std::forward<U>(value));
+            ::new (detail::opt::raw_storage(this->m_value)) T(std::forward<U>(value));
             this->m_engaged = true;
         }
         return *this;
@@ -482,7 +489,7 @@ public:
         }
         else if (other.m_engaged)
         {
-            new (std::addressof(this->m_value)) T(other.m_value);
+            ::new (detail::opt::raw_storage(this->m_value)) T(other.m_value);
             this->m_engaged = true;
         }
         else
@@ -506,7 +513,7 @@ public:
         }
         else if (other.m_engaged)
         {
-            new (std::addressof(this->m_value)) T(std::move(other.m_value));
+            ::new (detail::opt::raw_storage(this->m_value)) T(std::move(other.m_value));
             this->m_engaged = true;
         }
         else
@@ -534,7 +541,7 @@ public:
     T& emplace(Args&&... args) noexcept(std::is_nothrow_constructible<T, Args...>::value)
     {
         reset();
-        new (std::addressof(this->m_value)) T(std::forward<Args>(args)...);
+        ::new (detail::opt::raw_storage(this->m_value)) T(std::forward<Args>(args)...);
         this->m_engaged = true;
         return this->m_value;
     }
@@ -543,7 +550,7 @@ public:
         noexcept(std::is_nothrow_constructible<T, std::initializer_list<U>, Args...>::value)
     {
         reset();
-        new (std::addressof(this->m_value)) T(il, std::forward<Args>(args)...);
+        ::new (detail::opt::raw_storage(this->m_value)) T(il, std::forward<Args>(args)...);
         this->m_engaged = true;
         return this->m_value;
     }
diff --git a/include/cetl/pf17/variant.hpp b/include/cetl/pf17/variant.hpp
index 204da2e..f09cf72 100644
--- a/include/cetl/pf17/variant.hpp
+++ b/include/cetl/pf17/variant.hpp
@@ -298,7 +298,9 @@ union arena<Ix, types<Head, Tail...>, smf_nontrivial> final
 template <std::size_t N, std::size_t S, typename Seq, int DtorAvail, req<N == S> = 0, typename... Args>
 auto& construct(arena<S, Seq, DtorAvail>& self, Args&&... ar)
 {
-    return *new (std::addressof(self.head)) typename arena<S, Seq>::head_type(std::forward<Args>(ar)...);
+    // The head type may be const-qualified or declare its own operator new; neither matters for constructing in place.
+    void* const storage = const_cast<void*>(static_cast<const volatile void*>(std::addressof(self.head)));
+    return *::new (storage) typename arena<S, Seq>::head_type(std::forward<Args>(ar)...);
 }
 template <std::size_t N, std::size_t S, typename Seq, int DtorAvail, req<N != S> = 0, typename... Args>
 auto& construct(arena<S, Seq, DtorAvail>& self, Args&&... ar)
diff --git a/include/cetl/unbounded_variant.hpp b/include/cetl/unbounded_variant.hpp
index 1924bd6..1680c5e 100644
--- a/include/cetl/unbounded_variant.hpp
+++ b/include/cetl/unbounded_variant.hpp
@@ -955,7 +955,7 @@ struct base_copy<Pmr, Footprint, true /*Copyable*/, Moveable, Alignment>
             CETL_DEBUG_ASSERT(nullptr != src, "");
             CETL_DEBUG_ASSERT(nullptr != dst, "");
 
-            new (dst) Tp(*static_cast<const Tp*>(src));
+            ::new (dst) Tp(*static_cast<const Tp*>(src));
         };
     }
 
@@ -1049,7 +1049,7 @@ struct base_move<Pmr, Footprint, Copyable, true /*Movable*/, Alignment>
             CETL_DEBUG_ASSERT(nullptr != src, "");
             CETL_DEBUG_ASSERT(nullptr != dst, "");
 
-            new (dst) Tp(std::move(*static_cast<Tp*>(src)));
+            ::new (dst) Tp(std::move(*static_cast<Tp*>(src)));
         };
     }
 
@@ -1449,7 +1449,7 @@ private:
         }
 
         detail::raw_storage_guard<base> guard{*this};
-        auto*                           ptr = new (raw_storage) Tp(std::forward<Args>(args)...);
+        auto*                           ptr = ::new (raw_storage) Tp(std::forward<Args>(args)...);
         guard.complete();
 
         base::template make_handlers<Tp>();
-- 
2.43.0


From 3e1a416309beb78938cf0ab41d08a3a7506e2420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:45:28 +0000
Subject: [PATCH 43/45] fix: VariableLengthArray move assignment needs no
 default constructible elements

Emptying the source array used resize, which requires a default constructor, unless the allocator propagates or is
always equal. polymorphic_allocator is neither.
---
 include/cetl/variable_length_array.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index f0274cb..4e0670c 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -638,7 +638,8 @@ protected:
                                            alloc_);
                 }
                 size_ = rhs.size_;
-                rhs.resize(0, rhs_max_size);
+                fast_destroy(rhs.data_, rhs.size_);
+                rhs.size_ = 0;
                 // TODO: should we release the rhs capacity too?
             }
             else
@@ -662,7 +663,8 @@ protected:
                 if (new_size <= capacity_)
                 {
                     size_ = fast_forward_construct(data_, capacity_, rhs.data_, new_size, alloc_);
-                    rhs.resize(0, rhs_max_size);
+                    fast_destroy(rhs.data_, rhs.size_);
+                    rhs.size_ = 0;
                 }
             }
         }
-- 
2.43.0


From 480290f1470722d8e6fb0d450f2fb352f14c2548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:13:44 +0000
Subject: [PATCH 44/45] fix: optional::value() can be used in constant
 expressions

value() is declared constexpr but calls a helper that was not, so no constant
expression could ever use it.
---
 include/cetl/pf17/optional.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cetl/pf17/optional.hpp b/include/cetl/pf17/optional.hpp
index 3626a9a..f112a3d 100644
--- a/include/cetl/pf17/optional.hpp
+++ b/include/cetl/pf17/optional.hpp
@@ -655,7 +655,7 @@ public:
     }
 
 private:
-    void ensure_engaged() const
+    constexpr void ensure_engaged() const
     {
         if (!this->m_engaged)
         {
-- 
2.43.0


From 5653147ac83c1eee92ad5db22f29048eb18380c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:13:44 +0000
Subject: [PATCH 45/45] fix: string_view::find() can be used in constant
 expressions

Both overloads are declared constexpr but called std::find_if and std::search,
which are constexpr only since C++20.
---
 include/cetl/pf17/string_view.hpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/include/cetl/pf17/string_view.hpp b/include/cetl/pf17/string_view.hpp
index 15007fd..9490fd7 100644
--- a/include/cetl/pf17/string_view.hpp
+++ b/include/cetl/pf17/string_view.hpp
@@ -316,13 +316,15 @@ public:
     ///
     constexpr size_type find(const CharT ch, const size_type pos = 0) const noexcept
     {
-        if (pos >= size_)
+        // The algorithms of the standard library are not constexpr until C++20.
+        for (size_type i = pos; i < size_; ++i)
         {
-            return npos;
+            if (traits_type::eq(data_[i], ch))
+            {
+                return i;
+            }
         }
-        const const_iterator result =
-            std::find_if(data_ + pos, data_ + size_, [ch](const CharT x) { return traits_type::eq(x, ch); });
-        return result != data_ + size_ ? static_cast<size_type>(result - data_) : npos;
+        return npos;
     }
 
     /// Finds the first substring equal to the given character sequence.
@@ -337,9 +339,19 @@ public:
         {
             return pos;
         }
-        const const_iterator result =
-            std::search(data_ + pos, data_ + size_, sv.data_, sv.data_ + sv.size_, traits_type::eq);
-        return result != data_ + size_ ? static_cast<size_type>(result - data_) : npos;
+        for (size_type i = pos; i <= size_ - sv.size_; ++i)
+        {
+            size_type matched = 0;
+            while ((matched < sv.size_) && traits_type::eq(data_[i + matched], sv.data_[matched]))
+            {
+                ++matched;
+            }
+            if (matched == sv.size_)
+            {
+                return i;
+            }
+        }
+        return npos;
     }
 
     /// Performs stream output on string view.
-- 
2.43.0


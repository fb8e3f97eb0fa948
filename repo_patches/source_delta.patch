From ad0d13e70a30d07b1f4fefdf7c419a5cb5aea7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:46 +0000
Subject: [PATCH 01/48] fix: report data lost by a failed flush when printing
 to a file

output_nonconv() ignored the result of fflush() and the error indicator,
so data that the operating system refused at flush time (full disk, I/O
error) was lost while print() returned normally.
---
 src/os/general.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/os/general.cpp b/src/os/general.cpp
index 3b0438c..19b7364 100644
--- a/src/os/general.cpp
+++ b/src/os/general.cpp
@@ -10,6 +10,8 @@ void output_nonconv(
 {
     using namespace std;
 
+    const bool had_error = ferror(file) != 0;
+
     size_t result = fwrite(
         out.data(), 1, out.size(), file
     );
@@ -20,7 +22,14 @@ void output_nonconv(
         );
     }
 
-    fflush(file);
+    // fwrite() to a line buffered stream may report success even if the device
+    // refused the data, the error indicator of the stream is the only evidence
+    if(fflush(file) != 0 || (!had_error && ferror(file) != 0))
+    {
+        throw std::system_error(
+            std::make_error_code(std::errc::io_error)
+        );
+    }
 }
 } // namespace papilio::os
 
-- 
2.43.0


From 8d994411f3ada219bf6d1af109bd668d06aa1203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:13 +0000
Subject: [PATCH 02/48] fix: make small_vector's copy constructor and
 get_allocator() usable

Both need the allocator of a const small_vector, but get_alloc() had no
const overload, so copying a small_vector did not compile.
---
 include/papilio/container.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index 80079e0..93f9ab1 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -568,6 +568,11 @@ private:
         return m_data.second();
     }
 
+    const allocator_type& get_alloc() const noexcept
+    {
+        return m_data.second();
+    }
+
     void set_ptrs(pointer p_begin, size_type capacity_offset) noexcept
     {
         m_p_begin = p_begin;
-- 
2.43.0


From b3eb89af08be4372d3823920263a0d0a5e34a870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:22 +0000
Subject: [PATCH 03/48] fix: make the non-member swap of small_vector usable

Its exception specification asked is_nothrow_swappable of small_vector
itself, i.e. depended on itself, so any use was ill-formed.
---
 include/papilio/container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index 93f9ab1..7f3f03b 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -537,7 +537,7 @@ public:
             swap(get_alloc(), other.get_alloc());
     }
 
-    friend void swap(small_vector& lhs, small_vector& rhs) noexcept(std::is_nothrow_swappable_v<small_vector>)
+    friend void swap(small_vector& lhs, small_vector& rhs) noexcept(noexcept(lhs.swap(rhs)))
     {
         lhs.swap(rhs);
     }
-- 
2.43.0


From 8733b72c4d272644b2eac2628200c33342e2d9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:33 +0000
Subject: [PATCH 04/48] fix: let small_vector insert one of its own elements
 while growing

push_back(v[0]), insert(pos, v[0]) and resize(n, v[0]) read the element
after its storage had been released by the growth, and insert() also
after it had been moved from.
---
 include/papilio/container.hpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index 7f3f03b..8c64b8d 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -441,8 +441,11 @@ public:
     {
         if(m_p_end == m_p_capacity)
         {
+            // The arguments may refer to an element of this container
+            value_type tmp(std::forward<Args>(args)...);
             size_type current = this->size();
             reserve(this->get_mem_size(current, current + 1));
+            return emplace_back_impl(std::move(tmp));
         }
         return emplace_back_impl(std::forward<Args>(args)...);
     }
@@ -494,9 +497,16 @@ public:
             while(this->size() != count)
                 pop_back();
         }
-        else if(count > this->size())
+        else if(count > this->capacity())
         {
+            // The value may be an element of this container
+            const value_type tmp(val);
             reserve(count);
+            while(this->size() != count)
+                emplace_back_impl(tmp);
+        }
+        else
+        {
             while(this->size() != count)
                 emplace_back_impl(val);
         }
@@ -631,14 +641,16 @@ private:
     template <typename... Args>
     iterator emplace_impl(size_type off, Args&&... args)
     {
-        reserve(this->size() + 1);
-
         if(off == this->size())
         {
-            emplace_back_impl(std::forward<Args>(args)...);
+            emplace_back(std::forward<Args>(args)...);
             return std::prev(this->end());
         }
 
+        // The arguments may refer to an element of this container
+        value_type tmp(std::forward<Args>(args)...);
+
+        reserve(this->size() + 1);
         emplace_back_impl(std::move(this->back()));
 
         auto move_dst = std::prev(this->end());
@@ -646,7 +658,7 @@ private:
         auto move_src_begin = this->begin() + off;
         std::move_backward(move_src_begin, move_src_end, move_dst);
 
-        *move_src_begin = value_type(std::forward<Args>(args)...);
+        *move_src_begin = std::move(tmp);
 
         return this->begin() + static_cast<difference_type>(off);
     }
-- 
2.43.0


From f8e292c4d0949df53dfd2b640619fbdf70db7248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:51 +0000
Subject: [PATCH 05/48] fix: reserve room for the existing elements in
 small_vector::append_range

append_range() of a sized range reserved only the size of the range, so
appending to a non-empty small_vector wrote past its storage.
---
 include/papilio/container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index 8c64b8d..deed388 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -870,7 +870,7 @@ private:
             Iterator>;
         if constexpr(sized)
         {
-            reserve(static_cast<size_type>(last - first));
+            reserve(this->size() + static_cast<size_type>(last - first));
             for(auto it = first; it != last; ++it)
             {
                 emplace_back_impl(*it);
-- 
2.43.0


From 80ac5b3606a64abcbfbbd55f5b18a5d637b82423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:21 +0000
Subject: [PATCH 06/48] fix: do not leak or lose elements when moving a
 small_vector's elements throws

---
 include/papilio/container.hpp | 53 ++++++++++++++---------------------
 1 file changed, 21 insertions(+), 32 deletions(-)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index deed388..2a28a91 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -305,13 +305,9 @@ public:
 
     small_vector(small_vector&& other) noexcept(std::is_nothrow_move_constructible_v<value_type>)
         requires std::is_nothrow_move_constructible_v<Allocator>
-        : my_base(),
-          m_data(
-              std::piecewise_construct,
-              std::forward_as_tuple(),
-              std::forward_as_tuple(std::move(other.get_alloc()))
-          )
+        : small_vector(std::as_const(other).get_alloc())
     {
+        // Constructed by delegation: the destructor will run if moving an element throws
         if(other.dynamic_allocated())
         {
             pointer other_buf = other.getbuf();
@@ -321,8 +317,6 @@ public:
         }
         else [[likely]]
         {
-            set_ptrs(getbuf(), static_capacity());
-
             PAPILIO_ASSERT(other.size() <= this->capacity());
             for(auto&& i : other)
             {
@@ -704,29 +698,14 @@ private:
             return;
         }
 
-        pointer tmp_ptr = m_p_begin;
         size_type tmp_size = this->size();
-        size_type tmp_capacity = this->capacity();
-
-        set_ptrs(getbuf(), static_capacity());
 
-        try
-        {
-            std::uninitialized_move_n(tmp_ptr, tmp_size, m_p_begin);
-            std::destroy_n(tmp_ptr, tmp_size);
-        }
-        catch(...)
-        {
-            std::allocator_traits<Allocator>::deallocate(
-                get_alloc(), tmp_ptr, tmp_capacity
-            );
-            throw;
-        }
+        // The elements stay in the dynamic allocated memory if this throws
+        std::uninitialized_move_n(m_p_begin, tmp_size, getbuf());
 
-        std::allocator_traits<Allocator>::deallocate(
-            get_alloc(), tmp_ptr, tmp_capacity
-        );
-        m_p_end = m_p_begin + tmp_size;
+        destroy_all();
+        free_mem();
+        set_ptrs(getbuf(), tmp_size, static_capacity());
     }
 
     void shrink_dyn()
@@ -810,11 +789,21 @@ private:
         pointer tmp_p_capacity = other.m_p_capacity;
         other.set_ptrs(other.getbuf(), static_capacity());
 
-        for(size_type i = 0; i < this->size(); ++i)
+        try
         {
-            other.emplace_back_impl(
-                std::move(*(m_p_begin + i))
-            );
+            for(size_type i = 0; i < this->size(); ++i)
+            {
+                other.emplace_back_impl(
+                    std::move(*(m_p_begin + i))
+                );
+            }
+        }
+        catch(...)
+        {
+            // return the dynamic allocated memory to its owner
+            other.clear();
+            other.set_ptrs(tmp_p_begin, tmp_p_end, tmp_p_capacity);
+            throw;
         }
         destroy_all();
 
-- 
2.43.0


From a134dc97e1a0e948ed5a7a88b6628634e0ed64cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:26 +0000
Subject: [PATCH 07/48] fix: do not leak the elements of a fixed_vector whose
 construction throws

---
 include/papilio/container.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index 2a28a91..5250a9c 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -912,7 +912,10 @@ public:
     fixed_vector() noexcept
         : m_size(0) {}
 
+    // Constructed by delegation: the destructor will run if constructing an element throws
+
     fixed_vector(const fixed_vector& other) noexcept(std::is_nothrow_copy_constructible_v<T>)
+        : fixed_vector()
     {
         for(size_type i = 0; i < other.size(); ++i)
         {
@@ -921,6 +924,7 @@ public:
     }
 
     fixed_vector(fixed_vector&& other) noexcept(std::is_nothrow_move_constructible_v<T>)
+        : fixed_vector()
     {
         for(size_type i = 0; i < other.size(); ++i)
         {
@@ -929,6 +933,7 @@ public:
     }
 
     fixed_vector(size_type count, const T& value)
+        : fixed_vector()
     {
         for(size_type i = 0; i < count; ++i)
         {
-- 
2.43.0


From 3cd447447289cfaef3d688623f403ce1fc6b67eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:26 +0000
Subject: [PATCH 08/48] fix: construct the new element of a fixed_vector before
 shifting the others

---
 include/papilio/container.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index 5250a9c..5b81d6f 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -1087,6 +1087,9 @@ public:
             throw_length_error();
         }
 
+        // Arguments may refer to an existing element
+        value_type tmp(std::forward<Args>(args)...);
+
         emplace_back(std::move(back()));
         if(size() > 2)
         {
@@ -1097,7 +1100,7 @@ public:
         }
 
         iterator nonconst_pos = const_cast<iterator>(pos);
-        *nonconst_pos = std::move(value_type(std::forward<Args>(args)...));
+        *nonconst_pos = std::move(tmp);
 
         return nonconst_pos;
     }
-- 
2.43.0


From 6a4420c9d62dc32ce5ad5ac3be4c9caca8a97fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:26 +0000
Subject: [PATCH 09/48] fix: do not read past the end when looking up a key in
 fixed_flat_map

---
 include/papilio/container.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index 5b81d6f..67149e0 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -1392,28 +1392,28 @@ public:
     iterator find(const Key& k)
     {
         auto it = lower_bound(k);
-        return is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
+        return it != end() && is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
     }
 
     template <typename K>
     iterator find(const K& k) requires is_transparent_v<Compare>
     {
         auto it = lower_bound(k);
-        return is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
+        return it != end() && is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
     }
 
     [[nodiscard]]
     const_iterator find(const Key& k) const
     {
         auto it = lower_bound(k);
-        return is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
+        return it != end() && is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
     }
 
     template <typename K>
     const_iterator find(const K& k) const requires is_transparent_v<Compare>
     {
         auto it = lower_bound(k);
-        return is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
+        return it != end() && is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
     }
 
     [[nodiscard]]
-- 
2.43.0


From 349bec9526308f04927722ad4f4ce7503b937e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:26 +0000
Subject: [PATCH 10/48] fix: let fixed_flat_map::try_emplace take any number of
 arguments

---
 include/papilio/container.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index 67149e0..b780040 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -1236,7 +1236,7 @@ public:
     using underlying_type = fixed_vector<value_type, Capacity>;
     using key_compare = Compare;
     using reference = value_type&;
-    using const_reference = value_type&;
+    using const_reference = const value_type&;
     using iterator = typename underlying_type::iterator;
     using const_iterator = typename underlying_type::const_iterator;
 
@@ -1379,7 +1379,7 @@ public:
             pos,
             std::piecewise_construct,
             std::forward_as_tuple(k),
-            std::forward_as_tuple(std::forward<Args>(args))...
+            std::forward_as_tuple(std::forward<Args>(args)...)
         );
         return std::make_pair(
             pos, true
-- 
2.43.0


From 952fb050674844aaad89e31bb3024c533422793b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:54 +0000
Subject: [PATCH 11/48] fix: let optional_unique_ptr<T[]> own the array taken
 from a unique_ptr<T[]>

---
 include/papilio/memory.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/papilio/memory.hpp b/include/papilio/memory.hpp
index 9d9bea8..cb6d215 100644
--- a/include/papilio/memory.hpp
+++ b/include/papilio/memory.hpp
@@ -366,10 +366,10 @@ public:
     {}
 
     template <typename D>
-    optional_unique_ptr(std::unique_ptr<T, D>&& ptr) noexcept
-        : m_ptr(ptr.release())
+    optional_unique_ptr(std::unique_ptr<T[], D>&& ptr) noexcept
+        : m_ptr(ptr.release()), m_del()
     {
-        m_has_ownership = !m_ptr;
+        m_has_ownership = static_cast<bool>(m_ptr);
     }
 
     ~optional_unique_ptr()
@@ -412,7 +412,7 @@ public:
     }
 
     template <typename D>
-    void reset(std::unique_ptr<T, D>&& ptr) noexcept
+    void reset(std::unique_ptr<T[], D>&& ptr) noexcept
     {
         reset(nullptr);
         if(ptr)
-- 
2.43.0


From 588abd8dbe25f41b7ac62c37c68ae6ea02564b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:55 +0000
Subject: [PATCH 12/48] fix: make optional_unique_ptr assignable

---
 include/papilio/memory.hpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/include/papilio/memory.hpp b/include/papilio/memory.hpp
index cb6d215..1efaeba 100644
--- a/include/papilio/memory.hpp
+++ b/include/papilio/memory.hpp
@@ -205,7 +205,18 @@ public:
 
     optional_unique_ptr& operator=(const optional_unique_ptr& other)
     {
-        reset(other.get());
+        if(this != &other)
+            reset(other.get(), false);
+        return *this;
+    }
+
+    optional_unique_ptr& operator=(optional_unique_ptr&& other) noexcept
+    {
+        if(this != &other)
+        {
+            reset(nullptr);
+            swap(other);
+        }
         return *this;
     }
 
@@ -379,7 +390,18 @@ public:
 
     optional_unique_ptr& operator=(const optional_unique_ptr& other)
     {
-        reset(other.get());
+        if(this != &other)
+            reset(other.get(), false);
+        return *this;
+    }
+
+    optional_unique_ptr& operator=(optional_unique_ptr&& other) noexcept
+    {
+        if(this != &other)
+        {
+            reset(nullptr);
+            swap(other);
+        }
         return *this;
     }
 
-- 
2.43.0


From 10064b5670334e4e4dc9b73a24297c6e73f40429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:55 +0000
Subject: [PATCH 13/48] fix: keep the deleter with its pointer when moving or
 swapping optional_unique_ptr

---
 include/papilio/memory.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/papilio/memory.hpp b/include/papilio/memory.hpp
index 1efaeba..9cb21ac 100644
--- a/include/papilio/memory.hpp
+++ b/include/papilio/memory.hpp
@@ -178,7 +178,7 @@ public:
 
     optional_unique_ptr(optional_unique_ptr&& other) noexcept(std::is_nothrow_default_constructible_v<Deleter>)
         : m_ptr(std::exchange(other.m_ptr, pointer())),
-          m_del(),
+          m_del(std::move(other.m_del)),
           m_has_ownership(std::exchange(other.m_has_ownership, false)) {}
 
     optional_unique_ptr(pointer ptr, bool ownership) noexcept(std::is_nothrow_default_constructible_v<Deleter>)
@@ -291,6 +291,8 @@ public:
     {
         using std::swap;
         swap(m_ptr, other.m_ptr);
+        if constexpr(std::is_same_v<D, Deleter>)
+            swap(m_del, other.m_del);
         swap(m_has_ownership, other.m_has_ownership);
     }
 
@@ -367,7 +369,7 @@ public:
 
     optional_unique_ptr(optional_unique_ptr&& other) noexcept
         : m_ptr(std::exchange(other.m_ptr, pointer())),
-          m_del(),
+          m_del(std::move(other.m_del)),
           m_has_ownership(std::exchange(other.m_has_ownership, false)) {}
 
     template <typename U>
@@ -471,6 +473,8 @@ public:
     {
         using std::swap;
         swap(m_ptr, other.m_ptr);
+        if constexpr(std::is_same_v<D, Deleter>)
+            swap(m_del, other.m_del);
         swap(m_has_ownership, other.m_has_ownership);
     }
 
-- 
2.43.0


From 25ecb8469a13ee0124bfb1da26ffebdd803d6b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:55 +0000
Subject: [PATCH 14/48] fix: never call the deleter of an optional_unique_ptr
 on a null pointer

---
 include/papilio/memory.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/papilio/memory.hpp b/include/papilio/memory.hpp
index 9cb21ac..de1a031 100644
--- a/include/papilio/memory.hpp
+++ b/include/papilio/memory.hpp
@@ -184,18 +184,18 @@ public:
     optional_unique_ptr(pointer ptr, bool ownership) noexcept(std::is_nothrow_default_constructible_v<Deleter>)
         : m_ptr(std::move(ptr)),
           m_del(),
-          m_has_ownership(ownership) {}
+          m_has_ownership(ownership && static_cast<bool>(m_ptr)) {}
 
     optional_unique_ptr(independent_t, pointer ptr) noexcept
         : m_ptr(std::move(ptr)),
           m_del(),
-          m_has_ownership(true) {}
+          m_has_ownership(static_cast<bool>(m_ptr)) {}
 
     template <typename D>
     optional_unique_ptr(std::unique_ptr<T, D>&& ptr) noexcept
         : m_ptr(ptr.release())
     {
-        m_has_ownership = m_ptr;
+        m_has_ownership = static_cast<bool>(m_ptr);
     }
 
     ~optional_unique_ptr()
@@ -375,7 +375,7 @@ public:
     template <typename U>
     requires detail::optional_arr_ptr_acceptable<U, pointer, element_type>
     optional_unique_ptr(U ptr, bool ownership) noexcept
-        : m_ptr(ptr), m_del(), m_has_ownership(ownership)
+        : m_ptr(ptr), m_del(), m_has_ownership(ownership && static_cast<bool>(m_ptr))
     {}
 
     template <typename D>
-- 
2.43.0


From c616997821ca03f372769ac7f712571d7bf63140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:11 +0000
Subject: [PATCH 15/48] fix: let optional_unique_ptr<T[]> swap with its own
 kind

---
 include/papilio/memory.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/memory.hpp b/include/papilio/memory.hpp
index de1a031..abee5c5 100644
--- a/include/papilio/memory.hpp
+++ b/include/papilio/memory.hpp
@@ -469,7 +469,7 @@ public:
     }
 
     template <typename D>
-    void swap(optional_unique_ptr<T, D>& other) noexcept
+    void swap(optional_unique_ptr<T[], D>& other) noexcept
     {
         using std::swap;
         swap(m_ptr, other.m_ptr);
-- 
2.43.0


From bd4930b9f9a4edd9929fdca8e8553f97833f3d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:57 +0000
Subject: [PATCH 16/48] fix: let string_container report that it cannot
 allocate instead of terminating

---
 include/papilio/utf/string.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index 9f9585c..d4f0c83 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -933,10 +933,10 @@ public:
     constexpr basic_string_container(const CharT* str, size_type count) noexcept
         : m_data(std::in_place_type<string_view_type>, str, count) {}
 
-    basic_string_container(independent_t, const CharT* str) noexcept
+    basic_string_container(independent_t, const CharT* str)
         : m_data(std::in_place_type<string_type>, str) {}
 
-    constexpr basic_string_container(independent_t, const CharT* str, size_type count) noexcept
+    constexpr basic_string_container(independent_t, const CharT* str, size_type count)
         : m_data(std::in_place_type<string_type>, str, count) {}
 
     basic_string_container(const_iterator start, const_iterator stop) noexcept
@@ -1036,7 +1036,7 @@ public:
     }
 
     template <std::ranges::input_range R>
-    basic_string_container& assign_range(R&& r) noexcept
+    basic_string_container& assign_range(R&& r)
     {
         if constexpr(std::convertible_to<std::ranges::range_reference_t<R>, CharT>)
         {
-- 
2.43.0


From b6800f5e1f2b196115b0c4b634975130a8aeac9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:57 +0000
Subject: [PATCH 17/48] fix: keep string_container valid when assigning an
 independent copy fails

---
 include/papilio/utf/string.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index d4f0c83..7fd5101 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -1007,8 +1007,8 @@ public:
 
     basic_string_container& assign(independent_t, string_view_type str)
     {
-        emplace_data<string_type>(str);
-        return *this;
+        // The new value may refer to the current one, which must survive a failed allocation
+        return assign(string_type(str));
     }
 
     basic_string_container& assign(const string_type& str) noexcept
@@ -1019,8 +1019,8 @@ public:
 
     basic_string_container& assign(independent_t, const string_type& str)
     {
-        emplace_data<string_type>(str);
-        return *this;
+        // The new value may refer to the current one, which must survive a failed allocation
+        return assign(string_type(str));
     }
 
     basic_string_container& assign(string_type&& str) noexcept
-- 
2.43.0


From ce8b7d809676886471574123de933c93f0e978b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:57 +0000
Subject: [PATCH 18/48] fix: replace the old value in
 string_container::assign(count, ch)

---
 include/papilio/utf/string.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index 7fd5101..c6f4175 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -961,13 +961,12 @@ public:
 
     basic_string_container& assign(size_type count, CharT ch)
     {
-        string_type& str = to_str();
-        str.assign(count, ch);
+        return assign(string_type(count, ch));
     }
 
     basic_string_container& assign(size_type count, codepoint cp)
     {
-        string_type& str = to_str();
+        string_type str;
         if constexpr(char8_like<CharT>)
         {
             for(size_type i = 0; i < count; ++i)
@@ -984,7 +983,7 @@ public:
                 cp.append_to(str);
         }
 
-        return *this;
+        return assign(std::move(str));
     }
 
     basic_string_container& assign(const CharT* str) noexcept
-- 
2.43.0


From 15693efcdd4eb771485f3f6970ccadb455c3c1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:57 +0000
Subject: [PATCH 19/48] fix: step over the current character in
 string_container::iterator

---
 include/papilio/utf/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index c6f4175..762ddd6 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -1448,7 +1448,7 @@ public:
         constexpr void next_pos()
         {
             PAPILIO_ASSERT(*this);
-            m_offset += m_str->ch_size_for_cp(to_address()[m_offset]);
+            m_offset += m_str->ch_size_for_cp(*to_address());
             if(m_offset > m_str->size())
                 m_offset = m_str->size();
         }
-- 
2.43.0


From b78be320b5acbf4e4a0075440d2766ec1bd83150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:56 +0000
Subject: [PATCH 20/48] fix: let the characters of UTF-32 strings be replaced

---
 include/papilio/utf/codepoint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/utf/codepoint.hpp b/include/papilio/utf/codepoint.hpp
index 94889f8..6b3e5b1 100644
--- a/include/papilio/utf/codepoint.hpp
+++ b/include/papilio/utf/codepoint.hpp
@@ -433,7 +433,7 @@ public:
         {
             str.replace(pos, count, std::basic_string_view<CharT>(*this));
         }
-        else if(char16_like<CharT>)
+        else if constexpr(char16_like<CharT>)
         {
             auto result = decoder<CharT>::from_codepoint(*this);
             str.replace(pos, count, result.get());
-- 
2.43.0


From 86036e15d6d9bca438eb18c94c4224a4cb394cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:27 +0000
Subject: [PATCH 21/48] fix: do not truncate code points in
 string_container::assign_range

---
 include/papilio/utf/string.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index 762ddd6..6103246 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -1037,7 +1037,11 @@ public:
     template <std::ranges::input_range R>
     basic_string_container& assign_range(R&& r)
     {
-        if constexpr(std::convertible_to<std::ranges::range_reference_t<R>, CharT>)
+        // A code point is convertible to CharT, but it may need more than one of them
+        if constexpr(
+            !std::is_same_v<std::ranges::range_value_t<R>, utf::codepoint> &&
+            std::convertible_to<std::ranges::range_reference_t<R>, CharT>
+        )
         {
             string_type buf;
             if constexpr(std::ranges::sized_range<R>)
-- 
2.43.0


From 691167aad977a1e79b58a24afafa7b27ddab77b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 22/48] fix: append the code units of a code point to a string
 all at once

---
 include/papilio/utf/codepoint.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/papilio/utf/codepoint.hpp b/include/papilio/utf/codepoint.hpp
index 6b3e5b1..b6b448f 100644
--- a/include/papilio/utf/codepoint.hpp
+++ b/include/papilio/utf/codepoint.hpp
@@ -412,6 +412,12 @@ public:
             for(std::uint8_t i = 0; i < sz; ++i)
                 out.push_back(static_cast<CharT>(m_data[i]));
         }
+        else if constexpr(char16_like<CharT>)
+        {
+            // All or nothing, never leave half of a surrogate pair
+            auto result = decoder<CharT>::from_codepoint(*this);
+            out.append(result.get());
+        }
         else
         {
             append_to_as<CharT>(std::back_inserter(out));
-- 
2.43.0


From 5a38bbe85a0c5f6dcf54296e14f78c418c7c8af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:59 +0000
Subject: [PATCH 23/48] fix: keep the text of an argument that becomes a script
 variable

---
 include/papilio/core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 3b39259..402303b 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -456,7 +456,7 @@ private:
             {
                 return convert_arg(std::forward<T>(v));
             },
-            var
+            std::forward<Variant>(var)
         );
     }
 
-- 
2.43.0


From ef40cf7c3f04265f1bdc44eb78ec9603252a07ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:00 +0000
Subject: [PATCH 24/48] fix: let exceptions out of stream-based formatters

---
 include/papilio/core.inl             | 2 ++
 include/papilio/formatter/chrono.hpp | 1 +
 include/papilio/formatter/misc.hpp   | 1 +
 3 files changed, 4 insertions(+)

diff --git a/include/papilio/core.inl b/include/papilio/core.inl
index 5621600..a312e48 100644
--- a/include/papilio/core.inl
+++ b/include/papilio/core.inl
@@ -160,6 +160,7 @@ auto streamable_formatter<T, CharT>::format(const T& val, Context& ctx) const
     if(use_iter_stream)
     {
         os_t os(ctx.out());
+        os.exceptions(std::ios_base::badbit); // Do not swallow exceptions
 
         setup_locale(os, ctx);
 
@@ -170,6 +171,7 @@ auto streamable_formatter<T, CharT>::format(const T& val, Context& ctx) const
     else
     {
         std::basic_stringstream<CharT> ss;
+        ss.exceptions(std::ios_base::badbit); // Do not swallow exceptions
 
         setup_locale(ss, ctx);
 
diff --git a/include/papilio/formatter/chrono.hpp b/include/papilio/formatter/chrono.hpp
index 96c8684..8601fd5 100644
--- a/include/papilio/formatter/chrono.hpp
+++ b/include/papilio/formatter/chrono.hpp
@@ -83,6 +83,7 @@ public:
         else
         {
             std::basic_stringstream<CharT> ss;
+            ss.exceptions(std::ios_base::badbit); // Do not swallow exceptions
             if(m_data.basic.use_locale)
                 ss.imbue(ctx.getloc());
             else
diff --git a/include/papilio/formatter/misc.hpp b/include/papilio/formatter/misc.hpp
index 14e81e8..d3db494 100644
--- a/include/papilio/formatter/misc.hpp
+++ b/include/papilio/formatter/misc.hpp
@@ -29,6 +29,7 @@ public:
     auto format(const std::thread::id& id, FormatContext& ctx) const
     {
         std::basic_stringstream<CharT> ss;
+        ss.exceptions(std::ios_base::badbit); // Do not swallow exceptions
         ss << id;
 
         using context_t = format_context_traits<FormatContext>;
-- 
2.43.0


From c5ad20cf2c5611879fce16903b3b3bf50b9d8c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:58 +0000
Subject: [PATCH 25/48] fix: do not refer to a temporary copy of a map element

---
 include/papilio/accessor/ranges.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/papilio/accessor/ranges.hpp b/include/papilio/accessor/ranges.hpp
index f336043..ad1bdcd 100644
--- a/include/papilio/accessor/ranges.hpp
+++ b/include/papilio/accessor/ranges.hpp
@@ -213,7 +213,7 @@ struct map_accessor
 
         auto it = m.find(static_cast<key_type>(i));
         return it != m.end() ?
-                   static_cast<mapped_type>(it->second) :
+                   format_arg_type(it->second) :
                    format_arg_type();
     }
 
@@ -225,14 +225,14 @@ struct map_accessor
         {
             auto it = m.find(k);
             return it != m.end() ?
-                       static_cast<mapped_type>(it->second) :
+                       format_arg_type(it->second) :
                        format_arg_type();
         }
         else
         {
             auto it = m.find(static_cast<key_type>(k));
             return it != m.end() ?
-                       static_cast<mapped_type>(it->second) :
+                       format_arg_type(it->second) :
                        format_arg_type();
         }
     }
-- 
2.43.0


From c038e53fdaa5a801d6d373b4999e702ea49cd3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:22 +0000
Subject: [PATCH 26/48] fix: keep intermediate values of chained access alive
 while they are used

---
 include/papilio/core.hpp | 129 +++++++++++++++++++++++----------------
 include/papilio/core.inl |   2 +-
 2 files changed, 78 insertions(+), 53 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 402303b..3393912 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -1521,7 +1521,7 @@ public:
 
     void format(parse_context& parse_ctx, Context& out_ctx) const;
 
-    void skip_spec(parse_context& parse_ctx);
+    void skip_spec(parse_context& parse_ctx) const;
 
 private:
     variant_type m_val;
@@ -3554,7 +3554,15 @@ public:
      */
     static std::pair<format_arg_type, iterator> access(parse_context& ctx)
     {
-        return access_impl(ctx, ctx.begin(), ctx.end());
+        return access_impl(
+            ctx,
+            ctx.begin(),
+            ctx.end(),
+            []<typename Arg>(Arg&& arg, iterator next_it)
+            {
+                return std::make_pair(format_arg_type(std::forward<Arg>(arg)), next_it);
+            }
+        );
     }
 
     class interpreter_context
@@ -3757,29 +3765,36 @@ public:
     }
 
 private:
-    static std::pair<format_arg_type, iterator> access_impl(parse_context& ctx, iterator start, iterator stop)
+    // Invokes `fn(arg, next_it)` while the intermediate results of the access are still alive,
+    // because the final result may refer to them.
+    template <typename Fn>
+    static auto access_impl(parse_context& ctx, iterator start, iterator stop, Fn&& fn)
     {
         if(start == stop) [[unlikely]]
             my_base::throw_end_of_string();
 
         auto [arg, next_it] = parse_field_name(ctx, start, stop);
 
-        std::tie(arg, next_it) = parse_chained_access(arg, next_it, stop);
-
-        return std::make_pair(std::move(arg), next_it);
+        return chained_access(*arg, next_it, stop, fn);
     }
 
     static void skip_repl(parse_context& parse_ctx)
     {
-        auto [arg, next_it] = access(parse_ctx);
-
-        if(next_it == parse_ctx.end()) [[unlikely]]
-            my_base::throw_end_of_string();
-        if(*next_it == U':')
-            ++next_it;
+        access_impl(
+            parse_ctx,
+            parse_ctx.begin(),
+            parse_ctx.end(),
+            [&parse_ctx](const format_arg_type& arg, iterator next_it)
+            {
+                if(next_it == parse_ctx.end()) [[unlikely]]
+                    my_base::throw_end_of_string();
+                if(*next_it == U':')
+                    ++next_it;
 
-        parse_ctx.advance_to(next_it);
-        arg.skip_spec(parse_ctx);
+                parse_ctx.advance_to(next_it);
+                arg.skip_spec(parse_ctx);
+            }
+        );
     }
 
     /**
@@ -3943,15 +3958,21 @@ private:
      */
     static void exec_repl(parse_context& parse_ctx, FormatContext& fmt_ctx)
     {
-        auto [arg, next_it] = access(parse_ctx);
-
-        if(next_it == parse_ctx.end()) [[unlikely]]
-            my_base::throw_end_of_string();
-        if(*next_it == U':')
-            ++next_it;
+        access_impl(
+            parse_ctx,
+            parse_ctx.begin(),
+            parse_ctx.end(),
+            [&parse_ctx, &fmt_ctx](const format_arg_type& arg, iterator next_it)
+            {
+                if(next_it == parse_ctx.end()) [[unlikely]]
+                    my_base::throw_end_of_string();
+                if(*next_it == U':')
+                    ++next_it;
 
-        parse_ctx.advance_to(next_it);
-        arg.format(parse_ctx, fmt_ctx);
+                parse_ctx.advance_to(next_it);
+                arg.format(parse_ctx, fmt_ctx);
+            }
+        );
     }
 
     static std::pair<variable_type, iterator> parse_variable(parse_context& ctx, iterator start, iterator stop)
@@ -3963,16 +3984,30 @@ private:
         if(first_ch == U'{')
         {
             ++start;
-            auto [arg, next_it] = access_impl(ctx, start, stop);
-            if(next_it == stop) [[unlikely]]
-                my_base::throw_end_of_string();
-            if(*next_it != U'}') [[unlikely]]
-                my_base::throw_error(script_error_code::unenclosed_brace, next_it);
+            return access_impl(
+                ctx,
+                start,
+                stop,
+                [stop]<typename Arg>(Arg&& arg, iterator next_it) -> std::pair<variable_type, iterator>
+                {
+                    if(next_it == stop) [[unlikely]]
+                        my_base::throw_end_of_string();
+                    if(*next_it != U'}') [[unlikely]]
+                        my_base::throw_error(script_error_code::unenclosed_brace, next_it);
 
-            ++next_it;
-            return std::make_pair(
-                variable_type(std::move(arg).to_variant()),
-                next_it
+                    if constexpr(!std::is_lvalue_reference_v<Arg>)
+                    {
+                        // The string may be in an intermediate result of the access
+                        if(auto* str = std::get_if<string_container_type>(&arg.to_variant()))
+                            str->obtain_ownership();
+                    }
+
+                    ++next_it;
+                    return std::make_pair(
+                        variable_type(std::forward<Arg>(arg).to_variant()),
+                        next_it
+                    );
+                }
             );
         }
         else if(first_ch == U'\'')
@@ -4077,7 +4112,7 @@ private:
         my_base::throw_error(script_error_code::invalid_condition, start);
     }
 
-    static std::pair<format_arg_type, iterator> parse_field_name(
+    static std::pair<const format_arg_type*, iterator> parse_field_name(
         parse_context& ctx, iterator start, iterator stop
     )
     {
@@ -4101,7 +4136,7 @@ private:
             }
 
             ctx.check_arg_id(idx);
-            return std::make_pair(ctx.get_args()[static_cast<ssize_t>(idx)], start);
+            return std::make_pair(std::addressof(ctx.get_args()[static_cast<ssize_t>(idx)]), start);
         }
         else if(my_base::is_field_name_ch(first_ch, true))
         {
@@ -4112,7 +4147,7 @@ private:
             string_ref_type name(str_start, str_end);
 
             return std::make_pair(
-                ctx.get_args().get(string_view_type(name)),
+                std::addressof(ctx.get_args().get(string_view_type(name))),
                 str_end
             );
         }
@@ -4120,19 +4155,17 @@ private:
         {
             std::size_t idx = ctx.current_arg_id();
             ctx.next_arg_id();
-            return std::make_pair(ctx.get_args()[static_cast<ssize_t>(idx)], start);
+            return std::make_pair(std::addressof(ctx.get_args()[static_cast<ssize_t>(idx)]), start);
         }
 
         my_base::throw_error(script_error_code::invalid_field_name, start);
     }
 
-    static std::pair<format_arg_type, iterator> parse_chained_access(
-        format_arg_type& base_arg, iterator start, iterator stop
-    )
+    template <typename Arg, typename Fn>
+    static auto chained_access(Arg&& current, iterator start, iterator stop, Fn& fn)
+        -> std::invoke_result_t<Fn&, format_arg_type, iterator>
     {
-        format_arg_type current = base_arg;
-
-        while(start != stop)
+        if(start != stop)
         {
             char32_t first_ch = *start;
             if(first_ch == U'.')
@@ -4146,9 +4179,7 @@ private:
                 if(attr_name.empty())
                     my_base::throw_error(script_error_code::invalid_attribute, str_end);
 
-                current = current.attribute(attr_name);
-
-                start = str_end;
+                return chained_access(current.attribute(attr_name), str_end, stop, fn);
             }
             else if(first_ch == U'[')
             {
@@ -4160,17 +4191,11 @@ private:
                     my_base::throw_error(script_error_code::invalid_index, next_it);
                 ++next_it;
 
-                current = current.index(idx);
-
-                start = next_it;
-            }
-            else
-            {
-                break;
+                return chained_access(current.index(idx), next_it, stop, fn);
             }
         }
 
-        return std::make_pair(std::move(current), start);
+        return fn(std::forward<Arg>(current), start);
     }
 };
 
diff --git a/include/papilio/core.inl b/include/papilio/core.inl
index a312e48..76e58ea 100644
--- a/include/papilio/core.inl
+++ b/include/papilio/core.inl
@@ -108,7 +108,7 @@ void basic_format_arg<Context>::format(parse_context& parse_ctx, Context& out_ct
 }
 
 template <typename Context>
-void basic_format_arg<Context>::skip_spec(parse_context& parse_ctx)
+void basic_format_arg<Context>::skip_spec(parse_context& parse_ctx) const
 {
     visit(
         [&]<typename T>(const T& v)
-- 
2.43.0


From 4b34c90ef6a8cc08b7d2ba82361b056af784d574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:22 +0000
Subject: [PATCH 27/48] fix: let failures to copy an independent argument reach
 the caller

---
 include/papilio/core.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 3393912..a220e8f 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -1110,7 +1110,6 @@ public:
 
         template <typename T>
         handle(independent_t, T&& val)
-            : handle()
         {
             construct<T>(independent, std::forward<T>(val));
         }
@@ -1365,7 +1364,7 @@ public:
 
     template <typename T>
     requires(use_handle_v<T>)
-    basic_format_arg(independent_t, T&& val) noexcept
+    basic_format_arg(independent_t, T&& val)
         : m_val(std::in_place_type<handle>, independent, std::forward<T>(val))
     {}
 
-- 
2.43.0


From 75ef27675c5a822bec5b3f63162fa4e6f1ab4ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:41 +0000
Subject: [PATCH 28/48] fix: do not move from the lvalues passed as named
 arguments

---
 include/papilio/utility.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/papilio/utility.hpp b/include/papilio/utility.hpp
index 8a41c03..b26d264 100644
--- a/include/papilio/utility.hpp
+++ b/include/papilio/utility.hpp
@@ -271,16 +271,26 @@ struct is_named_arg : public std::bool_constant<detail::is_named_arg_helper<T>>
 PAPILIO_EXPORT template <typename T>
 constexpr inline bool is_named_arg_v = is_named_arg<T>::value;
 
+namespace detail
+{
+    // A named argument only views an lvalue, so it must not be able to move from it
+    template <typename T>
+    using named_arg_value_t = std::conditional_t<
+        std::is_lvalue_reference_v<T>,
+        std::add_const_t<std::remove_reference_t<T>>,
+        std::remove_reference_t<T>>;
+} // namespace detail
+
 PAPILIO_EXPORT template <typename CharT, typename T>
 constexpr auto arg(const CharT* name, T&& value) noexcept
 {
-    return basic_named_arg<CharT, std::remove_reference_t<T>>(name, value);
+    return basic_named_arg<CharT, detail::named_arg_value_t<T>>(name, value);
 }
 
 PAPILIO_EXPORT template <typename CharT, typename T>
 constexpr auto arg(const std::basic_string_view<CharT> name, T&& value) noexcept
 {
-    return basic_named_arg<CharT, std::remove_reference_t<T>>(name, value);
+    return basic_named_arg<CharT, detail::named_arg_value_t<T>>(name, value);
 }
 
 namespace detail
-- 
2.43.0


From 622327bab74386aef704fa9d32e47b794db89b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:41 +0000
Subject: [PATCH 29/48] fix: do not refer to a temporary copy of a named
 argument in dynamic_format_args

---
 include/papilio/core.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index a220e8f..983de03 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -1846,10 +1846,11 @@ public:
                 "Invalid char type"
             );
 
-            m_named_args.emplace(std::make_pair(
-                PAPILIO_NS forward_like<T>(val.name),
+            // Do not decay the value, the argument may have to refer to it
+            m_named_args.emplace(
+                val.name,
                 PAPILIO_NS forward_like<T>(val.value)
-            ));
+            );
         }
         else
         {
-- 
2.43.0


From cfb6b051b5bd6775600147d24d5e8ab8924286ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:23 +0000
Subject: [PATCH 30/48] fix: let exceptions of user conversions out of
 make_format_args

---
 include/papilio/core.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 983de03..3f793ce 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -1769,7 +1769,7 @@ public:
 
 private:
     template <typename... Args>
-    void construct(Args&&... args) noexcept
+    void construct(Args&&... args)
     {
         static_assert(
             detail::get_indexed_arg_count<Args...>() == IndexedArgumentCount,
@@ -1788,7 +1788,7 @@ private:
 
     template <typename T>
     requires(!is_named_arg_v<T>)
-    void emplace(T&& val) noexcept(std::is_nothrow_constructible_v<format_arg_type, T>)
+    void emplace(T&& val)
     {
         m_indexed_args.emplace_back(std::forward<T>(val));
     }
-- 
2.43.0


From a5a540f71cdeb38707da288b247c9c7c3f8c7cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:24 +0000
Subject: [PATCH 31/48] fix: let exceptions of a user formatter's parse out of
 skipped branches

---
 include/papilio/core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 3f793ce..ae25d6d 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -2921,7 +2921,7 @@ struct formatter_traits
      * @param parse_ctx Parse context
      */
     template <typename ParseContext>
-    static void skip_spec(ParseContext& parse_ctx) noexcept
+    static void skip_spec(ParseContext& parse_ctx)
     {
         if constexpr(parsable<ParseContext>())
         {
-- 
2.43.0


From d2d56fd53258edc1d9bc8744292271ade4b3cebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:31 +0000
Subject: [PATCH 32/48] fix: let format_to_n write through pure output
 iterators

---
 include/papilio/format.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/format.hpp b/include/papilio/format.hpp
index 207b09f..2f54bf2 100644
--- a/include/papilio/format.hpp
+++ b/include/papilio/format.hpp
@@ -238,7 +238,7 @@ namespace detail
     {
     public:
         using iterator_category = std::output_iterator_tag;
-        using value_type = std::iter_value_t<OutputIt>;
+        using value_type = void;
         using difference_type = std::iter_difference_t<OutputIt>;
         using pointer = void;
         using reference = void;
-- 
2.43.0


From 5d78b311b26485a205f9713d387d9d937ea4db32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:04 +0000
Subject: [PATCH 33/48] fix: accept named arguments that are lvalues

---
 include/papilio/core.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index ae25d6d..8084581 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -1787,15 +1787,15 @@ private:
     map_type m_named_args;
 
     template <typename T>
-    requires(!is_named_arg_v<T>)
+    requires(!is_named_arg_v<std::remove_cvref_t<T>>)
     void emplace(T&& val)
     {
         m_indexed_args.emplace_back(std::forward<T>(val));
     }
 
     template <typename T>
-    requires(is_named_arg_v<T> && std::is_same_v<char_type, typename T::char_type>)
-    void emplace(T&& na) noexcept(std::is_nothrow_constructible_v<format_arg_type, typename T::value_type>)
+    requires(is_named_arg_v<std::remove_cvref_t<T>> && std::is_same_v<char_type, typename std::remove_cvref_t<T>::char_type>)
+    void emplace(T&& na) noexcept(std::is_nothrow_constructible_v<format_arg_type, typename std::remove_cvref_t<T>::value_type>)
     {
         m_named_args.insert_or_assign(
             na.name,
@@ -1842,7 +1842,7 @@ public:
         if constexpr(is_named_arg_v<std::remove_cvref_t<T>>)
         {
             static_assert(
-                std::is_same_v<char_type, typename T::char_type>,
+                std::is_same_v<char_type, typename std::remove_cvref_t<T>::char_type>,
                 "Invalid char type"
             );
 
-- 
2.43.0


From 8a7b0276d9bb80f3155893caaaec58fb644c37c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:51 +0000
Subject: [PATCH 34/48] fix: let the copy of an attribute name report a failed
 allocation

---
 include/papilio/access.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/access.hpp b/include/papilio/access.hpp
index b28282d..dabf8d5 100644
--- a/include/papilio/access.hpp
+++ b/include/papilio/access.hpp
@@ -143,7 +143,7 @@ public:
     {}
 
     template <basic_string_like<CharT> String>
-    basic_attribute_name(independent_t, String&& str) noexcept(std::is_nothrow_constructible_v<string_container_type, String>)
+    basic_attribute_name(independent_t, String&& str) noexcept(std::is_nothrow_constructible_v<string_container_type, independent_t, String>)
         : m_name(independent, std::forward<String>(str))
     {}
 
-- 
2.43.0


From ed7443a364bd20e2ed9630124bfb6a4f0f4f03ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:20 +0000
Subject: [PATCH 35/48] fix: do not read past the end of a format string cut
 off inside a string or an index

---
 include/papilio/core.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 8084581..9382598 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -3449,7 +3449,7 @@ protected:
 
         return std::make_pair(
             string_container_type(start, it),
-            std::next(it) // +1 to skip '\''
+            it == stop ? it : std::next(it) // +1 to skip '\''
         );
     }
 
@@ -3472,7 +3472,7 @@ protected:
                 start, stop
             );
 
-            if(*next_it == U':')
+            if(next_it != stop && *next_it == U':')
             {
                 ++next_it;
                 if(next_it == stop) [[unlikely]]
-- 
2.43.0


From aef3d2609af57eca379e622cad793a3c2819bc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:25 +0000
Subject: [PATCH 36/48] fix: read on through fields that produce no text in
 formatted_range

---
 include/papilio/format.hpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/papilio/format.hpp b/include/papilio/format.hpp
index 2f54bf2..49431e2 100644
--- a/include/papilio/format.hpp
+++ b/include/papilio/format.hpp
@@ -84,9 +84,8 @@ public:
 
         bool operator==(sentinel_t) const
         {
-            if(m_offset < m_buf.size())
-                return false;
-            return m_intp_ctx.input_at_end();
+            fill();
+            return m_offset >= m_buf.size();
         }
 
         /**
@@ -105,14 +104,18 @@ public:
 
         CharT operator*() const
         {
-            if(m_offset >= m_buf.size())
-            {
-                m_intp.run_n(m_intp_ctx, m_buf.size() - m_offset + 1);
-            }
+            fill();
             return m_buf[m_offset];
         }
 
     private:
+        // A step of the interpreter may produce any number of characters, including zero
+        void fill() const
+        {
+            while(m_offset >= m_buf.size() && !m_intp_ctx.input_at_end())
+                m_intp.run_once(m_intp_ctx);
+        }
+
         mutable format_context_type m_fmt_ctx;
         mutable intp_t m_intp;
         mutable intp_ctx_t m_intp_ctx;
-- 
2.43.0


From b95a2dbaa5201589d89679906368594856360bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:25 +0000
Subject: [PATCH 37/48] fix: keep the position when an iterator of
 formatted_range is moved

---
 include/papilio/format.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/papilio/format.hpp b/include/papilio/format.hpp
index 49431e2..97cc045 100644
--- a/include/papilio/format.hpp
+++ b/include/papilio/format.hpp
@@ -67,7 +67,10 @@ public:
               m_intp(),
               m_intp_ctx(m_intp.create_context(other.m_intp_ctx.input_context(), m_fmt_ctx)),
               m_buf(std::move(other.m_buf)),
-              m_offset(std::exchange(other.m_offset, 0)) {}
+              m_offset(std::exchange(other.m_offset, 0))
+        {
+            m_intp_ctx.advance_input_to(other.m_intp_ctx.input());
+        }
 
         const_iterator(parse_context& ictx)
             : m_fmt_ctx(std::back_inserter(m_buf), ictx.get_args()),
@@ -78,8 +81,10 @@ public:
         {
             m_fmt_ctx = format_context_type(std::back_inserter(m_buf), rhs.m_intp_ctx.input_context().get_args());
             m_intp_ctx = m_intp.create_context(rhs.m_intp_ctx.input_context(), m_fmt_ctx);
+            m_intp_ctx.advance_input_to(rhs.m_intp_ctx.input());
             m_buf = std::move(rhs.m_buf);
             m_offset = std::exchange(rhs.m_offset, 0);
+            return *this;
         }
 
         bool operator==(sentinel_t) const
-- 
2.43.0


From d25ca73d71124bbb6a7927096d1a7327da3daf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:55 +0000
Subject: [PATCH 38/48] fix: do not write the end-of-file marker through
 basic_iterbuf

---
 include/papilio/utility.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/papilio/utility.hpp b/include/papilio/utility.hpp
index b26d264..6719d3c 100644
--- a/include/papilio/utility.hpp
+++ b/include/papilio/utility.hpp
@@ -842,6 +842,9 @@ protected:
     {
         if constexpr(std::output_iterator<Iterator, CharT>)
         {
+            if(traits_type::eq_int_type(c, traits_type::eof()))
+                return traits_type::not_eof(c); // Nothing to write
+
             *m_iter = static_cast<CharT>(c);
             ++m_iter;
             return c;
-- 
2.43.0


From 0d9db2959d1e78ae363891aeaac38b6e61463244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:18 +0000
Subject: [PATCH 39/48] fix: accept slices that begin at the first element

---
 include/papilio/utility.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/papilio/utility.hpp b/include/papilio/utility.hpp
index 6719d3c..ac4a94a 100644
--- a/include/papilio/utility.hpp
+++ b/include/papilio/utility.hpp
@@ -208,8 +208,8 @@ public:
     [[nodiscard]]
     constexpr size_type length() const noexcept
     {
-        PAPILIO_ASSERT(first > 0);
-        PAPILIO_ASSERT(second > 0);
+        PAPILIO_ASSERT(first >= 0);
+        PAPILIO_ASSERT(second >= 0);
         PAPILIO_ASSERT(second != npos);
         return static_cast<size_type>(second - first);
     }
-- 
2.43.0


From 9bc6dd55536ae129ed286eaaff6eec4725da952a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:18 +0000
Subject: [PATCH 40/48] fix: do not read in front of a range sliced from before
 its beginning

---
 include/papilio/accessor/ranges.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/papilio/accessor/ranges.hpp b/include/papilio/accessor/ranges.hpp
index ad1bdcd..e808d78 100644
--- a/include/papilio/accessor/ranges.hpp
+++ b/include/papilio/accessor/ranges.hpp
@@ -93,6 +93,8 @@ struct contiguous_range_accessor
 
         std::size_t sz = stdr::size(rng);
         s = s.normalize(sz);
+        if(s.first < 0)
+            s.first = 0;
 
         if(std::cmp_greater_equal(s.first, sz))
             return format_arg_type();
-- 
2.43.0


From e497764f172d2dc29bea4f0601194fd8b084a291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:35 +0000
Subject: [PATCH 41/48] fix: let wide joiners hold elements whose formatter
 takes no separate parse step

---
 include/papilio/format.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/papilio/format.hpp b/include/papilio/format.hpp
index 97cc045..a9643ff 100644
--- a/include/papilio/format.hpp
+++ b/include/papilio/format.hpp
@@ -649,9 +649,8 @@ public:
                     append_sep(fmt_ctx, j);
                 first = false;
 
-                fmt_ctx.advance_to(
-                    PAPILIO_NS format_to(fmt_ctx.out(), "{}", i)
-                );
+                using context_t = format_context_traits<FormatContext>;
+                context_t::format_to(fmt_ctx, PAPILIO_TSTRING_VIEW(CharT, "{}"), i);
             }
         }
 
-- 
2.43.0


From 2c78fdc36744cf403dccff31975b4868bbae0d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:09 +0000
Subject: [PATCH 42/48] fix: let format_to take format strings of the external
 character types

---
 include/papilio/xchar.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/papilio/xchar.hpp b/include/papilio/xchar.hpp
index f9b2007..d0b7cc9 100644
--- a/include/papilio/xchar.hpp
+++ b/include/papilio/xchar.hpp
@@ -60,7 +60,7 @@ OutputIt format_to(
     return PAPILIO_NS detail::vformat_to_impl<char8_t, OutputIt, context_type>(
         std::move(out),
         nullptr,
-        fmt,
+        fmt.get(),
         PAPILIO_NS make_format_args<context_type>(std::forward<Args>(args)...)
     );
 }
@@ -157,7 +157,7 @@ OutputIt format_to(
     return PAPILIO_NS detail::vformat_to_impl<char16_t, OutputIt, context_type>(
         std::move(out),
         nullptr,
-        fmt,
+        fmt.get(),
         PAPILIO_NS make_format_args<context_type>(std::forward<Args>(args)...)
     );
 }
@@ -255,7 +255,7 @@ OutputIt format_to(
     return PAPILIO_NS detail::vformat_to_impl<char32_t, OutputIt, context_type>(
         std::move(out),
         nullptr,
-        fmt,
+        fmt.get(),
         PAPILIO_NS make_format_args<context_type>(std::forward<Args>(args)...)
     );
 }
-- 
2.43.0


From a07389bf0f19de6bbf0f2734146cfe0e8ad55811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:31 +0000
Subject: [PATCH 43/48] fix: accept empty strings without data in
 utf::index_offset

---
 include/papilio/utf/stralgo.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/papilio/utf/stralgo.hpp b/include/papilio/utf/stralgo.hpp
index f5adb4c..319012a 100644
--- a/include/papilio/utf/stralgo.hpp
+++ b/include/papilio/utf/stralgo.hpp
@@ -343,7 +343,7 @@ constexpr inline std::size_t index_offset(
     std::size_t idx, const CharT* str, std::size_t max_chars
 ) noexcept
 {
-    PAPILIO_ASSERT(str != nullptr);
+    PAPILIO_ASSERT(str != nullptr || max_chars == 0);
 
     std::uint8_t len = 0;
     std::size_t ch_count = 0;
@@ -378,7 +378,7 @@ constexpr inline std::size_t index_offset(
     reverse_index_t, std::size_t idx, const CharT* str, std::size_t max_chars
 ) noexcept
 {
-    PAPILIO_ASSERT(str != nullptr);
+    PAPILIO_ASSERT(str != nullptr || max_chars == 0);
 
     std::size_t ch_count = 0;
     for(std::size_t i = max_chars; i != 0; --i)
@@ -401,7 +401,7 @@ constexpr inline std::size_t index_offset(
     std::size_t idx, const CharT* str, std::size_t max_chars
 ) noexcept
 {
-    PAPILIO_ASSERT(str != nullptr);
+    PAPILIO_ASSERT(str != nullptr || max_chars == 0);
 
     std::uint8_t len = 0;
     std::size_t ch_count = 0;
@@ -436,7 +436,7 @@ constexpr inline std::size_t index_offset(
     reverse_index_t, std::size_t idx, const CharT* str, std::size_t max_chars
 ) noexcept
 {
-    PAPILIO_ASSERT(str != nullptr);
+    PAPILIO_ASSERT(str != nullptr || max_chars == 0);
 
     std::size_t ch_count = 0;
     for(std::size_t i = max_chars; i != 0; --i)
@@ -459,7 +459,7 @@ constexpr inline std::size_t index_offset(
     std::size_t idx, const CharT* str, std::size_t max_chars
 ) noexcept
 {
-    PAPILIO_ASSERT(str != nullptr);
+    PAPILIO_ASSERT(str != nullptr || max_chars == 0);
 
     (void)str; // Unused
     return idx < max_chars ? idx : npos;
-- 
2.43.0


From c4bff4a18ae6910b39a9f6b2ebad0264dd6b1ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:38 +0000
Subject: [PATCH 44/48] fix: keep utf::strlen within the given bound

---
 include/papilio/utf/stralgo.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/papilio/utf/stralgo.hpp b/include/papilio/utf/stralgo.hpp
index 319012a..586f691 100644
--- a/include/papilio/utf/stralgo.hpp
+++ b/include/papilio/utf/stralgo.hpp
@@ -117,12 +117,12 @@ constexpr std::size_t strlen(
     const CharT* str, std::size_t max_chars
 ) noexcept(OnInvalid != strlen_behavior::exception)
 {
-    PAPILIO_ASSERT(str != nullptr);
+    PAPILIO_ASSERT(str != nullptr || max_chars == 0);
 
     std::size_t result = 0;
     std::uint8_t bytes = 0;
     std::size_t i = 0;
-    for(; str[i] != CharT(0) && i < max_chars;)
+    for(; i < max_chars && str[i] != CharT(0);)
     {
         if(bytes != 0)
         {
@@ -273,8 +273,6 @@ constexpr std::size_t strlen(
             }
             else
             {
-                PAPILIO_ASSERT(PAPILIO_NS utf::is_low_surrogate(ch));
-
                 prev_is_high = false;
                 ++result;
             }
@@ -314,6 +312,8 @@ constexpr inline std::size_t strlen(const CharT* str, std::size_t max_chars) noe
         if(str[i] == CharT(0))
             return i;
     }
+
+    return max_chars;
 }
 
 PAPILIO_EXPORT template <
-- 
2.43.0


From 801bf6ba918f63c64bcfcfd2f84b65a0958cadd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:18 +0000
Subject: [PATCH 45/48] fix: report indices counted from the end of an empty
 UTF-32 string as out of range

---
 include/papilio/utf/stralgo.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/utf/stralgo.hpp b/include/papilio/utf/stralgo.hpp
index 586f691..89e6eda 100644
--- a/include/papilio/utf/stralgo.hpp
+++ b/include/papilio/utf/stralgo.hpp
@@ -472,7 +472,7 @@ constexpr inline std::size_t index_offset(
 ) noexcept
 {
     (void)str;
-    if(idx > max_chars - 1)
+    if(idx >= max_chars)
         return npos;
     return max_chars - 1 - idx;
 }
-- 
2.43.0


From 11fdd648b2e9edd6593d55168d93309404ed1f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:50 +0000
Subject: [PATCH 46/48] fix: align characters to the left when only a width is
 given

---
 include/papilio/core.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 9382598..936cfb9 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -5124,6 +5124,8 @@ public:
         data() = dt;
         data().type = dt.type_or(U'c');
         data().fill = dt.fill_or(U' ');
+        if(data().align == format_align::default_align)
+            data().align = format_align::left;
     }
 
     void set_debug_format() noexcept
-- 
2.43.0


From ffd3c1f064ecf34cbbfea63b4a582a1e02f46154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:03 +0000
Subject: [PATCH 47/48] fix: tell surrogates from their neighbours U+D7FF and
 U+E000

---
 include/papilio/utf/codepoint.inl | 3 +++
 include/papilio/utf/stralgo.hpp   | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/papilio/utf/codepoint.inl b/include/papilio/utf/codepoint.inl
index 142cbee..36dbf78 100644
--- a/include/papilio/utf/codepoint.inl
+++ b/include/papilio/utf/codepoint.inl
@@ -125,6 +125,9 @@ constexpr std::pair<char32_t, std::uint8_t> decoder<char16_t>::to_char32_t(std::
 
     if(!PAPILIO_NS utf::is_high_surrogate(ch[0])) [[likely]]
     {
+        if(PAPILIO_NS utf::is_low_surrogate(ch[0])) [[unlikely]]
+            throw invalid_surrogate(ch[0]);
+
         char32_t result = ch[0];
         return std::make_pair(result, std::uint8_t(1));
     }
diff --git a/include/papilio/utf/stralgo.hpp b/include/papilio/utf/stralgo.hpp
index 89e6eda..11d67dd 100644
--- a/include/papilio/utf/stralgo.hpp
+++ b/include/papilio/utf/stralgo.hpp
@@ -86,7 +86,7 @@ constexpr inline std::uint8_t byte_count(std::uint8_t leading_byte) noexcept
 PAPILIO_EXPORT [[nodiscard]]
 constexpr inline bool is_high_surrogate(std::uint16_t ch) noexcept
 {
-    return 0xD7FF <= ch && ch <= 0xE000;
+    return 0xD800 <= ch && ch <= 0xDBFF;
 }
 
 PAPILIO_EXPORT [[nodiscard]]
-- 
2.43.0


From 653ee30f3bebda20f84a3dfe50485d99eb2468ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:44 +0000
Subject: [PATCH 48/48] fix: take over the deleter of a unique_ptr with its
 object

---
 include/papilio/memory.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/papilio/memory.hpp b/include/papilio/memory.hpp
index abee5c5..d542fcc 100644
--- a/include/papilio/memory.hpp
+++ b/include/papilio/memory.hpp
@@ -195,6 +195,8 @@ public:
     optional_unique_ptr(std::unique_ptr<T, D>&& ptr) noexcept
         : m_ptr(ptr.release())
     {
+        if constexpr(std::is_assignable_v<Deleter&, D>)
+            m_del = std::forward<D>(ptr.get_deleter());
         m_has_ownership = static_cast<bool>(m_ptr);
     }
 
@@ -259,6 +261,8 @@ public:
         reset(nullptr);
         if(ptr)
         {
+            if constexpr(std::is_assignable_v<Deleter&, D>)
+                m_del = std::forward<D>(ptr.get_deleter());
             m_ptr = ptr.release();
             m_has_ownership = true;
         }
@@ -382,6 +386,8 @@ public:
     optional_unique_ptr(std::unique_ptr<T[], D>&& ptr) noexcept
         : m_ptr(ptr.release()), m_del()
     {
+        if constexpr(std::is_assignable_v<Deleter&, D>)
+            m_del = std::forward<D>(ptr.get_deleter());
         m_has_ownership = static_cast<bool>(m_ptr);
     }
 
@@ -441,6 +447,8 @@ public:
         reset(nullptr);
         if(ptr)
         {
+            if constexpr(std::is_assignable_v<Deleter&, D>)
+                m_del = std::forward<D>(ptr.get_deleter());
             m_ptr = ptr.release();
             m_has_ownership = true;
         }
-- 
2.43.0


From f53b9fd5e53245bd14534bfebc4e6a707be7f8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:30 +0000
Subject: [PATCH 01/27] fix: span::subspan: an offset beyond the end must not
 wrap around the pointer

---
 include/itlib/span.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/span.hpp b/include/itlib/span.hpp
index 8b10def..4c4f363 100644
--- a/include/itlib/span.hpp
+++ b/include/itlib/span.hpp
@@ -265,7 +265,7 @@ public:
     // slicing
     span subspan(size_t off, size_t count = size_t(-1)) const noexcept
     {
-        if (m_begin + off > m_end) return span(m_end, 0);
+        if (off > size()) return span(m_end, 0);
         auto newSize = size() - off;
         if (count > newSize) count = newSize;
         return span(m_begin + off, count);
-- 
2.43.0


From 64b757bef12de8d072490bd39f9133de4902ee7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:30 +0000
Subject: [PATCH 02/27] fix: stride_span iterator: negative differences must be
 divided as signed

---
 include/itlib/stride_span.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/stride_span.hpp b/include/itlib/stride_span.hpp
index 998b3d8..69ecfb4 100644
--- a/include/itlib/stride_span.hpp
+++ b/include/itlib/stride_span.hpp
@@ -213,7 +213,7 @@ public:
         t_iterator& operator-=(const ptrdiff_t diff) noexcept { p -= diff * stride; return *this; }
         t_iterator operator+(const ptrdiff_t diff) const noexcept { return t_iterator(p + stride * diff, stride); }
         t_iterator operator-(const ptrdiff_t diff) const noexcept { return t_iterator(p - stride * diff, stride); }
-        ptrdiff_t operator-(const t_iterator& other) const noexcept { return (p - other.p) / stride; }
+        ptrdiff_t operator-(const t_iterator& other) const noexcept { return (p - other.p) / ptrdiff_t(stride); }
         bool operator==(const t_iterator& other) const noexcept { return p == other.p; }
         bool operator!=(const t_iterator& other) const noexcept { return p != other.p; }
         bool operator<(const t_iterator& other) const noexcept { return p < other.p; }
-- 
2.43.0


From 912039e9800ebcacc44fa1e610b4c8fda614efc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:30 +0000
Subject: [PATCH 03/27] fix: poly_span iterator: negative differences must be
 divided as signed

---
 include/itlib/poly_span.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/poly_span.hpp b/include/itlib/poly_span.hpp
index e48b4f3..d712c5f 100644
--- a/include/itlib/poly_span.hpp
+++ b/include/itlib/poly_span.hpp
@@ -227,7 +227,7 @@ public:
         t_iterator& operator-=(const ptrdiff_t diff) noexcept { p -= diff * stride; return *this; }
         t_iterator operator+(const ptrdiff_t diff) const noexcept { return t_iterator(p + stride * diff, stride, poly_func); }
         t_iterator operator-(const ptrdiff_t diff) const noexcept { return t_iterator(p - stride * diff, stride, poly_func); }
-        ptrdiff_t operator-(const t_iterator& other) const noexcept { return (p - other.p) / stride; }
+        ptrdiff_t operator-(const t_iterator& other) const noexcept { return (p - other.p) / ptrdiff_t(stride); }
         bool operator==(const t_iterator& other) const noexcept { return p == other.p; }
         bool operator!=(const t_iterator& other) const noexcept { return p != other.p; }
         bool operator<(const t_iterator& other) const noexcept { return p < other.p; }
-- 
2.43.0


From 298a555c739d91ea5254e0d40ef4eff4ffaac36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:37 +0000
Subject: [PATCH 04/27] fix: pod_vector::resize(n, val) fills only the added
 elements

---
 include/itlib/pod_vector.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/itlib/pod_vector.hpp b/include/itlib/pod_vector.hpp
index bfe8674..c03c496 100644
--- a/include/itlib/pod_vector.hpp
+++ b/include/itlib/pod_vector.hpp
@@ -607,7 +607,10 @@ public:
     bool resize(size_type n, const value_type& val)
     {
         bool ret = reserve(n);
-        fill(m_end, n, val);
+        if (n > size())
+        {
+            fill(m_end, n - size(), val);
+        }
         m_end = m_begin + n;
         return ret;
     }
-- 
2.43.0


From 1189e98aef8aee2b0fcb257f09c3ecda47c1f732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:19 +0000
Subject: [PATCH 05/27] fix: small_vector: inserting or erasing zero elements
 mid-vector destroyed live elements

---
 include/itlib/small_vector.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index 30992db..7d3af4b 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -762,6 +762,8 @@ private:
 
         I_ITLIB_SMALL_VECTOR_OUT_OF_RANGE_IF(position < m_begin || position > m_end);
 
+        if (num == 0) return position;
+
         const auto s = size();
         const auto cdr = choose_data(s + num);
 
@@ -825,6 +827,8 @@ private:
 
         I_ITLIB_SMALL_VECTOR_OUT_OF_RANGE_IF(position < m_begin || position > m_end || position + num > m_end);
 
+        if (num == 0) return position;
+
         const auto s = size();
         if (s - num == 0)
         {
-- 
2.43.0


From 78f7ab0e9d8f43f5c03028273ebbde010abe8b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:19 +0000
Subject: [PATCH 06/27] fix: small_vector: revert_to_static and shrink_to_fit
 with exactly StaticCapacity elements

---
 include/itlib/small_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index 7d3af4b..2e5a866 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -519,7 +519,7 @@ public:
         auto old_end = m_end;
         auto old_cap = m_capacity;
 
-        if (s < StaticCapacity)
+        if (s <= StaticCapacity)
         {
             // revert to static capacity
             m_begin = m_end = static_begin_ptr();
-- 
2.43.0


From 105a22d66e2b72f203a24a104c08b04dfdca1417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:19 +0000
Subject: [PATCH 07/27] fix: small_vector::resize didn't revert to the static
 buffer below RevertToStaticBelow

---
 include/itlib/small_vector.hpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index 2e5a866..1b24ce9 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -674,15 +674,16 @@ public:
 
     void resize(size_type n, const value_type& v)
     {
+        if (n < size())
+        {
+            shrink_at(m_begin + n, size() - n);
+            return;
+        }
+
         reserve(n);
 
         auto new_end = m_begin + n;
 
-        while (m_end > new_end)
-        {
-            atraits::destroy(get_alloc(), --m_end);
-        }
-
         while (new_end > m_end)
         {
             atraits::construct(get_alloc(), m_end++, v);
@@ -691,15 +692,16 @@ public:
 
     void resize(size_type n)
     {
+        if (n < size())
+        {
+            shrink_at(m_begin + n, size() - n);
+            return;
+        }
+
         reserve(n);
 
         auto new_end = m_begin + n;
 
-        while (m_end > new_end)
-        {
-            atraits::destroy(get_alloc(), --m_end);
-        }
-
         while (new_end > m_end)
         {
             atraits::construct(get_alloc(), m_end++);
-- 
2.43.0


From 185079b9dc0c04e42ca58117761bc0046cb556f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:39 +0000
Subject: [PATCH 08/27] fix: static_vector: erasing an empty range mid-vector
 destroyed live elements

---
 include/itlib/static_vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/itlib/static_vector.hpp b/include/itlib/static_vector.hpp
index bf36868..2b9ab2b 100644
--- a/include/itlib/static_vector.hpp
+++ b/include/itlib/static_vector.hpp
@@ -644,6 +644,7 @@ private:
         I_ITLIB_STATIC_VECTOR_BOUNDS_CHECK_ITER(cp);
 
         auto position = const_cast<T*>(cp);
+        if (num == 0) return position;
 
         const auto s = size();
         if (s - num == 0)
-- 
2.43.0


From 1df2e1d09d390310481e0bb78d3f8b5dbe7759a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:39 +0000
Subject: [PATCH 09/27] fix: static_vector: inserting a huge count overflowed
 the capacity check

---
 include/itlib/static_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/static_vector.hpp b/include/itlib/static_vector.hpp
index 2b9ab2b..a532ab2 100644
--- a/include/itlib/static_vector.hpp
+++ b/include/itlib/static_vector.hpp
@@ -622,7 +622,7 @@ private:
     }
 
     T* grow_at(const T* cp, size_t by) {
-        I_ITLIB_STATIC_VECTOR_OUT_OF_RANGE_IF(size() + by > Capacity);
+        I_ITLIB_STATIC_VECTOR_OUT_OF_RANGE_IF(by > Capacity - size());
         I_ITLIB_STATIC_VECTOR_BOUNDS_CHECK_ITER(cp);
 
         auto position = const_cast<T*>(cp);
-- 
2.43.0


From cdc1a105b89c6344436a7e46dcd7de7e4c714612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:19 +0000
Subject: [PATCH 10/27] fix: expected: don't move from an lvalue passed to
 unexpected()

---
 include/itlib/expected.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/itlib/expected.hpp b/include/itlib/expected.hpp
index 3685445..beffe5e 100644
--- a/include/itlib/expected.hpp
+++ b/include/itlib/expected.hpp
@@ -183,7 +183,7 @@ public:
     expected(T&& t) : m_value(std::forward<T>(t)), m_has_value(true) {}
 
     template <typename E2>
-    expected(unexpected_t<E2>&& u) : m_error(std::move(u.m_error)), m_has_value(false) {}
+    expected(unexpected_t<E2>&& u) : m_error(std::forward<E2>(u.m_error)), m_has_value(false) {}
 
     expected(unexpected_t<void>) : m_error(), m_has_value(false) {}
 
@@ -316,7 +316,7 @@ public:
     expected(T& t) : m_value(&t) {}
 
     template <typename E2>
-    expected(unexpected_t<E2>&& u) : m_value(nullptr), m_error(std::move(u.m_error)) {}
+    expected(unexpected_t<E2>&& u) : m_value(nullptr), m_error(std::forward<E2>(u.m_error)) {}
 
     expected(unexpected_t<void>) : m_value(nullptr), m_error() {}
 
@@ -416,7 +416,7 @@ public:
     expected() : m_has_value(true) {}
 
     template <typename E2>
-    expected(unexpected_t<E2>&& u) : m_error(std::move(u.m_error)), m_has_value(false) {}
+    expected(unexpected_t<E2>&& u) : m_error(std::forward<E2>(u.m_error)), m_has_value(false) {}
 
     expected(unexpected_t<void>) : m_error(), m_has_value(false) {}
 
-- 
2.43.0


From 24217a569a7cb95257b43315b8d81e15431bd9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:19 +0000
Subject: [PATCH 11/27] fix: expected<void, E>: don't assign errors when both
 have a value

---
 include/itlib/expected.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/expected.hpp b/include/itlib/expected.hpp
index beffe5e..1734909 100644
--- a/include/itlib/expected.hpp
+++ b/include/itlib/expected.hpp
@@ -446,7 +446,7 @@ public:
             m_has_value = true;
             m_error.~E();
         }
-        else
+        else if (!m_has_value && !other.has_value())
         {
             m_error = std::move(other.m_error);
         }
-- 
2.43.0


From 0bc74d02824e16b3a13f89a29d56aa5f1e389803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:19 +0000
Subject: [PATCH 12/27] fix: expected<T, void>: no value after a throwing copy
 assignment to an empty one

---
 include/itlib/expected.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/expected.hpp b/include/itlib/expected.hpp
index 1734909..04a094b 100644
--- a/include/itlib/expected.hpp
+++ b/include/itlib/expected.hpp
@@ -528,8 +528,8 @@ public:
         }
         else if (!m_has_value && other.has_value())
         {
-            m_has_value = true;
             ::new (&m_value) T(other.m_value);
+            m_has_value = true; // only now: the copy constructor may throw
         }
         return *this;
     }
-- 
2.43.0


From aece61f53075c0b749d265f95e647d2adc38df89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:37 +0000
Subject: [PATCH 13/27] fix: any: store a decayed copy of an lvalue instead of
 a reference to it

---
 include/itlib/any.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/itlib/any.hpp b/include/itlib/any.hpp
index 90994d3..41761ec 100644
--- a/include/itlib/any.hpp
+++ b/include/itlib/any.hpp
@@ -173,15 +173,15 @@ public:
     // only enable these if T is not another any
     template <typename T, typename std::enable_if<!anyimpl::is_any<typename std::decay<T>::type>::value, int>::type = 0>
     any(T&& t) {
-        emplace<T>(std::forward<T>(t));
+        emplace<typename std::decay<T>::type>(std::forward<T>(t));
     }
     template <typename T, typename std::enable_if<!anyimpl::is_any<typename std::decay<T>::type>::value, int>::type = 0>
     any(std::allocator_arg_t, const Alloc& a, T&& t) : Alloc(a) {
-        emplace<T>(std::forward<T>(t));
+        emplace<typename std::decay<T>::type>(std::forward<T>(t));
     }
     template <typename T, typename std::enable_if<!anyimpl::is_any<typename std::decay<T>::type>::value, int>::type = 0>
     any& operator=(T&& t) {
-        emplace<T>(std::forward<T>(t));
+        emplace<typename std::decay<T>::type>(std::forward<T>(t));
         return *this;
     }
 
-- 
2.43.0


From 9ee95af8d7df936d73306f8c88d686590c2668b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:37 +0000
Subject: [PATCH 14/27] fix: any: keep the value in a copy self-assignment

---
 include/itlib/any.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/itlib/any.hpp b/include/itlib/any.hpp
index 41761ec..8c0fe13 100644
--- a/include/itlib/any.hpp
+++ b/include/itlib/any.hpp
@@ -235,6 +235,7 @@ public:
 
     template <typename OAlloc>
     void copy_from(const any<OAlloc>& o) {
+        if (static_cast<const void*>(&o) == static_cast<const void*>(this)) return; // nothing to copy
         reset();
         if (!o.has_value()) return;
         m_block = static_cast<anyimpl::obj_block*>(Alloc::allocate_bytes(o.m_block->size, o.m_block->alignment));
-- 
2.43.0


From fa7d73e9d21ecdb465f5b1af3af15af182f45157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:37 +0000
Subject: [PATCH 15/27] fix: any: move assignment returned the value to an
 allocator it did not come from

---
 include/itlib/any.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/itlib/any.hpp b/include/itlib/any.hpp
index 8c0fe13..5184db0 100644
--- a/include/itlib/any.hpp
+++ b/include/itlib/any.hpp
@@ -154,9 +154,10 @@ public:
     }
     any& operator=(any&& o) noexcept {
         if (&o == this) return *this; // prevent self usurp
-        reset();
-        m_block = o.m_block;
-        o.m_block = nullptr;
+        // the value must be returned to the allocator it came from, so that allocator moves along with it
+        // (allocators need not be assignable)
+        this->~any();
+        ::new (static_cast<void*>(this)) any(std::move(o));
         return *this;
     }
 
-- 
2.43.0


From 02f39a8af8d13f7b48c04f68a2d3b7e221c90543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:56 +0000
Subject: [PATCH 16/27] fix: sentry: make_sentry with an lvalue function did
 not compile before C++17

---
 include/itlib/sentry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/sentry.hpp b/include/itlib/sentry.hpp
index ccd9458..116755e 100644
--- a/include/itlib/sentry.hpp
+++ b/include/itlib/sentry.hpp
@@ -106,7 +106,7 @@ public:
     ~sentry() { m_func(); }
 #else
     sentry(sentry&& other) noexcept
-        : m_func(std::move(other.m_func))
+        : m_func(std::forward<Func>(other.m_func))
         , m_has_func(other.m_has_func)
     {
         other.m_has_func = false;
-- 
2.43.0


From e7f7097880d569ae17e18365cad3232f0a5e59c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:36 +0000
Subject: [PATCH 17/27] fix: atomic_relaxed_counter: signed overflow in the
 value returned by an update which wraps

---
 include/itlib/atomic.hpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/itlib/atomic.hpp b/include/itlib/atomic.hpp
index 1f757ee..3079157 100644
--- a/include/itlib/atomic.hpp
+++ b/include/itlib/atomic.hpp
@@ -74,17 +74,28 @@ struct atomic_relaxed_counter {
 
     operator I() const noexcept { return load(); } // intentionally implicit
 
-    I operator++() noexcept { return a.fetch_add(1, rel) + 1; }
+    I operator++() noexcept { return wrap_add(a.fetch_add(1, rel), 1); }
     I operator++(int) noexcept { return a.fetch_add(1, rel); }
-    I operator+=(I i) noexcept { return a.fetch_add(i, rel) + i; }
-    I operator--() noexcept { return a.fetch_sub(1, rel) - 1; }
+    I operator+=(I i) noexcept { return wrap_add(a.fetch_add(i, rel), i); }
+    I operator--() noexcept { return wrap_sub(a.fetch_sub(1, rel), 1); }
     I operator--(int) noexcept { return a.fetch_sub(1, rel); }
-    I operator-=(I i) noexcept { return a.fetch_sub(i, rel) - i; }
+    I operator-=(I i) noexcept { return wrap_sub(a.fetch_sub(i, rel), i); }
 
     I operator=(I i) {
         store(i);
         return i;
     }
+
+private:
+    // the value an atomic update wraps to (a signed addition would overflow)
+    static I wrap_add(I x, I y) noexcept {
+        using U = typename std::make_unsigned<I>::type;
+        return static_cast<I>(static_cast<U>(x) + static_cast<U>(y));
+    }
+    static I wrap_sub(I x, I y) noexcept {
+        using U = typename std::make_unsigned<I>::type;
+        return static_cast<I>(static_cast<U>(x) - static_cast<U>(y));
+    }
 };
 
 }
-- 
2.43.0


From ad8e7537f424042b98a04685adc0a960346d3e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:08 +0000
Subject: [PATCH 18/27] fix: data_mutex: a lock operation which throws unlocked
 a mutex that was not locked

---
 include/itlib/data_mutex.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/itlib/data_mutex.hpp b/include/itlib/data_mutex.hpp
index 60ffbfe..8e11200 100644
--- a/include/itlib/data_mutex.hpp
+++ b/include/itlib/data_mutex.hpp
@@ -76,8 +76,7 @@ public:
     protected:
         Mutex& m_mutex;
         CT* m_data;
-        lock_base_t(Mutex& mutex, CT& data) : m_mutex(mutex), m_data(&data) {}
-        lock_base_t(Mutex& mutex) : m_mutex(mutex) {}
+        lock_base_t(Mutex& mutex) : m_mutex(mutex), m_data(nullptr) {}
         ~lock_base_t() = default;
         lock_base_t(const lock_base_t&) = delete;
         lock_base_t& operator=(const lock_base_t&) = delete;
@@ -101,8 +100,9 @@ public:
     };
 
     struct unique_lock_t : public unique_lock_base_t<T> {
-        explicit unique_lock_t(data_mutex& dm) : unique_lock_base_t<T>(dm.m_mutex, dm.m_data) {
+        explicit unique_lock_t(data_mutex& dm) : unique_lock_base_t<T>(dm.m_mutex) {
             this->m_mutex.lock();
+            this->m_data = &dm.m_data; // only now: lock may throw
         }
     };
 
@@ -115,8 +115,9 @@ public:
     };
 
     struct const_unique_lock_t : public unique_lock_base_t<const T> {
-        explicit const_unique_lock_t(const data_mutex& dm) : unique_lock_base_t<const T>(dm.m_mutex, dm.m_data) {
+        explicit const_unique_lock_t(const data_mutex& dm) : unique_lock_base_t<const T>(dm.m_mutex) {
             this->m_mutex.lock();
+            this->m_data = &dm.m_data; // only now: lock may throw
         }
     };
 
@@ -136,8 +137,9 @@ public:
     };
 
     struct shared_lock_t : public shared_lock_base_t {
-        explicit shared_lock_t(const data_mutex& dm) : shared_lock_base_t(dm.m_mutex, dm.m_data) {
+        explicit shared_lock_t(const data_mutex& dm) : shared_lock_base_t(dm.m_mutex) {
             this->m_mutex.lock_shared();
+            this->m_data = &dm.m_data; // only now: lock_shared may throw
         }
     };
 
-- 
2.43.0


From f1a26d4f3be7ed3f685262555c230b94a847b445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:44 +0000
Subject: [PATCH 19/27] fix: strftime looped until memory ran out when the
 output is empty

---
 include/itlib/time_t.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/itlib/time_t.hpp b/include/itlib/time_t.hpp
index ee8dd6c..e4647a5 100644
--- a/include/itlib/time_t.hpp
+++ b/include/itlib/time_t.hpp
@@ -167,11 +167,15 @@ private:
 
 inline std::string strftime(const char* format, const std::tm& tm)
 {
+    // std::strftime returns zero both when the buffer is too small and when the output is empty
+    // so make sure the output is never empty by adding a leading character and removing it from the result
+    const std::string lead_format = std::string(1, ' ') + format;
     std::string ret;
     ret.resize(128);
     size_t len;
-    while ((len = std::strftime(&ret.front(), ret.size(), format, &tm)) == 0) ret.resize(2 * ret.size());
+    while ((len = std::strftime(&ret.front(), ret.size(), lead_format.c_str(), &tm)) == 0) ret.resize(2 * ret.size());
     ret.resize(len);
+    ret.erase(0, 1);
     return ret;
 }
 
-- 
2.43.0


From cbe64fdbe3436c8dae459c5099975a3d0acbd23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:32 +0000
Subject: [PATCH 20/27] fix: mem_ostreambuf with a container whose empty data
 is not null broke when written to after get_container

---
 include/itlib/mem_streambuf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/mem_streambuf.hpp b/include/itlib/mem_streambuf.hpp
index 4e8a83c..8de2ff3 100644
--- a/include/itlib/mem_streambuf.hpp
+++ b/include/itlib/mem_streambuf.hpp
@@ -130,7 +130,7 @@ public:
         Container ret;
         auto size = this->poff();
         ret.swap(m_data);
-        this->setp(nullptr, nullptr);
+        this->setp(m_data.data(), m_data.data());
         ret.resize(size);
         return ret;
     }
-- 
2.43.0


From 5f4385f059e6b3dadd5bdab986f6155e7e108b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:34 +0000
Subject: [PATCH 21/27] fix: mem_ostreambuf corrupted its put position beyond 2
 GiB

---
 include/itlib/mem_streambuf.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/itlib/mem_streambuf.hpp b/include/itlib/mem_streambuf.hpp
index 8de2ff3..9c64640 100644
--- a/include/itlib/mem_streambuf.hpp
+++ b/include/itlib/mem_streambuf.hpp
@@ -167,14 +167,14 @@ private:
         }
 
         memcpy(this->pptr(), s, num * sizeof(char_type));
-        this->pbump(int_type(num));
+        this->setp(this->pptr() + num, this->epptr()); // not pbump, whose int argument may be too small
 
         return num;
     }
 
     pos_type seekpos(pos_type sp, std::ios_base::openmode) override
     {
-        this->setp(m_data.data() + int(sp), m_data.data() + m_data.size());
+        this->setp(m_data.data() + off_type(sp), m_data.data() + m_data.size());
         return sp;
     }
 
-- 
2.43.0


From 66f10dd8970e8001479c393ebed7b96bcdbf7c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:06 +0000
Subject: [PATCH 22/27] fix: mem_ostreambuf::get_container did not compile with
 small_vector, which has no swap

---
 include/itlib/mem_streambuf.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/itlib/mem_streambuf.hpp b/include/itlib/mem_streambuf.hpp
index 9c64640..00410a5 100644
--- a/include/itlib/mem_streambuf.hpp
+++ b/include/itlib/mem_streambuf.hpp
@@ -91,6 +91,7 @@
 #include <streambuf>
 #include <cstring>
 #include <cassert>
+#include <utility>
 
 namespace itlib
 {
@@ -129,7 +130,7 @@ public:
     {
         Container ret;
         auto size = this->poff();
-        ret.swap(m_data);
+        std::swap(ret, m_data);
         this->setp(m_data.data(), m_data.data());
         ret.resize(size);
         return ret;
-- 
2.43.0


From 76aa421d3b0a53574dd829327aaf46da43a7b059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:59 +0000
Subject: [PATCH 23/27] fix: dynamic_bitset::all for words narrower than int

~word_type(0) is an int then (integral promotion) and never equal to a word,
so all() was false for every bitset with at least one whole word
---
 include/itlib/dynamic_bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/dynamic_bitset.hpp b/include/itlib/dynamic_bitset.hpp
index ee84748..c915ea4 100644
--- a/include/itlib/dynamic_bitset.hpp
+++ b/include/itlib/dynamic_bitset.hpp
@@ -199,7 +199,7 @@ public:
         auto endit = it + m_size / bits_per_word;
         for (; it != endit; ++it)
         {
-            if (*it != ~word_type(0)) return false;
+            if (*it != word_type(~word_type(0))) return false;
         }
         if (endit != m_buf.end())
         {
-- 
2.43.0


From f969d76d174b1d4b9d0f39b757ca059838842885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:00 +0000
Subject: [PATCH 24/27] fix: dynamic_bitset::copy lost bits when the tail spans
 two source words

The last partial word was taken from a single word of the source, so the bits
which lie in the next one were copied as zeroes
---
 include/itlib/dynamic_bitset.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/itlib/dynamic_bitset.hpp b/include/itlib/dynamic_bitset.hpp
index c915ea4..a7c7a0a 100644
--- a/include/itlib/dynamic_bitset.hpp
+++ b/include/itlib/dynamic_bitset.hpp
@@ -400,7 +400,13 @@ public:
 
         // now what remains is some bits from source that need to be splicet onto our last element
         const auto rpad = to.index % bits_per_word;
-        m_buf[own_windex] = ((src[src_windex] >> pad) & (word_mask(rpad) - 1)) | (m_buf[own_windex] & ~(word_mask(rpad) - 1));
+        word_type tail = src[src_windex] >> pad;
+        if (pad && rpad > bits_per_word - pad)
+        {
+            // the remaining bits span two words of the source
+            tail |= src[src_windex + 1] << (bits_per_word - pad);
+        }
+        m_buf[own_windex] = (tail & (word_mask(rpad) - 1)) | (m_buf[own_windex] & ~(word_mask(rpad) - 1));
     }
 
     // static ops
-- 
2.43.0


From d8c96a0cfd0188421ae58758b9da1212213c7063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:08 +0000
Subject: [PATCH 25/27] fix: atomic_shared_ptr_storage::compare_exchange
 destroyed the old expected value under the spinlock

A destructor which uses the same storage (a cache node which updates its owner, for example) spun forever.
---
 include/itlib/atomic_shared_ptr_storage.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/itlib/atomic_shared_ptr_storage.hpp b/include/itlib/atomic_shared_ptr_storage.hpp
index b59a038..f7f1a85 100644
--- a/include/itlib/atomic_shared_ptr_storage.hpp
+++ b/include/itlib/atomic_shared_ptr_storage.hpp
@@ -119,15 +119,17 @@ public:
 
     // have _strong to match atomic<shared_ptr>
     bool compare_exchange_strong(sptr& expect, sptr ptr) noexcept {
-        asps_spinlock::lock_guard _l(m_spinlock);
-        if (m_ptr == expect) {
-            m_ptr.swap(ptr);
-            return true;
-        }
-        else {
-            expect = m_ptr;
-            return false;
+        sptr cur; // what expect pointed to must not be destroyed under the lock
+        {
+            asps_spinlock::lock_guard _l(m_spinlock);
+            if (m_ptr == expect) {
+                m_ptr.swap(ptr);
+                return true;
+            }
+            cur = m_ptr;
         }
+        expect = std::move(cur);
+        return false;
     }
 };
 #if defined(_MSC_VER)
-- 
2.43.0


From 5a1694e970a83bdae1d2eb6e9bfea5661c83e857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:21 +0000
Subject: [PATCH 26/27] fix: generator self-move assignment destroyed the
 coroutine and kept a dangling handle

---
 include/itlib/generator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/itlib/generator.hpp b/include/itlib/generator.hpp
index 0cead31..bfddfcb 100644
--- a/include/itlib/generator.hpp
+++ b/include/itlib/generator.hpp
@@ -152,8 +152,9 @@ public:
     generator(generator&& other) noexcept : m_handle(std::exchange(other.m_handle, nullptr)) {}
 
     generator& operator=(generator&& other) noexcept {
+        auto handle = std::exchange(other.m_handle, nullptr); // first, in case of self-assignment
         if (m_handle) m_handle.destroy();
-        m_handle = std::exchange(other.m_handle, nullptr);
+        m_handle = handle;
         return *this;
     }
 
-- 
2.43.0


From 771609e29f46b6cc94954843f0fd0ebdb0922353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:21 +0000
Subject: [PATCH 27/27] fix: pmr_allocator::allocate_object of a count whose
 size overflows gave a too small block

---
 include/itlib/pmr_allocator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/itlib/pmr_allocator.hpp b/include/itlib/pmr_allocator.hpp
index 33efd0f..5cf6534 100644
--- a/include/itlib/pmr_allocator.hpp
+++ b/include/itlib/pmr_allocator.hpp
@@ -48,6 +48,7 @@
 //
 #include <memory_resource>
 #include <cstddef>
+#include <new>
 
 namespace itlib {
 
@@ -73,6 +74,7 @@ public:
 
     template <class U>
     [[nodiscard]] U* allocate_object(std::size_t n = 1) {
+        if (n > std::size_t(-1) / sizeof(U)) throw std::bad_array_new_length();
         return static_cast<U*>(allocate_bytes(n * sizeof(U), alignof(U)));
     }
 
-- 
2.43.0


From c7ba9d66ce2cb5b2820b31ba1203878df188629b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:33 +0000
Subject: [PATCH 01/38] fix: vector::clear did not compile (destroy has no
 allocator argument)

---
 nestl/implementation/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index 2dcbdb8..cbd5ce3 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -553,7 +553,7 @@ vector<T, A>::shrink_to_fit_nothrow(OperationError& err) NESTL_NOEXCEPT_SPEC
 template <typename T, typename A>
 void vector<T, A>::clear() NESTL_NOEXCEPT_SPEC
 {
-    nestl::detail::destroy(m_allocator, m_start, m_finish);
+    nestl::detail::destroy(m_start, m_finish);
     m_finish = m_start;
 }
 
-- 
2.43.0


From 3aeba7685375b631347e796678f29c5aceb327f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:38 +0000
Subject: [PATCH 02/38] fix: range insert into a vector did not compile and
 returned an uninitialised position for an empty range

---
 nestl/implementation/vector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index cbd5ce3..3487a08 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -743,13 +743,13 @@ template <typename OperationError, typename InputIterator>
 typename vector<T, A>::iterator
 vector<T, A>::insert_range(OperationError& err, const_iterator pos, InputIterator first, InputIterator last) NESTL_NOEXCEPT_SPEC
 {
-    NESTL_ASSERT(pos >= m_start);
-    NESTL_ASSERT(pos <= m_finish);
+    assert(pos >= m_start);
+    assert(pos <= m_finish);
 
     /// we should calculate offset before possible reallocation
     size_t offset = pos - m_start;
 
-    iterator res;
+    iterator res = m_start + offset;
     for ( ; first != last; ++first, ++offset)
     {
         const_iterator newPos = m_start + offset;
-- 
2.43.0


From 10f941c5b243b87215bc51de61a12b8c4a8ce482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:42 +0000
Subject: [PATCH 03/38] fix: an element failure in the middle of a vector
 insertion left a destroyed element inside the vector

---
 nestl/implementation/vector.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index 3487a08..af9e716 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -722,6 +722,9 @@ vector<T, A>::insert_value(OperationError& err, const_iterator pos, Args&& ... a
         nestl::class_operations::construct(err, val, *oldLocation);
         if (err)
         {
+            /// there is no object at `val`, so only elements before it are kept
+            nestl::detail::destroy(val + 1, last + 1);
+            m_finish = val;
             return end();
         }
         nestl::detail::destroy(oldLocation, val);
@@ -731,6 +734,8 @@ vector<T, A>::insert_value(OperationError& err, const_iterator pos, Args&& ... a
 	nestl::class_operations::construct(err, first, std::forward<Args>(args) ...);
     if (err)
     {
+        nestl::detail::destroy(first + 1, last + 1);
+        m_finish = first;
         return end();
     }
 
-- 
2.43.0


From b5bf7450ababe2336d190aa75a3ceb1d12ab28a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:45 +0000
Subject: [PATCH 04/38] fix: inserting a vector's own element into it read the
 element after it was moved or freed

---
 nestl/implementation/vector.hpp | 104 +++++++++++++++++++++++++++++---
 1 file changed, 95 insertions(+), 9 deletions(-)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index af9e716..60431ba 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -6,6 +6,7 @@
 #include <nestl/allocator.hpp>
 #include <nestl/allocator_traits.hpp>
 #include <nestl/algorithm.hpp>
+#include <nestl/alignment.hpp>
 #include <nestl/class_operations.hpp>
 
 #include <nestl/detail/destroy.hpp>
@@ -199,6 +200,11 @@ private:
     template <typename OperationError, typename ... Args>
     void do_resize(OperationError& err, size_type count, Args&& ... args) NESTL_NOEXCEPT_SPEC;
 
+    template <typename OperationError, typename ... Args>
+    iterator insert_value_realloc(OperationError& err, iterator pos, Args&& ... args) NESTL_NOEXCEPT_SPEC;
+
+    size_type next_capacity(size_type requiredCapacity) const NESTL_NOEXCEPT_SPEC;
+
     template <typename OperationError>
     void grow(OperationError& err, size_type requiredCapacity) NESTL_NOEXCEPT_SPEC;
 
@@ -706,16 +712,35 @@ vector<T, A>::insert_value(OperationError& err, const_iterator pos, Args&& ... a
 
     if (capacity() == size())
     {
-        grow(err, capacity() + 1);
+        return insert_value_realloc(err, m_start + offset, std::forward<Args>(args) ...);
+    }
+    assert(capacity() > size());
+
+    value_type* last = m_finish;
+    value_type* first = m_start + offset;
+    if (first == last)
+    {
+        nestl::class_operations::construct(err, first, std::forward<Args>(args) ...);
         if (err)
         {
             return end();
         }
+
+        ++m_finish;
+        return first;
     }
-    assert(capacity() > size());
 
-    value_type* last = m_finish;
-    value_type* first = m_start + offset;
+    /// args may refer to the elements which we are going to shift
+    nestl::aligned_buffer<value_type> buffer;
+    value_type* value = buffer.ptr();
+    nestl::class_operations::construct(err, value, std::forward<Args>(args) ...);
+    if (err)
+    {
+        return end();
+    }
+    value_type* valueEnd = value + 1;
+    nestl::detail::destruction_scoped_guard<value_type*> valueGuard(value, valueEnd);
+
     for (value_type* val = last; val != first; --val)
     {
         value_type* oldLocation = val - 1;
@@ -731,7 +756,7 @@ vector<T, A>::insert_value(OperationError& err, const_iterator pos, Args&& ... a
     }
 
 
-	nestl::class_operations::construct(err, first, std::forward<Args>(args) ...);
+	nestl::class_operations::construct(err, first, std::move(*value));
     if (err)
     {
         nestl::detail::destroy(first + 1, last + 1);
@@ -743,6 +768,60 @@ vector<T, A>::insert_value(OperationError& err, const_iterator pos, Args&& ... a
     return first;
 }
 
+template <typename T, typename A>
+template <typename OperationError, typename ... Args>
+typename vector<T, A>::iterator
+vector<T, A>::insert_value_realloc(OperationError& err, iterator pos, Args&& ... args) NESTL_NOEXCEPT_SPEC
+{
+    const size_type newCapacity = next_capacity(capacity() + 1);
+    if (newCapacity > max_size())
+    {
+        build_length_error(err);
+        return end();
+    }
+
+    pointer ptr = allocator_traits<allocator_type>::allocate(err, m_allocator, newCapacity);
+    if (err)
+    {
+        return end();
+    }
+    nestl::detail::deallocation_scoped_guard<value_type*, allocator_type> guard(m_allocator, ptr, newCapacity);
+
+    pointer res = nestl::detail::uninitialised_copy(err, m_start, pos, ptr);
+    if (err)
+    {
+        return end();
+    }
+    pointer constructedEnd = res;
+    nestl::detail::destruction_scoped_guard<pointer> constructedGuard(ptr, constructedEnd);
+
+    /// args may refer to our own elements, which are still alive here
+    nestl::class_operations::construct(err, res, std::forward<Args>(args) ...);
+    if (err)
+    {
+        return end();
+    }
+    ++constructedEnd;
+
+    pointer newFinish = nestl::detail::uninitialised_copy(err, pos, m_finish, constructedEnd);
+    if (err)
+    {
+        return end();
+    }
+
+    constructedGuard.release();
+    guard.release();
+
+    nestl::detail::destroy(m_start, m_finish);
+    m_allocator.deallocate(m_start, m_end_of_storage - m_start);
+
+    m_start = ptr;
+    m_finish = newFinish;
+    m_end_of_storage = ptr + newCapacity;
+
+    return res;
+}
+
 template <typename T, typename A>
 template <typename OperationError, typename InputIterator>
 typename vector<T, A>::iterator
@@ -799,9 +878,8 @@ vector<T, A>::do_resize(OperationError& err, size_type count, Args&& ... args) N
 }
 
 template <typename T, typename A>
-template <typename OperationError>
-void
-vector<T, A>::grow(OperationError& err, size_type requiredCapacity) NESTL_NOEXCEPT_SPEC
+typename vector<T, A>::size_type
+vector<T, A>::next_capacity(size_type requiredCapacity) const NESTL_NOEXCEPT_SPEC
 {
     size_t newCapacity = (((capacity() + 1) * 3) / 2);
     if (newCapacity < requiredCapacity)
@@ -812,7 +890,15 @@ vector<T, A>::grow(OperationError& err, size_type requiredCapacity) NESTL_NOEXCE
     /// @bug overflow error
     assert(newCapacity > capacity());
 
-    reserve_nothrow(err, newCapacity);
+    return newCapacity;
+}
+
+template <typename T, typename A>
+template <typename OperationError>
+void
+vector<T, A>::grow(OperationError& err, size_type requiredCapacity) NESTL_NOEXCEPT_SPEC
+{
+    reserve_nothrow(err, next_capacity(requiredCapacity));
 }
 
 template <typename T, typename A>
-- 
2.43.0


From f61d26a8f854efe19228db22f983d8f5183bd166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:48 +0000
Subject: [PATCH 05/38] fix: allocator::allocate wrapped the byte count of a
 huge request

---
 nestl/allocator.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nestl/allocator.hpp b/nestl/allocator.hpp
index f225311..849c377 100644
--- a/nestl/allocator.hpp
+++ b/nestl/allocator.hpp
@@ -51,6 +51,12 @@ public:
     template<typename OperationError>
     pointer allocate(OperationError& err, size_type n, const void* /* hint */ = 0) NESTL_NOEXCEPT_SPEC
     {
+        if (n > std::numeric_limits<size_type>::max() / sizeof(value_type))
+        {
+            build_bad_alloc(err);
+            return nullptr;
+        }
+
         pointer res = static_cast<pointer>(::operator new(n * sizeof(value_type), std::nothrow));
         if (res == nullptr)
         {
-- 
2.43.0


From 9ff3e31676a138373327539db8e142090e29d4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:53 +0000
Subject: [PATCH 06/38] fix: vector::max_size ignored the element size, so
 impossible sizes were not reported as length errors

---
 nestl/implementation/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index 60431ba..6548bae 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -513,7 +513,7 @@ template <typename T, typename A>
 typename vector<T, A>::size_type
 vector<T, A>::max_size() const NESTL_NOEXCEPT_SPEC
 {
-    return std::numeric_limits<size_type>::max();
+    return std::numeric_limits<difference_type>::max() / sizeof(value_type);
 }
 
 template <typename T, typename A>
-- 
2.43.0


From ef8249404525ea9794900d938ba05d0783d85d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:57 +0000
Subject: [PATCH 07/38] fix: two-phase initialization of a vector was not found
 (vectors could not be nested)

---
 nestl/implementation/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index 6548bae..a90fa63 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -220,7 +220,7 @@ struct two_phase_initializator<nestl::impl::vector<T, Allocator>>
     typedef nestl::impl::vector<T, Allocator> vector_t;
 
     template <typename OperationError>
-    static void construct(OperationError& err, vector_t& defaultConstructed, const vector_t& other) NESTL_NOEXCEPT_SPEC
+    static void init(OperationError& err, vector_t& defaultConstructed, const vector_t& other) NESTL_NOEXCEPT_SPEC
     {
         defaultConstructed.copy_nothrow(err, other);
     }
-- 
2.43.0


From 1783149e209df863942ed4860ecda6aeb63f3bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:00 +0000
Subject: [PATCH 08/38] fix: assigning to a vector replaced its allocator by a
 default one

---
 nestl/implementation/vector.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index a90fa63..809178e 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -317,7 +317,11 @@ template <typename OperationError>
 void
 vector<T, A>::assign_nothrow(OperationError& err, size_type n, const_reference val) NESTL_NOEXCEPT_SPEC
 {
-    vector tmp; tmp.swap(*this);
+    /// arguments may refer to the old content, so release it at exit
+    pointer oldFinish = m_finish;
+    nestl::detail::deallocation_scoped_guard<value_type*, allocator_type> oldStorageGuard(m_allocator, m_start, capacity());
+    nestl::detail::destruction_scoped_guard<pointer> oldContentGuard(m_start, oldFinish);
+    m_start = m_finish = m_end_of_storage = 0;
 
     assert(empty());
 
@@ -343,7 +347,11 @@ template <typename OperationError, typename InputIterator>
 void
 vector<T, A>::assign_nothrow(OperationError& err, InputIterator first, InputIterator last) NESTL_NOEXCEPT_SPEC
 {
-    vector tmp; tmp.swap(*this);
+    /// arguments may refer to the old content, so release it at exit
+    pointer oldFinish = m_finish;
+    nestl::detail::deallocation_scoped_guard<value_type*, allocator_type> oldStorageGuard(m_allocator, m_start, capacity());
+    nestl::detail::destruction_scoped_guard<pointer> oldContentGuard(m_start, oldFinish);
+    m_start = m_finish = m_end_of_storage = 0;
 
     assign_iterator(err, typename std::iterator_traits<InputIterator>::iterator_category(), first, last);
 }
-- 
2.43.0


From d4eb3c82b647683087664f960c52accfc5be8fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:03 +0000
Subject: [PATCH 09/38] fix: move assignment of a vector took the memory but
 not the allocator it came from

---
 nestl/implementation/vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index 809178e..26dbd61 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -663,6 +663,7 @@ void vector<T, A>::move_assign(const std::true_type& /* true_val */, vector&& ot
 	const vector destroyContentAtExit(std::move(*this));
 
     this->swap_data(other);
+    m_allocator = other.m_allocator;
 }
 
 template <typename T, typename A>
-- 
2.43.0


From 710bb87cd9c2a29a88f69094fe092b24e44b39e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:07 +0000
Subject: [PATCH 10/38] fix: assigning to a list returned its old nodes to a
 default constructed allocator

---
 nestl/implementation/list.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index e66632b..665642a 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -716,7 +716,7 @@ template <typename OperationError>
 void
 list<T, A>::assign_nothrow(OperationError& err, size_type n, const_reference val) NESTL_NOEXCEPT_SPEC
 {
-    list tmp; tmp.swap(*this);
+    list tmp(get_allocator()); tmp.swap(*this);
 
     while (n > 0)
     {
@@ -736,7 +736,7 @@ template <typename OperationError, typename InputIterator>
 void
 list<T, A>::assign_nothrow(OperationError& err, InputIterator first, InputIterator last) NESTL_NOEXCEPT_SPEC
 {
-    list tmp; tmp.swap(*this);
+    list tmp(get_allocator()); tmp.swap(*this);
 
     while (first != last)
     {
-- 
2.43.0


From 49c580bb21123c97d6f3fba0199ef113424946d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:12 +0000
Subject: [PATCH 11/38] fix: move assignment of a list did not compile and did
 not take over the allocator

---
 nestl/has_exceptions/list.hpp | 3 ++-
 nestl/implementation/list.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/nestl/has_exceptions/list.hpp b/nestl/has_exceptions/list.hpp
index 71bb59e..91da4f0 100644
--- a/nestl/has_exceptions/list.hpp
+++ b/nestl/has_exceptions/list.hpp
@@ -43,7 +43,8 @@ public:
 
     list& operator=(list&& other) NESTL_NOEXCEPT_SPEC
     {
-        return base_t::operator=(other);
+        base_t::operator=(std::move(other));
+        return *this;
     }
 
     list(const list& other)
diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index 665642a..56178f1 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -698,7 +698,7 @@ typename list<T, A>::allocator_type list<T, A>::get_allocator() const NESTL_NOEX
 template <typename T, typename A>
 list<T, A>& list<T, A>::operator=(list&& other) NESTL_NOEXCEPT_SPEC
 {
-    this->move_assign(typename nestl::allocator_traits<node_allocator_type>::propagate_on_container_move_assignment(), other);
+    this->move_assign(typename nestl::allocator_traits<node_allocator_type>::propagate_on_container_move_assignment(), std::move(other));
 
     return *this;
 }
@@ -1265,6 +1265,7 @@ list<T, A>::move_assign(const std::true_type& /* true_val */, list&& other) NEST
 {
     const list tmp(std::move(*this));
     this->swap_data(other);
+    m_node_allocator = other.m_node_allocator;
 }
 
 template <typename T, typename A>
-- 
2.43.0


From 122e1ddf33ff1bc6e1147190ff02a3d95b34ddc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:17 +0000
Subject: [PATCH 12/38] fix: swapping lists exchanged nodes but not the
 allocators which own them

---
 nestl/implementation/list.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index 56178f1..e782b20 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -1061,6 +1061,7 @@ template <typename T, typename A>
 void
 list<T, A>::swap(list& other) NESTL_NOEXCEPT_SPEC
 {
+    std::swap(m_node_allocator, other.m_node_allocator);
     swap_data(other);
 }
 
@@ -1205,10 +1206,10 @@ list<T, A>::sort(Compare comp) NESTL_NOEXCEPT_SPEC
             for(counter = &tmp[0]; counter != fill && !counter->empty(); ++counter)
             {
                 counter->merge(carry, comp);
-                carry.swap(*counter);
+                carry.swap_data(*counter);
             }
 
-            carry.swap(*counter);
+            carry.swap_data(*counter);
             if (counter == fill)
             {
                 ++fill;
@@ -1220,7 +1221,7 @@ list<T, A>::sort(Compare comp) NESTL_NOEXCEPT_SPEC
         {
             counter->merge(*(counter - 1), comp);
         }
-        swap( *(fill - 1) );
+        swap_data( *(fill - 1) );
     }
 }
 
-- 
2.43.0


From 321d239e727c9dc4decf3707993597c53c4b6106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:23 +0000
Subject: [PATCH 13/38] fix: copy construction of a list dropped the allocator
 of the source

---
 nestl/has_exceptions/list.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nestl/has_exceptions/list.hpp b/nestl/has_exceptions/list.hpp
index 91da4f0..4ba8469 100644
--- a/nestl/has_exceptions/list.hpp
+++ b/nestl/has_exceptions/list.hpp
@@ -48,6 +48,7 @@ public:
     }
 
     list(const list& other)
+        : base_t(other.get_allocator())
     {
         default_operation_error err;
         this->copy_nothrow(err, other);
-- 
2.43.0


From da5caf1ffdf15e674dbf4998109114bcef53f106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:27 +0000
Subject: [PATCH 14/38] fix: erasing a range of a list did not compile

---
 nestl/implementation/list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index e782b20..1533e1c 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -991,7 +991,7 @@ list<T, A>::erase(const_iterator first, const_iterator last) NESTL_NOEXCEPT_SPEC
         first = erase(first);
     }
 
-    return last.get_list_node();
+    return iterator(last.get_list_node());
 }
 
 template <typename T, typename A>
-- 
2.43.0


From 3266b3087ea4fbd6dbfd5d59cd6f3f4ba6657bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:32 +0000
Subject: [PATCH 15/38] fix: inserting a range into a list reversed it

---
 nestl/implementation/list.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index 1533e1c..a3cf2ce 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -943,6 +943,7 @@ list<T, A>::insert_nothrow(OperationError& err, const_iterator pos, InputIterato
         {
             return;
         }
+        ++pos;
 
         ++first;
     }
-- 
2.43.0


From 74dc0287cf75eadd665f571fc6f69b8382e26115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:38 +0000
Subject: [PATCH 16/38] fix: splicing a range of a list right before its own
 end corrupted the list

---
 nestl/implementation/list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index a3cf2ce..8c79733 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -1171,7 +1171,7 @@ template <typename T, typename A>
 void
 list<T, A>::splice(const_iterator pos, list&& /* other */, const_iterator first, const_iterator last) NESTL_NOEXCEPT_SPEC
 {
-    if (first != last)
+    if ((first != last) && (pos != last))
     {
         this->transfer(pos, first, last);
     }
-- 
2.43.0


From a13d7f813f644f242ab3b3f2a979bd9fc6b936bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:43 +0000
Subject: [PATCH 17/38] fix: copying a list to itself never ended

---
 nestl/implementation/list.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index 8c79733..c87bf90 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -708,7 +708,10 @@ template <typename OperationError>
 void
 list<T, A>::copy_nothrow(OperationError& err, const list& other) NESTL_NOEXCEPT_SPEC
 {
-    assign_nothrow(err, other.cbegin(), other.cend());
+    if (this != &other)
+    {
+        assign_nothrow(err, other.cbegin(), other.cend());
+    }
 }
 
 template <typename T, typename A>
-- 
2.43.0


From 274b085ec6344bb99d66d3a21f5e1c684bc1bf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:40 +0000
Subject: [PATCH 18/38] fix: resizing a vector within its capacity reallocated
 its storage

---
 nestl/implementation/vector.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index 26dbd61..0eb08fa 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -868,10 +868,13 @@ vector<T, A>::do_resize(OperationError& err, size_type count, Args&& ... args) N
     }
     else
     {
-        grow(err, count);
-        if (err)
+        if (count > capacity())
         {
-            return;
+            grow(err, count);
+            if (err)
+            {
+                return;
+            }
         }
 
         while (m_finish < m_start + count)
-- 
2.43.0


From f2756e02f4adc897202be37a2b982f3e3d4ac654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:44 +0000
Subject: [PATCH 19/38] fix: growing a vector filled with its own element read
 the element after it was freed

---
 nestl/implementation/vector.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index 0eb08fa..4d8420a 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -637,6 +637,23 @@ template <typename OperationError>
 void
 vector<T, A>::resize_nothrow(OperationError& err, size_type count, const value_type& value) NESTL_NOEXCEPT_SPEC
 {
+    if (count > capacity())
+    {
+        /// value may refer to our own element, which does not survive reallocation
+        nestl::aligned_buffer<value_type> buffer;
+        value_type* copy = buffer.ptr();
+        nestl::class_operations::construct(err, copy, value);
+        if (err)
+        {
+            return;
+        }
+        value_type* copyEnd = copy + 1;
+        nestl::detail::destruction_scoped_guard<value_type*> copyGuard(copy, copyEnd);
+
+        do_resize(err, count, static_cast<const value_type&>(*copy));
+        return;
+    }
+
     do_resize(err, count, value);
 }
 
-- 
2.43.0


From 976cb0201d55870b7ad7a3cd2634a73ab6957139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:48 +0000
Subject: [PATCH 20/38] fix: set::copy_nothrow did not compile (missing
 propagate_on_container_copy_assignment)

---
 nestl/allocator_traits.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nestl/allocator_traits.hpp b/nestl/allocator_traits.hpp
index a0bff5e..6a6f841 100644
--- a/nestl/allocator_traits.hpp
+++ b/nestl/allocator_traits.hpp
@@ -26,6 +26,9 @@ struct allocator_traits
 	NESTL_SELECT_NESTED_TYPE(Allocator, propagate_on_container_move_assignment, std::false_type);
     typedef nestl_nested_type_propagate_on_container_move_assignment propagate_on_container_move_assignment;
 
+	NESTL_SELECT_NESTED_TYPE(Allocator, propagate_on_container_copy_assignment, std::false_type);
+    typedef nestl_nested_type_propagate_on_container_copy_assignment propagate_on_container_copy_assignment;
+
 	NESTL_SELECT_NESTED_TYPE(Allocator, size_type, std::size_t);
     typedef nestl_nested_type_size_type               size_type;
 
-- 
2.43.0


From 95ff4ead5db6f216af7c8400fc9a3e7b653d31d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:53 +0000
Subject: [PATCH 21/38] fix: nothrow assignment of scalars was not recognised,
 so algorithms did not compile without exceptions

---
 nestl/has_exceptions/detail/class_operations.hpp | 4 ++--
 nestl/no_exceptions/detail/class_operations.hpp  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/nestl/has_exceptions/detail/class_operations.hpp b/nestl/has_exceptions/detail/class_operations.hpp
index d64da3f..fe7b017 100644
--- a/nestl/has_exceptions/detail/class_operations.hpp
+++ b/nestl/has_exceptions/detail/class_operations.hpp
@@ -43,7 +43,7 @@ struct class_operations_helper
 
     template <typename T, typename OperationError, typename Y>
     static
-        typename std::enable_if<std::is_nothrow_assignable<T, Y>::value>::type
+        typename std::enable_if<std::is_nothrow_assignable<T&, Y>::value>::type
         assign(OperationError& /* err */, T& dest, Y&& src) NESTL_NOEXCEPT_SPEC
     {
         dest = std::forward<Y>(src);
@@ -51,7 +51,7 @@ struct class_operations_helper
 
     template <typename T, typename OperationError, typename Y>
     static
-    typename std::enable_if<!std::is_nothrow_assignable<T, Y>::value>::type
+    typename std::enable_if<!std::is_nothrow_assignable<T&, Y>::value>::type
     assign(OperationError& err, T& dest, Y&& src) NESTL_NOEXCEPT_SPEC
     {
         try
diff --git a/nestl/no_exceptions/detail/class_operations.hpp b/nestl/no_exceptions/detail/class_operations.hpp
index 5189649..b3165e7 100644
--- a/nestl/no_exceptions/detail/class_operations.hpp
+++ b/nestl/no_exceptions/detail/class_operations.hpp
@@ -27,7 +27,7 @@ struct class_operations_helper
 
     template <typename T, typename OperationError, typename Y>
     static
-    typename std::enable_if<std::is_nothrow_assignable<T, Y>::value>::type
+    typename std::enable_if<std::is_nothrow_assignable<T&, Y>::value>::type
     assign(OperationError& /* err */, T& dest, Y&& src) NESTL_NOEXCEPT_SPEC
     {
         dest = std::forward<Y>(src);
-- 
2.43.0


From a7c3490e3a496a1bb0150a35aac08815af69683b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:58 +0000
Subject: [PATCH 22/38] fix: move assignment of a set did not compile

---
 .../implementation/detail/red_black_tree.hpp  | 24 +++++++------------
 nestl/implementation/set.hpp                  | 12 ++--------
 2 files changed, 11 insertions(+), 25 deletions(-)

diff --git a/nestl/implementation/detail/red_black_tree.hpp b/nestl/implementation/detail/red_black_tree.hpp
index d5128a7..788c74c 100644
--- a/nestl/implementation/detail/red_black_tree.hpp
+++ b/nestl/implementation/detail/red_black_tree.hpp
@@ -1265,8 +1265,9 @@ public:
     bool
     __rb_verify() const NESTL_NOEXCEPT_SPEC;
 
-    bool
-    m_move_assign(rb_tree& other) NESTL_NOEXCEPT_SPEC;
+    // Move elements together with allocator which owns them
+    void
+    m_move_assign(rb_tree& other, std::true_type) NESTL_NOEXCEPT_SPEC;
 
 private:
     // Move elements from container with equal allocator.
@@ -1381,24 +1382,17 @@ rb_tree<Key, Val, KeyOfValue, Compare, Alloc>::m_move_data(rb_tree& x, std::fals
 }
 
 template<typename Key, typename Val, typename KeyOfValue, typename Compare, typename Alloc>
-bool
-rb_tree<Key, Val, KeyOfValue, Compare, Alloc>::m_move_assign(rb_tree& x) NESTL_NOEXCEPT_SPEC
+void
+rb_tree<Key, Val, KeyOfValue, Compare, Alloc>::m_move_assign(rb_tree& x, std::true_type) NESTL_NOEXCEPT_SPEC
 {
+    clear();
     m_impl.m_key_compare = x.m_impl.m_key_compare;
 
-    if (node_allocator_traits::_S_propagate_on_move_assign()
-        || node_allocator_traits::_S_always_equal()
-        || m_get_node_allocator() == x.m_get_node_allocator())
+    if (x.m_root() != 0)
     {
-        clear();
-        if (x.m_root() != 0)
-        {
-            m_move_data(x, std::true_type());
-        }
-        nestl::detail::alloc_on_move(m_get_node_allocator(), x.m_get_node_allocator());
-        return true;
+        m_move_data(x, std::true_type());
     }
-    return false;
+    m_get_node_allocator() = x.m_get_node_allocator();
 }
 
 
diff --git a/nestl/implementation/set.hpp b/nestl/implementation/set.hpp
index 7e5667f..115ac44 100644
--- a/nestl/implementation/set.hpp
+++ b/nestl/implementation/set.hpp
@@ -171,16 +171,8 @@ template <typename T, typename C, typename A>
 set<T, C, A>&
 set<T, C, A>::operator=(set&& other) NESTL_NOEXCEPT_SPEC
 {
-    if (!m_impl.m_move_assign(other.m_impl))
-    {
-        // The rvalue's allocator cannot be moved and is not equal,
-        // so we need to individually move each element.
-        clear();
-        insert(std::make_move_iterator(other.m_impl.begin()),
-               std::make_move_iterator(other.m_impl.end()));
-        other.clear();
-      }
-        return *this;
+    m_impl.m_move_assign(other.m_impl, typename nestl::allocator_traits<allocator_type>::propagate_on_container_move_assignment());
+    return *this;
 }
 
 template <typename T, typename C, typename A>
-- 
2.43.0


From af77db410b61bad3f4ec2b6b2d4238558bad696b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:02 +0000
Subject: [PATCH 23/38] fix: set::crbegin and set::crend did not compile

---
 nestl/implementation/set.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nestl/implementation/set.hpp b/nestl/implementation/set.hpp
index 115ac44..f31f0fc 100644
--- a/nestl/implementation/set.hpp
+++ b/nestl/implementation/set.hpp
@@ -245,7 +245,7 @@ template <typename T, typename C, typename A>
 typename set<T, C, A>::const_reverse_iterator
 set<T, C, A>::crbegin() const NESTL_NOEXCEPT_SPEC
 {
-    return m_impl.crbegin();
+    return m_impl.rbegin();
 }
 
 template <typename T, typename C, typename A>
@@ -266,7 +266,7 @@ template <typename T, typename C, typename A>
 typename set<T, C, A>::const_reverse_iterator
 set<T, C, A>::crend() const NESTL_NOEXCEPT_SPEC
 {
-    return m_impl.crend();
+    return m_impl.rend();
 }
 
 
-- 
2.43.0


From 9e867b87c9bf6cf45a1c8a239ab3e69dbe58db17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:06 +0000
Subject: [PATCH 24/38] fix: max_size of list and set did not compile

---
 nestl/allocator_traits.hpp    | 9 +++++++++
 nestl/implementation/list.hpp | 2 +-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/nestl/allocator_traits.hpp b/nestl/allocator_traits.hpp
index 6a6f841..3c067e1 100644
--- a/nestl/allocator_traits.hpp
+++ b/nestl/allocator_traits.hpp
@@ -4,6 +4,7 @@
 #include <nestl/config.hpp>
 #include <nestl/detail/select_type.hpp>
 
+#include <cstddef>
 #include <type_traits>
 #include <limits>
 #include <utility>
@@ -50,6 +51,14 @@ struct allocator_traits
     {
         alloc.deallocate(ptr, n);
     }
+
+    /**
+     * @return Maximum number of objects which may be allocated in one call
+     */
+    static size_type max_size(const Allocator& /* alloc */) NESTL_NOEXCEPT_SPEC
+    {
+        return std::numeric_limits<std::ptrdiff_t>::max() / sizeof(value_type);
+    }
 };
 
 } // namespace nestl
diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index c87bf90..373f863 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -889,7 +889,7 @@ template <typename T, typename A>
 typename list<T, A>::size_type
 list<T, A>::max_size() const NESTL_NOEXCEPT_SPEC
 {
-    return m_node_allocator.max_size();
+    return nestl::allocator_traits<node_allocator_type>::max_size(m_node_allocator);
 }
 
 
-- 
2.43.0


From 2c50e5099d40227fc1bcda87528e8dec6036afad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:18 +0000
Subject: [PATCH 25/38] fix: headers did not compile with clang and
 -fno-exceptions

---
 nestl/has_exceptions/detail/class_operations.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nestl/has_exceptions/detail/class_operations.hpp b/nestl/has_exceptions/detail/class_operations.hpp
index fe7b017..aaca7ed 100644
--- a/nestl/has_exceptions/detail/class_operations.hpp
+++ b/nestl/has_exceptions/detail/class_operations.hpp
@@ -24,6 +24,7 @@ struct class_operations_helper
         ::new(static_cast<void*>(ptr)) T(std::forward<Args>(args)...);
     }
 
+#if NESTL_HAS_EXCEPTIONS
     template <typename T, typename OperationError, typename ... Args>
     static
     typename std::enable_if<!std::is_nothrow_constructible<T, Args...>::value>::type
@@ -38,6 +39,7 @@ struct class_operations_helper
             from_exception_ptr(err, std::current_exception());
         }
     }
+#endif /* NESTL_HAS_EXCEPTIONS */
 
 
 
@@ -49,6 +51,7 @@ struct class_operations_helper
         dest = std::forward<Y>(src);
     }
 
+#if NESTL_HAS_EXCEPTIONS
     template <typename T, typename OperationError, typename Y>
     static
     typename std::enable_if<!std::is_nothrow_assignable<T&, Y>::value>::type
@@ -63,6 +66,7 @@ struct class_operations_helper
             from_exception_ptr(err, std::current_exception());
         }
     }
+#endif /* NESTL_HAS_EXCEPTIONS */
 };
 
 } // namespace detail
-- 
2.43.0


From a7786ed52624642e40307f44cd0bcd77c2fb36bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:18 +0000
Subject: [PATCH 26/38] fix: locking an expired weak_ptr returned a pointer to
 the destroyed object

---
 nestl/implementation/shared_ptr.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nestl/implementation/shared_ptr.hpp b/nestl/implementation/shared_ptr.hpp
index 3d9e9a6..3a62de7 100644
--- a/nestl/implementation/shared_ptr.hpp
+++ b/nestl/implementation/shared_ptr.hpp
@@ -332,6 +332,11 @@ public:
 
     shared_ptr<T> lock()
     {
+        if (expired())
+        {
+            return shared_ptr<T>();
+        }
+
         return shared_ptr<T>(m_ptr, m_refcount);
     }
 
-- 
2.43.0


From d3947f958f4aa02f9c820ebefcb31a49d9adac9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:24 +0000
Subject: [PATCH 27/38] fix: move assignment of a weak_ptr left the source
 sharing the count, which was then released twice

---
 nestl/implementation/shared_ptr.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nestl/implementation/shared_ptr.hpp b/nestl/implementation/shared_ptr.hpp
index 3a62de7..6c7ea5b 100644
--- a/nestl/implementation/shared_ptr.hpp
+++ b/nestl/implementation/shared_ptr.hpp
@@ -312,6 +312,9 @@ public:
         m_ptr = other.m_ptr;
         m_refcount = other.m_refcount;
 
+        other.m_ptr = 0;
+        other.m_refcount = 0;
+
         return *this;
     }
 
-- 
2.43.0


From 7512238f71d6e9f9af014a2bc246583b1ae56cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:28 +0000
Subject: [PATCH 28/38] fix: self assignment of an expired weak_ptr used the
 count after freeing it

---
 nestl/implementation/shared_ptr.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/nestl/implementation/shared_ptr.hpp b/nestl/implementation/shared_ptr.hpp
index 6c7ea5b..7fbbe65 100644
--- a/nestl/implementation/shared_ptr.hpp
+++ b/nestl/implementation/shared_ptr.hpp
@@ -290,6 +290,11 @@ public:
 
     weak_ptr& operator=(const weak_ptr& other) NESTL_NOEXCEPT_SPEC
     {
+        if (other.m_refcount)
+        {
+            other.m_refcount->weak_add_ref();
+        }
+
         if (m_refcount)
         {
             m_refcount->weak_release();
@@ -297,10 +302,6 @@ public:
 
         m_ptr = other.m_ptr;
         m_refcount = other.m_refcount;
-        if (m_refcount)
-        {
-            m_refcount->weak_add_ref();
-        }
 
         return *this;
     }
-- 
2.43.0


From 55789c6ba9bfe104b2db280a3faf6bc9d74ac933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:32 +0000
Subject: [PATCH 29/38] fix: move assignment of a shared_ptr read its source
 after destroying the old value which may own the source

---
 nestl/implementation/shared_ptr.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/nestl/implementation/shared_ptr.hpp b/nestl/implementation/shared_ptr.hpp
index 7fbbe65..28487ea 100644
--- a/nestl/implementation/shared_ptr.hpp
+++ b/nestl/implementation/shared_ptr.hpp
@@ -450,16 +450,18 @@ template <typename T>
 template <typename Y>
 shared_ptr<T>& shared_ptr<T>::operator=(shared_ptr<Y>&& other) NESTL_NOEXCEPT_SPEC
 {
-    {
-        const shared_ptr tmp(std::move(*this));
-    }
-    
-    m_ptr = other.m_ptr;
+    /// other may be owned by the object which is released by this assignment
+    element_type* ptr = other.m_ptr;
     other.m_ptr = nullptr;
 
-    m_refcount = other.m_refcount;
+    shared_count_base* refcount = other.m_refcount;
     other.m_refcount = nullptr;
 
+    const shared_ptr tmp(std::move(*this));
+
+    m_ptr = ptr;
+    m_refcount = refcount;
+
     return *this;
 }
 
-- 
2.43.0


From 08bf341695fda05320271d51aa7e2c8a39b0a09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:37 +0000
Subject: [PATCH 30/38] fix: an object holding the last weak_ptr to itself
 freed its count twice

---
 nestl/implementation/shared_ptr.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/nestl/implementation/shared_ptr.hpp b/nestl/implementation/shared_ptr.hpp
index 28487ea..94b894c 100644
--- a/nestl/implementation/shared_ptr.hpp
+++ b/nestl/implementation/shared_ptr.hpp
@@ -50,11 +50,10 @@ public:
         --m_use_count;
         if (m_use_count == 0)
         {
+            /// value may hold the last weak pointer to itself
+            weak_add_ref();
             destroy_value();
-            if (m_weak_use_count == 0)
-            {
-                destroy_self();
-            }
+            weak_release();
         }
     }
 
-- 
2.43.0


From 10aee30f74bfc8fb174964e9ee92261def2b9dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:40 +0000
Subject: [PATCH 31/38] fix: make_shared_a_nothrow ignored the given allocator

---
 nestl/implementation/shared_ptr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nestl/implementation/shared_ptr.hpp b/nestl/implementation/shared_ptr.hpp
index 94b894c..faa4598 100644
--- a/nestl/implementation/shared_ptr.hpp
+++ b/nestl/implementation/shared_ptr.hpp
@@ -511,12 +511,12 @@ bool shared_ptr<T>::unique() const NESTL_NOEXCEPT_SPEC
 }
 
 template <typename T, typename OperationError, typename Allocator, typename ... Args>
-shared_ptr<T> make_shared_a_nothrow(OperationError& err, Allocator& /* alloc */, Args&& ... args)
+shared_ptr<T> make_shared_a_nothrow(OperationError& err, Allocator& alloc, Args&& ... args)
 {
     static_assert(sizeof(T), "T must be complete type");
     typedef type_stored_by_value<T, Allocator> shared_count_t;
     typedef typename shared_count_t::allocator_type SharedCountAllocator;
-    SharedCountAllocator sharedCountAlloc;
+    SharedCountAllocator sharedCountAlloc(alloc);
 
     shared_count_t* ptr = allocator_traits<SharedCountAllocator>::allocate(err, sharedCountAlloc, 1);
     if (err)
-- 
2.43.0


From 1e68e8391d40cfd4076df35c156494f7bd014fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:44 +0000
Subject: [PATCH 32/38] fix: make_shared_a_nothrow did not destroy the count
 when initialization of the value failed

---
 nestl/implementation/shared_ptr.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nestl/implementation/shared_ptr.hpp b/nestl/implementation/shared_ptr.hpp
index faa4598..342c680 100644
--- a/nestl/implementation/shared_ptr.hpp
+++ b/nestl/implementation/shared_ptr.hpp
@@ -531,12 +531,16 @@ shared_ptr<T> make_shared_a_nothrow(OperationError& err, Allocator& alloc, Args&
         return {nullptr};
     }
 
+    shared_count_t* ptrEnd = ptr + 1;
+    nestl::detail::destruction_scoped_guard<shared_count_t*> destructionGuard(ptr, ptrEnd);
+
     ptr->initialize(err, std::forward<Args>(args) ...);
     if (err)
     {
         return {nullptr};
     }
 
+    destructionGuard.release();
     deallocationGuard.release();
     return shared_ptr<T>(ptr->get(), ptr);
 }
-- 
2.43.0


From eccb0ec4a99b46853cc59d8d25c5abd821672c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:07 +0000
Subject: [PATCH 33/38] fix: a throwing vector could not be swapped with or
 copied by copy_nothrow from another one

---
 nestl/has_exceptions/vector.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/nestl/has_exceptions/vector.hpp b/nestl/has_exceptions/vector.hpp
index 8196090..383eba6 100644
--- a/nestl/has_exceptions/vector.hpp
+++ b/nestl/has_exceptions/vector.hpp
@@ -89,6 +89,11 @@ public:
     using base_t::resize_nothrow;
     using base_t::swap;
 
+    template <typename OperationError>
+    void copy_nothrow(OperationError& err, const vector& other) NESTL_NOEXCEPT_SPEC;
+
+    void swap(vector& other) NESTL_NOEXCEPT_SPEC;
+
     void push_back(const value_type& value);
 
     void push_back(value_type&& value);
@@ -185,6 +190,21 @@ vector<T, A>::as_noexcept() const NESTL_NOEXCEPT_SPEC
     return static_cast<as_noexcept_const_reference>(*this);
 }
 
+template <typename T, typename A>
+template <typename OperationError>
+void
+vector<T, A>::copy_nothrow(OperationError& err, const vector& other) NESTL_NOEXCEPT_SPEC
+{
+    base_t::copy_nothrow(err, other.as_noexcept());
+}
+
+template <typename T, typename A>
+void
+vector<T, A>::swap(vector& other) NESTL_NOEXCEPT_SPEC
+{
+    base_t::swap(other.as_noexcept());
+}
+
 template <typename T, typename A>
 void
 vector<T, A>::push_back(const value_type& value)
-- 
2.43.0


From 5e066566da1640213fced10ea3f48a065d72b41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:13 +0000
Subject: [PATCH 34/38] fix: lists could not be swapped or copied by
 copy_nothrow in exception mode

---
 nestl/has_exceptions/list.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/nestl/has_exceptions/list.hpp b/nestl/has_exceptions/list.hpp
index 4ba8469..22f6087 100644
--- a/nestl/has_exceptions/list.hpp
+++ b/nestl/has_exceptions/list.hpp
@@ -102,6 +102,17 @@ public:
     using base_t::unique;
     using base_t::sort;
 
+    template <typename OperationError>
+    void copy_nothrow(OperationError& err, const list& other) NESTL_NOEXCEPT_SPEC
+    {
+        base_t::copy_nothrow(err, other);
+    }
+
+    void swap(list& other) NESTL_NOEXCEPT_SPEC
+    {
+        base_t::swap(other);
+    }
+
     void push_back(const value_type& value)
     {
         default_operation_error err;
-- 
2.43.0


From 7e525418c92e23f2e7c22ef651e6933976e14b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:23 +0000
Subject: [PATCH 35/38] fix: splicing a range of a list right before its own
 beginning corrupted the list

---
 nestl/implementation/list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index 373f863..bba09d0 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -1174,7 +1174,7 @@ template <typename T, typename A>
 void
 list<T, A>::splice(const_iterator pos, list&& /* other */, const_iterator first, const_iterator last) NESTL_NOEXCEPT_SPEC
 {
-    if ((first != last) && (pos != last))
+    if ((first != last) && (pos != first) && (pos != last))
     {
         this->transfer(pos, first, last);
     }
-- 
2.43.0


From 75a9a03438833a1e25769bd1d6068ff42298c16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:18 +0000
Subject: [PATCH 36/38] fix: copy assignment of the throwing vector and list
 replaced the target's allocator by the source's

---
 nestl/has_exceptions/list.hpp   |  8 +++++++-
 nestl/has_exceptions/vector.hpp | 16 ++++++++++++++--
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/nestl/has_exceptions/list.hpp b/nestl/has_exceptions/list.hpp
index 22f6087..b809d20 100644
--- a/nestl/has_exceptions/list.hpp
+++ b/nestl/has_exceptions/list.hpp
@@ -60,7 +60,13 @@ public:
 
     list& operator=(const list& other)
     {
-        list tmp(other);
+        list tmp(this->get_allocator());
+        default_operation_error err;
+        tmp.copy_nothrow(err, other);
+        if (err)
+        {
+            throw_exception(err);
+        }
         this->swap(tmp);
 
         return *this;
diff --git a/nestl/has_exceptions/vector.hpp b/nestl/has_exceptions/vector.hpp
index 383eba6..654c25e 100644
--- a/nestl/has_exceptions/vector.hpp
+++ b/nestl/has_exceptions/vector.hpp
@@ -145,7 +145,13 @@ vector<T, A>::vector(as_noexcept_type&& other) NESTL_NOEXCEPT_SPEC
 template <typename T, typename A>
 vector<T, A>& vector<T, A>::operator=(const vector& other)
 {
-    vector tmp{other};
+    vector tmp(this->get_allocator());
+    default_operation_error err;
+    tmp.copy_nothrow(err, other);
+    if (err)
+    {
+        throw_exception(err);
+    }
     this->swap(tmp);
 
     return *this;
@@ -154,7 +160,13 @@ vector<T, A>& vector<T, A>::operator=(const vector& other)
 template <typename T, typename A>
 vector<T, A>& vector<T, A>::operator=(const as_noexcept_type& other)
 {
-    vector tmp{other};
+    vector tmp(this->get_allocator());
+    default_operation_error err;
+    tmp.copy_nothrow(err, other);
+    if (err)
+    {
+        throw_exception(err);
+    }
     this->swap(tmp);
 
     return *this;
-- 
2.43.0


From b63a877267947ad2f3e5522ffc221da4e8d1ad34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:34 +0000
Subject: [PATCH 37/38] fix: vector ignored the size_type of its allocator, so
 sizes beyond it were wrapped into small allocations

---
 nestl/allocator_traits.hpp      | 5 ++++-
 nestl/implementation/vector.hpp | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/nestl/allocator_traits.hpp b/nestl/allocator_traits.hpp
index 3c067e1..3490be1 100644
--- a/nestl/allocator_traits.hpp
+++ b/nestl/allocator_traits.hpp
@@ -57,7 +57,10 @@ struct allocator_traits
      */
     static size_type max_size(const Allocator& /* alloc */) NESTL_NOEXCEPT_SPEC
     {
-        return std::numeric_limits<std::ptrdiff_t>::max() / sizeof(value_type);
+        /// size_type of allocator may be narrower than std::size_t
+        const std::size_t addressable = std::numeric_limits<std::ptrdiff_t>::max() / sizeof(value_type);
+        const std::size_t countable = std::numeric_limits<size_type>::max();
+        return static_cast<size_type>(addressable < countable ? addressable : countable);
     }
 };
 
diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index 4d8420a..047ace2 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -521,7 +521,7 @@ template <typename T, typename A>
 typename vector<T, A>::size_type
 vector<T, A>::max_size() const NESTL_NOEXCEPT_SPEC
 {
-    return std::numeric_limits<difference_type>::max() / sizeof(value_type);
+    return nestl::allocator_traits<allocator_type>::max_size(m_allocator);
 }
 
 template <typename T, typename A>
-- 
2.43.0


From 80c929a760072559bd7de803b84da2b983aeb292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:34 +0000
Subject: [PATCH 38/38] fix: list and shared_ptr demanded rebind of every
 allocator, set refused allocators with non-type parameters

---
 nestl/detail/allocator_traits_helper.hpp | 7 ++++++-
 nestl/implementation/list.hpp            | 3 ++-
 nestl/implementation/shared_ptr.hpp      | 3 ++-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/nestl/detail/allocator_traits_helper.hpp b/nestl/detail/allocator_traits_helper.hpp
index 8f75b1d..42fd116 100644
--- a/nestl/detail/allocator_traits_helper.hpp
+++ b/nestl/detail/allocator_traits_helper.hpp
@@ -3,6 +3,7 @@
 
 #include <nestl/config.hpp>
 
+#include <nestl/allocator_traits.hpp>
 #include <nestl/class_operations.hpp>
 
 #include <nestl/detail/select_type.hpp>
@@ -25,8 +26,12 @@ struct allocator_rebind_helper
     typedef nestl_nested_type_other other;
 };
 
+/// Allocators which are not class templates with type parameters only should provide rebind
 template <typename Alloc, typename T>
-struct allocator_rebind;
+struct allocator_rebind
+{
+    typedef typename Alloc::template rebind<T>::other other;
+};
 
 
 template <template <typename, typename ...> class Alloc, typename T, typename U, typename ... Args>
diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index bba09d0..b63268b 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -14,6 +14,7 @@
 #include <nestl/algorithm.hpp>
 #include <nestl/alignment.hpp>
 
+#include <nestl/detail/allocator_traits_helper.hpp>
 #include <nestl/detail/destroy.hpp>
 
 #include <cassert>
@@ -596,7 +597,7 @@ public:
 private:
 
     typedef list_node<value_type> node_type;
-    typedef typename allocator_type::template rebind<node_type>::other node_allocator_type;
+    typedef typename nestl::detail::allocator_rebind<allocator_type, node_type>::other node_allocator_type;
 
     node_allocator_type m_node_allocator;
 
diff --git a/nestl/implementation/shared_ptr.hpp b/nestl/implementation/shared_ptr.hpp
index 342c680..4bcc3d9 100644
--- a/nestl/implementation/shared_ptr.hpp
+++ b/nestl/implementation/shared_ptr.hpp
@@ -7,6 +7,7 @@
 #include <nestl/alignment.hpp>
 #include <nestl/class_operations.hpp>
 
+#include <nestl/detail/allocator_traits_helper.hpp>
 #include <nestl/detail/destroy.hpp>
 
 #include <cassert>
@@ -88,7 +89,7 @@ class type_stored_by_value : public shared_count_base
 {
 public:
 
-    typedef typename TypeAllocator:: template rebind<type_stored_by_value>::other allocator_type;
+    typedef typename nestl::detail::allocator_rebind<TypeAllocator, type_stored_by_value>::other allocator_type;
 
     type_stored_by_value(const allocator_type& alloc) NESTL_NOEXCEPT_SPEC
         : shared_count_base()
-- 
2.43.0


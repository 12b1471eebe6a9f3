From 1dd74428f076d623dea1875fbd7eecbcfd1af0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:08 +0000
Subject: [PATCH 01/48] fix: vector::push_back of an element of the same vector

When the vector had to grow, reserve() destroyed the old elements before the
argument was copied, so v.push_back(v[0]) read freed storage.
---
 include/cest/vector.hpp | 39 +++++++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/include/cest/vector.hpp b/include/cest/vector.hpp
index ffea2bb..9d54169 100644
--- a/include/cest/vector.hpp
+++ b/include/cest/vector.hpp
@@ -186,22 +186,22 @@ public:
 
   constexpr void push_back(const value_type &value)
   {
-    if (0 == m_capacity) {
-      reserve(1);
-    } else if (m_capacity == m_size) {
-      reserve(m_capacity * 2);
+    if (m_capacity == m_size) {
+      push_back_grow(value);
+    } else {
+      std::construct_at(&m_p[m_size],value);
+      m_size++;
     }
-    std::construct_at(&m_p[m_size++],value);
   }
 
   constexpr void push_back(value_type &&value)
   {
-    if (0 == m_capacity) {
-      reserve(1);
-    } else if (m_capacity == m_size) {
-      reserve(m_capacity * 2);
+    if (m_capacity == m_size) {
+      push_back_grow(std::forward<T>(value));
+    } else {
+      std::construct_at(&m_p[m_size],std::forward<T>(value));
+      m_size++;
     }
-    std::construct_at(&m_p[m_size++],std::forward<T>(value));
   }
 
   constexpr iterator erase(iterator first, iterator last)
@@ -216,6 +216,25 @@ public:
     return first;
   }
 
+  // The new element is constructed before the old ones are moved and destroyed
+  // as value may refer to an element of this vector.
+  template <class U>
+  constexpr void push_back_grow(U &&value)
+  {
+    const size_type new_cap = 0 == m_capacity ? 1 : m_capacity * 2;
+    value_type *p = m_alloc.allocate(new_cap);
+    std::construct_at(&p[m_size],std::forward<U>(value));
+    for (size_type i = 0; i < m_size; i++)
+      std::construct_at(&p[i], std::move_if_noexcept(m_p[i]));
+    if (0 != m_capacity) {
+      std::destroy_n(m_p,m_size);
+      m_alloc.deallocate(m_p,m_capacity);
+    }
+    m_p = p;
+    m_capacity = new_cap;
+    m_size++;
+  }
+
   size_type       m_size;
   size_type       m_capacity;
   value_type     *m_p;
-- 
2.43.0


From addb2749da26e6d1de7e961ed249a5f7743b68b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:08 +0000
Subject: [PATCH 02/48] fix: vector operations leak or corrupt when an element
 throws

The copy constructor and push_back counted elements before constructing them,
so unwinding destroyed unconstructed ones; the size and initializer_list
constructors, reserve, resize and assignment lost elements and storage.
---
 include/cest/vector.hpp | 53 ++++++++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 16 deletions(-)

diff --git a/include/cest/vector.hpp b/include/cest/vector.hpp
index 9d54169..fb36843 100644
--- a/include/cest/vector.hpp
+++ b/include/cest/vector.hpp
@@ -30,6 +30,9 @@ public:
 
   constexpr vector() : m_size{}, m_capacity{}, m_p{}, m_alloc{} {}
 
+  explicit constexpr vector(const Allocator& alloc)
+    : m_size{}, m_capacity{}, m_p{}, m_alloc(alloc) {}
+
   constexpr void swap(vector& other)
   {
     using std::swap;
@@ -42,9 +45,8 @@ public:
   constexpr vector(const vector& other) : vector()
   {
     reserve(other.capacity());
-    m_size = other.size();
-    for (size_type i = 0; i < m_size; i++)
-      std::construct_at(&m_p[i], other.m_p[i]);
+    for (; m_size < other.size(); m_size++)
+      std::construct_at(&m_p[m_size], other.m_p[m_size]);
   }
 
   constexpr vector(vector&& other) : vector()
@@ -54,17 +56,16 @@ public:
 
   constexpr vector(size_type count,
                    const Allocator& alloc = Allocator())
-    : m_size{}, m_capacity{}, m_p{}, m_alloc(alloc)
+    : vector(alloc)
   {
     reserve(count);
-    m_size = count;
-    for (size_type i = 0; i < m_size; i++)
-      std::construct_at(&m_p[i]);
+    for (; m_size < count; m_size++)
+      std::construct_at(&m_p[m_size]);
   }
 
   constexpr vector(std::initializer_list<T> init,
                    const Allocator& alloc = Allocator())
-    : m_size{}, m_capacity{}, m_p{}, m_alloc(alloc)
+    : vector(alloc)
   {
     for (const auto &x : init) { push_back(x); }
   }
@@ -89,7 +90,7 @@ public:
     if (other.size() >= m_size) {
       for (; i < m_size; i++)
         m_p[i] = other.m_p[i];
-      for (; i < other.size(); i++)
+      for (; i < other.size(); i++, m_size++)
         std::construct_at(&m_p[i], other.m_p[i]);
     } else {
       for (; i < other.size(); i++)
@@ -110,8 +111,7 @@ public:
     if (new_cap > m_capacity)
     {
       value_type *p = m_alloc.allocate(new_cap);
-      for (size_type i = 0; i < m_size; i++)
-        std::construct_at(&p[i], std::move_if_noexcept(m_p[i]));
+      relocate_to(p, new_cap);
       if (0 != m_capacity) {
         std::destroy_n(m_p,m_size);
         m_alloc.deallocate(m_p,m_capacity);
@@ -126,8 +126,8 @@ public:
     if (count > m_size)
     {
       reserve(count);
-      for (size_type i = m_size; i < count; i++)
-        std::construct_at(&m_p[i]);
+      for (; m_size < count; m_size++)
+        std::construct_at(&m_p[m_size]);
     } else if (count < m_size) {
       std::destroy_n(&m_p[count], m_size-count);
     }
@@ -216,6 +216,23 @@ public:
     return first;
   }
 
+  // Move (or copy) the elements to p, which has room for cap elements, the num
+  // after the last of them being constructed already. Upon an exception,
+  // release p with all it holds, leaving this vector as it was.
+  constexpr void relocate_to(value_type *p, size_type cap, size_type num = 0)
+  {
+    size_type i = 0;
+    try {
+      for (; i < m_size; i++)
+        std::construct_at(&p[i], std::move_if_noexcept(m_p[i]));
+    } catch (...) {
+      std::destroy_n(p, i);
+      std::destroy_n(p + m_size, num);
+      m_alloc.deallocate(p, cap);
+      throw;
+    }
+  }
+
   // The new element is constructed before the old ones are moved and destroyed
   // as value may refer to an element of this vector.
   template <class U>
@@ -223,9 +240,13 @@ public:
   {
     const size_type new_cap = 0 == m_capacity ? 1 : m_capacity * 2;
     value_type *p = m_alloc.allocate(new_cap);
-    std::construct_at(&p[m_size],std::forward<U>(value));
-    for (size_type i = 0; i < m_size; i++)
-      std::construct_at(&p[i], std::move_if_noexcept(m_p[i]));
+    try {
+      std::construct_at(&p[m_size],std::forward<U>(value));
+    } catch (...) {
+      m_alloc.deallocate(p,new_cap);
+      throw;
+    }
+    relocate_to(p, new_cap, 1);
     if (0 != m_capacity) {
       std::destroy_n(m_p,m_size);
       m_alloc.deallocate(m_p,m_capacity);
-- 
2.43.0


From 98488bcfbc1f8d907a4a8f66894b760578f3b4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:51 +0000
Subject: [PATCH 03/48] Verification hook: deque chunk size can be set by
 CEST_VERIF_CHUNK_SIZE

---
 include/cest/deque.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/cest/deque.hpp b/include/cest/deque.hpp
index 23edbae..449b0c9 100644
--- a/include/cest/deque.hpp
+++ b/include/cest/deque.hpp
@@ -6,7 +6,11 @@
 #include <algorithm> // std::rotate
 #include <initializer_list>
 
+#ifdef CEST_VERIF_CHUNK_SIZE // verification builds use small chunks
+#define CHUNK_SIZE CEST_VERIF_CHUNK_SIZE
+#else
 #define CHUNK_SIZE 1024
+#endif
 
 namespace cest {
 
-- 
2.43.0


From d08282b8692369487fdf82a5d4cf03c168a6c121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:51 +0000
Subject: [PATCH 04/48] fix: deque::push_back into a later chunk that exists
 already

After a pop_back across a chunk boundary, or a clear of a deque with several
chunks, push_back wrapped to the start of the current chunk, overwriting live
elements, instead of going on in the next one.
---
 include/cest/deque.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cest/deque.hpp b/include/cest/deque.hpp
index 449b0c9..11d79c8 100644
--- a/include/cest/deque.hpp
+++ b/include/cest/deque.hpp
@@ -335,9 +335,9 @@ private:
       {
         value_type *p = m_alloc.allocate(CHUNK_SIZE);
         m_chunks.push_back(p);
-        ++m_back_chunk;
       }
       
+      ++m_back_chunk;
       m_back = 0;
     }
     else
-- 
2.43.0


From 24644e7e3270edc4b74a7b25f8b2c6f116f911da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:51 +0000
Subject: [PATCH 05/48] fix: deque iteration and iterator difference across
 chunks

Iterators moved to the start of the next chunk, while end() stayed past the
end of a full last chunk, so iteration overran; decrement went to the first
element of the previous chunk rather than its last; the difference ignored the
chunk of the second iterator. The end of a full last chunk is now the start of
a spare chunk.
---
 include/cest/deque.hpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/include/cest/deque.hpp b/include/cest/deque.hpp
index 11d79c8..e171ef5 100644
--- a/include/cest/deque.hpp
+++ b/include/cest/deque.hpp
@@ -65,7 +65,7 @@ public:
     constexpr iter&     operator--()                noexcept { // pre-decr
       if (m_p == *m_ppchunk) {
         --m_ppchunk;
-        m_p = *m_ppchunk;
+        m_p = *m_ppchunk + CHUNK_SIZE - 1;
       } else {
         --m_p;
       }
@@ -85,7 +85,7 @@ public:
     constexpr operator-(const iter& __x, const iter& __y) noexcept
     {
       return CHUNK_SIZE
-        * (__x.m_ppchunk - __x.m_ppchunk - 1) + (__x.m_p - *__x.m_ppchunk)
+        * (__x.m_ppchunk - __y.m_ppchunk - 1) + (__x.m_p - *__x.m_ppchunk)
         + (*__y.m_ppchunk + CHUNK_SIZE - __y.m_p);
     }
 
@@ -126,7 +126,7 @@ public:
     constexpr const_iter& operator--()              noexcept { // pre-decr
       if (m_p == *m_ppchunk) {
         --m_ppchunk;
-        m_p = *m_ppchunk;
+        m_p = *m_ppchunk + CHUNK_SIZE - 1;
       } else {
         --m_p;
       }
@@ -146,7 +146,7 @@ public:
     constexpr operator-(const const_iter& __x, const const_iter& __y) noexcept
     {
       return CHUNK_SIZE
-        * (__x.m_ppchunk - __x.m_ppchunk - 1) + (__x.m_p - *__x.m_ppchunk)
+        * (__x.m_ppchunk - __y.m_ppchunk - 1) + (__x.m_p - *__x.m_ppchunk)
         + (*__y.m_ppchunk + CHUNK_SIZE - __y.m_p);
     }
 
@@ -264,13 +264,19 @@ public:
     return {&m_chunks[m_front_chunk][m_front], &m_chunks[m_front_chunk]};
   }
   constexpr iterator          end()       noexcept {
-    return {&m_chunks[m_back_chunk][m_back+1], &m_chunks[m_back_chunk]};
+    const size_type pos = m_front + m_size;
+    auto ppchunk = &m_chunks[m_front_chunk + pos / CHUNK_SIZE];
+    return {*ppchunk + pos % CHUNK_SIZE, ppchunk};
   }
   constexpr const_iterator    end() const noexcept {
-    return {&m_chunks[m_back_chunk][m_back+1], &m_chunks[m_back_chunk]};
+    const size_type pos = m_front + m_size;
+    auto ppchunk = &m_chunks[m_front_chunk + pos / CHUNK_SIZE];
+    return {*ppchunk + pos % CHUNK_SIZE, ppchunk};
   }
   constexpr const_iterator   cend() const noexcept {
-    return {&m_chunks[m_back_chunk][m_back+1], &m_chunks[m_back_chunk]};
+    const size_type pos = m_front + m_size;
+    auto ppchunk = &m_chunks[m_front_chunk + pos / CHUNK_SIZE];
+    return {*ppchunk + pos % CHUNK_SIZE, ppchunk};
   }
   constexpr reference       front() {
     return m_chunks[m_front_chunk][m_front];
@@ -346,6 +352,10 @@ private:
     }
 
     m_size++;
+
+    // the end iterator, and m_front once all is popped, are in the next chunk
+    if (m_back == CHUNK_SIZE - 1 && m_back_chunk == m_chunks.size() - 1)
+      m_chunks.push_back(m_alloc.allocate(CHUNK_SIZE));
   }
 
   allocator_type      m_alloc;
-- 
2.43.0


From 22c647f923e8d4cde01ee7754004d8fa109a42f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:51 +0000
Subject: [PATCH 06/48] fix: deque self-assignment cleared the deque

---
 include/cest/deque.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cest/deque.hpp b/include/cest/deque.hpp
index e171ef5..8705e27 100644
--- a/include/cest/deque.hpp
+++ b/include/cest/deque.hpp
@@ -185,6 +185,7 @@ public:
 
   constexpr deque& operator=(const deque& other)
   {
+    if (this == &other) return *this;
     clear();
     for (size_type i = 0; i < other.size(); ++i)
       push_back(other[i]);
-- 
2.43.0


From 483f3c4f8ea1fd7b54399358a285e679315bcf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:08 +0000
Subject: [PATCH 07/48] fix: deque keeps its content when an element or an
 allocation throws

---
 include/cest/deque.hpp | 107 +++++++++++++++++++++++++++--------------
 1 file changed, 71 insertions(+), 36 deletions(-)

diff --git a/include/cest/deque.hpp b/include/cest/deque.hpp
index 8705e27..94ecf82 100644
--- a/include/cest/deque.hpp
+++ b/include/cest/deque.hpp
@@ -156,10 +156,9 @@ public:
 
   constexpr deque()
   {
-    value_type *p = m_alloc.allocate(CHUNK_SIZE);
     m_front = CHUNK_SIZE / 2;
     m_back  = CHUNK_SIZE / 2 - 1;
-    m_chunks.push_back(p);
+    add_chunk();
     m_front_chunk = m_back_chunk = 0;
     m_size = 0;
   }
@@ -205,39 +204,29 @@ public:
 
   constexpr void push_front( const T& value )
   {
-    push_front_helper();
-    std::construct_at(&m_chunks[m_front_chunk][m_front],           value);
+    push_front_impl(value);
   }
 
   constexpr void push_front( T&& value )
   {
-    push_front_helper();
-    std::construct_at(&m_chunks[m_front_chunk][m_front], std::move(value));
+    push_front_impl(std::move(value));
   }
 
   constexpr void push_back( const T& value )
   {
-    push_back_helper();
-    std::construct_at(&m_chunks[m_back_chunk][m_back],             value);
+    push_back_impl(value);
   }
 
   constexpr void push_back( T&& value )
   {
-    push_back_helper();
-    std::construct_at(&m_chunks[m_back_chunk][m_back],   std::move(value));
+    push_back_impl(std::move(value));
   }
 
   constexpr void pop_back()
   {
     if (!empty()) {
       std::destroy_n(&m_chunks[m_back_chunk][m_back], 1);
-      if (m_back == 0) {
-        m_back = CHUNK_SIZE - 1;
-        --m_back_chunk;
-      } else {
-        --m_back;
-      }
-      --m_size;
+      pop_back_helper();
     }
   }
 
@@ -245,13 +234,7 @@ public:
   {
     if (!empty()) {
       std::destroy_n(&m_chunks[m_front_chunk][m_front], 1);
-      if (m_front == CHUNK_SIZE - 1) {
-        m_front = 0;
-        ++m_front_chunk;
-      } else {
-        ++m_front;
-      }
-      --m_size;
+      pop_front_helper();
     }
   }
 
@@ -309,14 +292,72 @@ public:
 
 private:
 
+  constexpr void add_chunk() // at the end; all or nothing
+  {
+    m_chunks.push_back(nullptr);
+    try {
+      m_chunks.back() = m_alloc.allocate(CHUNK_SIZE);
+    } catch (...) {
+      m_chunks.pop_back();
+      throw;
+    }
+  }
+
+  template <class U>
+  constexpr void push_front_impl(U&& value)
+  {
+    push_front_helper();
+    try {
+      std::construct_at(&m_chunks[m_front_chunk][m_front],
+                        std::forward<U>(value));
+    } catch (...) {
+      pop_front_helper();
+      throw;
+    }
+  }
+
+  template <class U>
+  constexpr void push_back_impl(U&& value)
+  {
+    push_back_helper();
+    try {
+      std::construct_at(&m_chunks[m_back_chunk][m_back],
+                        std::forward<U>(value));
+    } catch (...) {
+      pop_back_helper();
+      throw;
+    }
+  }
+
+  constexpr void pop_front_helper()
+  {
+    if (m_front == CHUNK_SIZE - 1) {
+      m_front = 0;
+      ++m_front_chunk;
+    } else {
+      ++m_front;
+    }
+    --m_size;
+  }
+
+  constexpr void pop_back_helper()
+  {
+    if (m_back == 0) {
+      m_back = CHUNK_SIZE - 1;
+      --m_back_chunk;
+    } else {
+      --m_back;
+    }
+    --m_size;
+  }
+
   constexpr void push_front_helper()
   {
     if (m_front == 0)
     {
       if (m_front_chunk == 0)
       {
-        value_type *p = m_alloc.allocate(CHUNK_SIZE);
-        m_chunks.push_back(p);
+        add_chunk();
         std::rotate(m_chunks.rbegin(), m_chunks.rbegin() + 1, m_chunks.rend());
         ++m_back_chunk;
       }
@@ -336,14 +377,12 @@ private:
 
   constexpr void push_back_helper()
   {
+    // the end iterator, and m_front once all is popped, are in the next chunk
+    if (m_back >= CHUNK_SIZE - 2 && m_back_chunk == m_chunks.size() - 1)
+      add_chunk();
+
     if (m_back == CHUNK_SIZE - 1)
     {
-      if (m_back_chunk == m_chunks.size() - 1)
-      {
-        value_type *p = m_alloc.allocate(CHUNK_SIZE);
-        m_chunks.push_back(p);
-      }
-      
       ++m_back_chunk;
       m_back = 0;
     }
@@ -353,10 +392,6 @@ private:
     }
 
     m_size++;
-
-    // the end iterator, and m_front once all is popped, are in the next chunk
-    if (m_back == CHUNK_SIZE - 1 && m_back_chunk == m_chunks.size() - 1)
-      m_chunks.push_back(m_alloc.allocate(CHUNK_SIZE));
   }
 
   allocator_type      m_alloc;
-- 
2.43.0


From 7aa821c115c7cbe01aa123d84a97ec22bb95bd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:21 +0000
Subject: [PATCH 08/48] fix: list and forward_list iterator++ returns an
 iterator

---
 include/cest/forward_list.hpp | 4 ++--
 include/cest/list.hpp         | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/cest/forward_list.hpp b/include/cest/forward_list.hpp
index e4a1948..3c5ec8a 100644
--- a/include/cest/forward_list.hpp
+++ b/include/cest/forward_list.hpp
@@ -52,7 +52,7 @@ struct forward_list {
     }
 
     constexpr auto      operator++(int)             noexcept { // post-incr
-      auto tmp(m_node); ++(*this); return tmp; 
+      auto tmp(*this); ++(*this); return tmp; 
     }
 
     constexpr bool      operator==(const iter& rhs) const noexcept {
@@ -86,7 +86,7 @@ struct forward_list {
     }
 
     constexpr auto      operator++(int)                   noexcept {
-      auto tmp(m_node); ++(*this); return tmp; 
+      auto tmp(*this); ++(*this); return tmp; 
     }
 
     constexpr bool      operator==(const const_iter& rhs) const noexcept {
diff --git a/include/cest/list.hpp b/include/cest/list.hpp
index 260725b..1f8596c 100644
--- a/include/cest/list.hpp
+++ b/include/cest/list.hpp
@@ -76,7 +76,7 @@ struct list {
     }
 
     constexpr auto      operator++(int)             noexcept { // post-incr
-      auto tmp(m_node); ++(*this); return tmp; 
+      auto tmp(*this); ++(*this); return tmp; 
     }
 
     constexpr auto&     operator--()                noexcept {
@@ -84,7 +84,7 @@ struct list {
     }
 
     constexpr auto      operator--(int)             noexcept {
-      auto tmp(m_node); --(*this); return tmp; 
+      auto tmp(*this); --(*this); return tmp; 
     }
 
     constexpr bool      operator==(const iter& rhs) const noexcept {
@@ -118,7 +118,7 @@ struct list {
     }
 
     constexpr auto      operator++(int)                   noexcept {
-      auto tmp(m_node); ++(*this); return tmp; 
+      auto tmp(*this); ++(*this); return tmp; 
     }
 
     constexpr auto&     operator--()                      noexcept {
@@ -126,7 +126,7 @@ struct list {
     }
 
     constexpr auto      operator--(int)                   noexcept {
-      auto tmp(m_node); --(*this); return tmp; 
+      auto tmp(*this); --(*this); return tmp; 
     }
 
     constexpr bool      operator==(const const_iter& rhs) const noexcept {
-- 
2.43.0


From cafd84f8ac3e197c745f23886da1699c602a020c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:33 +0000
Subject: [PATCH 09/48] fix: list self-assignment cleared the list

---
 include/cest/list.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cest/list.hpp b/include/cest/list.hpp
index 1f8596c..043c1cc 100644
--- a/include/cest/list.hpp
+++ b/include/cest/list.hpp
@@ -147,6 +147,7 @@ struct list {
 
   constexpr list& operator=(const list& other)
   {
+    if (this == &other) return *this;
     clear();
     for (auto it = other.cbegin(); it != other.cend(); ++it)
       push_back(*it);
-- 
2.43.0


From 1b4bddb603e25de0763f546da1012bf9735a1506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:44 +0000
Subject: [PATCH 10/48] fix: list and forward_list leaked a node when its
 construction threw

---
 include/cest/forward_list.hpp | 24 ++++++++++++++++++------
 include/cest/list.hpp         | 19 ++++++++++++++-----
 2 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/include/cest/forward_list.hpp b/include/cest/forward_list.hpp
index 3c5ec8a..38644b1 100644
--- a/include/cest/forward_list.hpp
+++ b/include/cest/forward_list.hpp
@@ -97,13 +97,13 @@ struct forward_list {
   };
 
   constexpr forward_list() = default;
-  constexpr forward_list(const forward_list& x)
+  constexpr forward_list(const forward_list& x) : forward_list()
   {
     const node_base* from = &x.m_front;
           node_base*   to = &this->m_front;
     while (from->next) {
       const node *nextf = static_cast<node*>(from->next);
-      to->next = std::construct_at(m_node_alloc.allocate(1), nextf->value);
+      to->next = make_node(nextf->value);
       from     = from->next;
         to     =   to->next;
     }
@@ -139,16 +139,16 @@ struct forward_list {
   constexpr
   iterator insert_after(const_iterator pos, const value_type& value) {
     node_base*   p = const_cast<node_base*>(pos.m_node);
-    node* new_node = m_node_alloc.allocate(1);
-    p->next        = std::construct_at(new_node,           value, p->next);
+    node* new_node = make_node(value, p->next);
+    p->next        = new_node;
     return {new_node};
   }
 
   constexpr
   iterator insert_after(const_iterator pos,      value_type&& value) {
     node_base*   p  = const_cast<node_base*>(pos.m_node);
-    node* new_node  = m_node_alloc.allocate(1);
-    p->next         = std::construct_at(new_node, std::move(value), p->next);
+    node* new_node  = make_node(std::move(value), p->next);
+    p->next         = new_node;
     return {new_node};
   }
 
@@ -201,6 +201,18 @@ struct forward_list {
     return static_cast<node*>(m_front.next)->value;
   }
 
+  template <class... Args>
+  constexpr node* make_node(Args&&... args)
+  {
+    node* new_node = m_node_alloc.allocate(1);
+    try {
+      return std::construct_at(new_node, std::forward<Args>(args)...);
+    } catch (...) {
+      m_node_alloc.deallocate(new_node, 1);
+      throw;
+    }
+  }
+
   node_base m_front;
   typename std::allocator_traits<allocator_type>::template rebind_alloc<node> m_node_alloc;
 };
diff --git a/include/cest/list.hpp b/include/cest/list.hpp
index 043c1cc..4bd8fed 100644
--- a/include/cest/list.hpp
+++ b/include/cest/list.hpp
@@ -213,11 +213,10 @@ struct list {
   constexpr iterator insert(const_iterator pos, const T& value)
   {
     node_base*   p = const_cast<node_base*>(pos.m_node);
-    node* new_node = m_node_alloc.allocate(1);
 
     // As an implicit-lifetime type (P0593R6), node construction isn't needed
     //std::construct_at(&new_node->value, value);
-    std::construct_at(new_node, value);
+    node* new_node = make_node(value);
     // ...actually...it is: that exemption doesn't apply for constexpr.
 
     // List_node_base::_M_hook
@@ -240,9 +239,7 @@ struct list {
   constexpr iterator emplace(const_iterator pos, Args&&... args)
   {
     node_base*   p = const_cast<node_base*>(pos.m_node);
-    node* new_node = m_node_alloc.allocate(1);
-
-    std::construct_at(new_node, value_type(std::forward<Args>(args)...));
+    node* new_node = make_node(value_type(std::forward<Args>(args)...));
 
     // List_node_base::_M_hook
     new_node->next = p;
@@ -288,6 +285,18 @@ struct list {
     return back();
   }
 
+  template <class... Args>
+  constexpr node* make_node(Args&&... args)
+  {
+    node* new_node = m_node_alloc.allocate(1);
+    try {
+      return std::construct_at(new_node, std::forward<Args>(args)...);
+    } catch (...) {
+      m_node_alloc.deallocate(new_node, 1);
+      throw;
+    }
+  }
+
   constexpr void pop_back()  { erase({m_node.prev}); }
   constexpr void pop_front() { erase(begin());       }
 
-- 
2.43.0


From 4f5762cada9530893e9a8bd370505e11ce4f4645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:31 +0000
Subject: [PATCH 11/48] fix: set and map self-assignment cleared the container

---
 include/cest/map.hpp | 1 +
 include/cest/set.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/cest/map.hpp b/include/cest/map.hpp
index c31b0fd..a1f20af 100644
--- a/include/cest/map.hpp
+++ b/include/cest/map.hpp
@@ -168,6 +168,7 @@ public:
 
   constexpr map& operator=(const map& other)
   {
+    if (this == &other) return *this;
     clear();
     for (auto it = other.begin(); it != other.end(); ++it)
       insert(*it);
diff --git a/include/cest/set.hpp b/include/cest/set.hpp
index f1a86f2..a3c38c5 100644
--- a/include/cest/set.hpp
+++ b/include/cest/set.hpp
@@ -109,6 +109,7 @@ public:
 
   constexpr set& operator=(const set& other)
   {
+    if (this == &other) return *this;
     clear();
     for (auto it = other.begin(); it != other.end(); ++it)
       insert(*it);
-- 
2.43.0


From 4143a137b55a180e6e4ba7572cab5cf0112db1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:45 +0000
Subject: [PATCH 12/48] fix: set and map linked a node whose construction threw

---
 include/cest/map.hpp | 10 ++++++++--
 include/cest/set.hpp | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/cest/map.hpp b/include/cest/map.hpp
index a1f20af..3b974e6 100644
--- a/include/cest/map.hpp
+++ b/include/cest/map.hpp
@@ -281,8 +281,14 @@ public:
     node *ret_node = nullptr; // node added; or the one that prevents insertion
     auto ins = [this,&added,&value,&ret_node](node *&n, node *p, auto &ins_rec) {
       if (!n) {
-        n = ret_node = m_node_alloc.allocate(1);
-        std::construct_at(ret_node,value,nullptr,nullptr,p,RED);
+        ret_node = m_node_alloc.allocate(1);
+        try {
+          std::construct_at(ret_node,value,nullptr,nullptr,p,RED);
+        } catch (...) {
+          m_node_alloc.deallocate(ret_node,1);
+          throw;
+        }
+        n = ret_node;
         m_begin = (!m_begin || m_comp(value.first,m_begin->x.first)) ? n : m_begin;
         added = true;
         m_size++;
diff --git a/include/cest/set.hpp b/include/cest/set.hpp
index a3c38c5..860d798 100644
--- a/include/cest/set.hpp
+++ b/include/cest/set.hpp
@@ -217,8 +217,14 @@ public:
     node *ret_node = nullptr; // node added; or the one that prevents insertion
     auto ins = [this,&added,&value,&ret_node](node *&n, node *p, auto &ins_rec) {
       if (!n) {
-        n = ret_node = m_node_alloc.allocate(1);
-        std::construct_at(ret_node,value,nullptr,nullptr,p,RED);
+        ret_node = m_node_alloc.allocate(1);
+        try {
+          std::construct_at(ret_node,value,nullptr,nullptr,p,RED);
+        } catch (...) {
+          m_node_alloc.deallocate(ret_node,1);
+          throw;
+        }
+        n = ret_node;
         m_begin = (!m_begin || m_comp(value,m_begin->x)) ? n : m_begin;
         added = true;
         m_size++;
-- 
2.43.0


From f3dcec40975c2e0bc8950d1f403a9ff6af2b5760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:57 +0000
Subject: [PATCH 13/48] fix: map iteration compared keys with == instead of
 nodes

---
 include/cest/map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cest/map.hpp b/include/cest/map.hpp
index 3b974e6..cc17949 100644
--- a/include/cest/map.hpp
+++ b/include/cest/map.hpp
@@ -62,7 +62,7 @@ public:
       else 
       {
         node *pn = curr_node->p;
-        while (pn && pn->r && curr_node->x.first == pn->r->x.first)
+        while (pn && pn->r && curr_node == pn->r)
         {
           curr_node = pn;
           pn = pn->p;
@@ -117,7 +117,7 @@ public:
       else 
       {
         node *pn = curr_node->p;
-        while (pn && pn->r && curr_node->x.first == pn->r->x.first)
+        while (pn && pn->r && curr_node == pn->r)
         {
           curr_node = pn;
           pn = pn->p;
-- 
2.43.0


From 824da7c00b828daa3736a900211f0e2c2b7e58df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:08 +0000
Subject: [PATCH 14/48] fix: map::find with another key type did not compile

---
 include/cest/map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cest/map.hpp b/include/cest/map.hpp
index cc17949..9ac0cf5 100644
--- a/include/cest/map.hpp
+++ b/include/cest/map.hpp
@@ -246,7 +246,7 @@ public:
       else                             {              break; }
     }
 
-    return {n};
+    return iterator(n);
   }
 
   template <class K>
@@ -260,7 +260,7 @@ public:
       else                             {              break; }
     }
 
-    return {n};
+    return const_iterator(n);
   }
 
   constexpr void rotate_left(node *&n) {
-- 
2.43.0


From d570afc0dffc6331a23962aae4cdaa0ac2fce063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:07 +0000
Subject: [PATCH 15/48] fix: string::push_back of a character of the same
 string

---
 include/cest/string.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index 121a071..18d74fb 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -177,7 +177,8 @@ public:
      return this->find(s, pos, traits_type::length(s));
   }
 
-  constexpr void push_back(const value_type &value) {
+  constexpr void push_back(const value_type &ch) {
+    const value_type value = ch; // reserve may release the storage ch is in
     if (m_size + 1 > m_capacity)
       reserve(m_capacity * 2);
     traits_type::assign(this->data()[  m_size], value);
-- 
2.43.0


From ac89ebf98df993c92316f457906fcf9b66307ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:20 +0000
Subject: [PATCH 16/48] fix: string assignment from its own characters read
 released storage

---
 include/cest/string.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index 18d74fb..f3324f6 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -223,15 +223,19 @@ public:
     size_type count = traits_type::length(s);
 
     if (m_capacity < count+1) {
+      const size_type cap = count+1;           // ensure m_capacity is not 0
+      pointer p = m_alloc.allocate(cap+1);     // +1 for the null terminator
+      for (size_type i = 0; i < cap+1; i++)
+        std::construct_at(&p[i]);
+      traits_type::copy(p, s, count);          // s may be in the old storage
       m_alloc.deallocate(m_p, m_capacity+1);
-      m_capacity = count+1;                    // ensure m_capacity is not 0
-      m_p = m_alloc.allocate(m_capacity+1);    // +1 for the null terminator
-      for (size_type i = 0; i < m_capacity+1; i++)
-        std::construct_at(&m_p[i]);
+      m_p        = p;
+      m_capacity = cap;
     }
+    else
+      traits_type::move(m_p, s, count);
     
-    traits_type::copy(m_p, s, count+1);
-    m_size = count;
+    traits_type::assign(this->data()[m_size = count], CharT());
     return *this;
   }
 
-- 
2.43.0


From cd35698b69a31f5368321fafd83720257fadfd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:32 +0000
Subject: [PATCH 17/48] fix: string copy, assignment and find stopped at an
 embedded null character

---
 include/cest/string.hpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index f3324f6..8e7cd51 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -62,7 +62,8 @@ public:
   constexpr basic_string(const CharT* s, const Allocator &alloc = Allocator())
   : basic_string(s, traits_type::length(s), alloc) {}
 
-  constexpr basic_string(const basic_string& str) : basic_string(str.c_str()) {}
+  constexpr basic_string(const basic_string& str)
+  : basic_string(str.data(), str.size()) {}
 
   template <class InputIt>
   constexpr basic_string(InputIt __beg, InputIt __end,
@@ -136,7 +137,7 @@ public:
 
   constexpr
   size_type find(const basic_string &str, size_type pos = 0) const noexcept {
-    return this->find(str.data(), pos);
+    return this->find(str.data(), pos, str.size());
   }
 
   constexpr size_type find(CharT ch, size_type /*pos*/ = 0) const noexcept {
@@ -219,9 +220,15 @@ public:
 
   constexpr basic_string& operator=(const CharT* s)
   {
-    //const CharT* s  = str.c_str();
-    size_type count = traits_type::length(s);
+    return this->assign(s, traits_type::length(s));
+  }
+
+  constexpr basic_string& operator=(const basic_string& str) {
+    return this->assign(str.data(), str.size());
+  }
 
+  constexpr basic_string& assign(const CharT* s, size_type count)
+  {
     if (m_capacity < count+1) {
       const size_type cap = count+1;           // ensure m_capacity is not 0
       pointer p = m_alloc.allocate(cap+1);     // +1 for the null terminator
@@ -239,10 +246,6 @@ public:
     return *this;
   }
 
-  constexpr basic_string& operator=(const basic_string& str) {
-    return this->operator=(str.c_str());
-  }
-
   constexpr void reserve(size_type new_cap)
   {
     if (new_cap > m_capacity)
-- 
2.43.0


From 4034f008b2018d9884f492cba7a9f0bdc534c9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:45 +0000
Subject: [PATCH 18/48] fix: printing a string stopped at an embedded null
 character

---
 include/cest/string.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index 8e7cd51..58700c1 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -4,6 +4,7 @@
 #include "ostream.hpp"
 #include "runtime_ostream.hpp"
 #include <string>      // std::char_traits
+#include <string_view> // std::basic_string_view
 #include <memory>      // std::allocator
 #include <iterator>    // std::reverse_iterator
 #include <limits>      // std::numeric_limits
@@ -375,7 +376,8 @@ operator<<(
   basic_ostream<CharT, Traits>& os,
   const basic_string<CharT, Traits, Allocator>& str)
 {
-  impl::runtime_ostream(os, str.c_str());
+  impl::runtime_ostream(
+    os, std::basic_string_view<CharT, Traits>(str.data(), str.size()));
   return os;
 }
 
-- 
2.43.0


From 57a819a58ab87d6aa2993960f1420d57ea9e0e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:57 +0000
Subject: [PATCH 19/48] fix: string from an empty input range wrote through a
 null pointer

---
 include/cest/string.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index 58700c1..6e243fc 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -68,7 +68,8 @@ public:
 
   template <class InputIt>
   constexpr basic_string(InputIt __beg, InputIt __end,
-                         const Allocator& alloc = Allocator()) : m_alloc(alloc)
+                         const Allocator& alloc = Allocator())
+  : basic_string(alloc)
   {
     static_assert(std::is_same_v<
       std::input_iterator_tag,
-- 
2.43.0


From fd73f53b53d8917f7dc21c47756bffa0b562e40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:59 +0000
Subject: [PATCH 20/48] fix: string::find(ch, pos) ignored pos

---
 include/cest/string.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index 6e243fc..1a4d814 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -142,8 +142,10 @@ public:
     return this->find(str.data(), pos, str.size());
   }
 
-  constexpr size_type find(CharT ch, size_type /*pos*/ = 0) const noexcept {
-    auto *p = traits_type::find(this->data(), this->size(), ch);
+  constexpr size_type find(CharT ch, size_type pos = 0) const noexcept {
+    if (pos >= this->size())
+      return npos;
+    auto *p = traits_type::find(this->data() + pos, this->size() - pos, ch);
     return p ? (p-this->data()) : npos;
   }
 
-- 
2.43.0


From f69d2fb27ed96c6c094f7bca38ed6bf23b3c4f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:21 +0000
Subject: [PATCH 21/48] fix: unique_ptr move assignment kept the old object
 alive in the source

---
 include/cest/memory.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/cest/memory.hpp b/include/cest/memory.hpp
index 3ef2462..637fff2 100644
--- a/include/cest/memory.hpp
+++ b/include/cest/memory.hpp
@@ -43,8 +43,7 @@ public:
 
   constexpr unique_ptr& operator=(unique_ptr&& other) noexcept
   {
-    using std::swap;
-    swap(other.ptr_, ptr_);
+    reset(other.release());
     return *this;
   }
 
-- 
2.43.0


From 7d018ab0ec8c9bbc6ddfb33cc8fa9f818f3b493a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:34 +0000
Subject: [PATCH 22/48] fix: copying an empty shared_ptr dereferenced a null
 pointer

---
 include/cest/shared_ptr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cest/shared_ptr.hpp b/include/cest/shared_ptr.hpp
index 9b465ed..afcfb7b 100644
--- a/include/cest/shared_ptr.hpp
+++ b/include/cest/shared_ptr.hpp
@@ -81,11 +81,11 @@ public:
     : ptr_{ptr}, pctrl_{new ctrl_derived<Y,Deleter>{ptr,del}} {}
 
   constexpr shared_ptr_base(const shared_ptr_base& r) noexcept
-    : ptr_{r.ptr_}, pctrl_{r.pctrl_} { ++pctrl_->count_; }
+    : ptr_{r.ptr_}, pctrl_{r.pctrl_} { if (pctrl_) ++pctrl_->count_; }
 
   template <class Y>
   constexpr shared_ptr_base(const shared_ptr<Y>& r, element_type* ptr) noexcept
-    : ptr_{ptr}, pctrl_{r.pctrl_} { ++pctrl_->count_; }
+    : ptr_{ptr}, pctrl_{r.pctrl_} { if (pctrl_) ++pctrl_->count_; }
 
   constexpr ~shared_ptr_base()
   {
-- 
2.43.0


From 975e3f8faadac30c7d0064220a5e46ebf761a2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:45 +0000
Subject: [PATCH 23/48] fix: shared_ptr assignment did not count its owners

---
 include/cest/shared_ptr.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/cest/shared_ptr.hpp b/include/cest/shared_ptr.hpp
index afcfb7b..483d82e 100644
--- a/include/cest/shared_ptr.hpp
+++ b/include/cest/shared_ptr.hpp
@@ -87,6 +87,14 @@ public:
   constexpr shared_ptr_base(const shared_ptr<Y>& r, element_type* ptr) noexcept
     : ptr_{ptr}, pctrl_{r.pctrl_} { if (pctrl_) ++pctrl_->count_; }
 
+  constexpr shared_ptr_base& operator=(const shared_ptr_base& r) noexcept
+  {
+    shared_ptr_base tmp{r};
+    std::swap(ptr_,   tmp.ptr_);
+    std::swap(pctrl_, tmp.pctrl_);
+    return *this;
+  }
+
   constexpr ~shared_ptr_base()
   {
     if (pctrl_ && !--pctrl_->count_)
-- 
2.43.0


From 29046f78e710e1265b5d9913f78dbfe741c94625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:58 +0000
Subject: [PATCH 24/48] fix: shared_ptr deleted an object of a derived class
 through the base class

---
 include/cest/shared_ptr.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/cest/shared_ptr.hpp b/include/cest/shared_ptr.hpp
index 483d82e..76defe2 100644
--- a/include/cest/shared_ptr.hpp
+++ b/include/cest/shared_ptr.hpp
@@ -62,8 +62,12 @@ protected:
     Deleter del_;
   };
 
-  template <typename U>
-  struct def_del : default_delete<U> {};
+  // deletes the object as what it was given as; an array by delete []
+  template <typename Y>
+  using del_t = std::conditional_t<std::is_array_v<Td>, Y[], Y>;
+
+  template <typename Y>
+  struct def_del : default_delete<del_t<Y>> {};
 
 public:
   using element_type = std::remove_extent_t<T>;
@@ -74,7 +78,7 @@ public:
 
   template <class Y>
   explicit constexpr shared_ptr_base(Y* ptr)
-    : ptr_{ptr}, pctrl_{new ctrl_derived<Y,def_del<Td>>{ptr,def_del<Td>{}}} {}
+    : ptr_{ptr}, pctrl_{new ctrl_derived<Y,def_del<Y>>{ptr,def_del<Y>{}}} {}
 
   template <class Y, class Deleter>
   constexpr shared_ptr_base(Y* ptr, Deleter del)
-- 
2.43.0


From 7a4557d9b505a26f8150ae18a73e77efdd098d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:35 +0000
Subject: [PATCH 25/48] fix: shared_ptr aliasing a member of another type did
 not compile

---
 include/cest/shared_ptr.hpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/cest/shared_ptr.hpp b/include/cest/shared_ptr.hpp
index 76defe2..6687cdb 100644
--- a/include/cest/shared_ptr.hpp
+++ b/include/cest/shared_ptr.hpp
@@ -39,18 +39,24 @@ template <typename>
 
 namespace impl {
 
+// the owners' common part; one type for all T, so that aliases can share it
+struct shared_ptr_ctrl
+{
+  constexpr shared_ptr_ctrl() : count_(1) {}
+  virtual constexpr void destroy() = 0;
+  virtual constexpr ~shared_ptr_ctrl() {}
+
+  long count_;
+};
+
 template <typename T, typename Td>
 class shared_ptr_base
 {
 protected:
-  struct ctrl
-  {
-    constexpr ctrl() : count_(1) {}
-    virtual constexpr void destroy() = 0;
-    virtual constexpr ~ctrl() {}
+  template <typename, typename>
+  friend class shared_ptr_base;
 
-    long count_;
-  };
+  using ctrl = shared_ptr_ctrl;
 
   template <class U, class Deleter>
   struct ctrl_derived : public ctrl
-- 
2.43.0


From b1b7b7440e6d5203ba7d49e50d1c0fa3b20f28f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:28 +0000
Subject: [PATCH 26/48] fix: get_deleter failed for an object of a derived
 class

---
 include/cest/shared_ptr.hpp | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/include/cest/shared_ptr.hpp b/include/cest/shared_ptr.hpp
index 6687cdb..e0877ab 100644
--- a/include/cest/shared_ptr.hpp
+++ b/include/cest/shared_ptr.hpp
@@ -58,14 +58,23 @@ protected:
 
   using ctrl = shared_ptr_ctrl;
 
+  // the deleter can be found whatever type the pointer to delete has
+  template <class Deleter>
+  struct ctrl_deleter : public ctrl
+  {
+    constexpr ctrl_deleter(Deleter del) : del_{del} {}
+
+    Deleter del_;
+  };
+
   template <class U, class Deleter>
-  struct ctrl_derived : public ctrl
+  struct ctrl_derived : public ctrl_deleter<Deleter>
   {
-    constexpr ctrl_derived(U* ptr, Deleter del) : ptr_{ptr}, del_{del} {}
-    virtual constexpr void destroy() override { del_(ptr_); }
+    constexpr ctrl_derived(U* ptr, Deleter del)
+      : ctrl_deleter<Deleter>{del}, ptr_{ptr} {}
+    virtual constexpr void destroy() override { this->del_(ptr_); }
 
     U* ptr_;
-    Deleter del_;
   };
 
   // deletes the object as what it was given as; an array by delete []
@@ -136,16 +145,14 @@ protected:
 template <class Deleter, class U>
 constexpr Deleter* get_deleter(const shared_ptr<U>& p) noexcept
 {
-  using elem_t = typename shared_ptr<U>::element_type;
-
-  if constexpr (std::is_invocable_v<Deleter,elem_t*>)
+  if constexpr (std::is_object_v<Deleter>)
   {
-    using ctrl_derived_t =
-      typename shared_ptr<U>::template ctrl_derived<elem_t,Deleter>;
-    auto ptr = dynamic_cast<ctrl_derived_t*>(p.pctrl_);
+    using ctrl_deleter_t =
+      typename shared_ptr<U>::template ctrl_deleter<Deleter>;
+    auto ptr = dynamic_cast<ctrl_deleter_t*>(p.pctrl_);
     return ptr ? &ptr->del_ : nullptr;
-  } 
-  
+  }
+
   return nullptr;
 }
 
-- 
2.43.0


From fa4c882b05a026cb530b3cec9cbfb637f60dc2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:39 +0000
Subject: [PATCH 27/48] fix: copying a function object recursed without end

---
 include/cest/functional.hpp | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/include/cest/functional.hpp b/include/cest/functional.hpp
index a614699..fea24a3 100644
--- a/include/cest/functional.hpp
+++ b/include/cest/functional.hpp
@@ -15,6 +15,7 @@ class virt_impl_f
 {
 public:
   constexpr virtual R operator()(Args... args) = 0;
+  constexpr virtual virt_impl_f* clone() const = 0;
   constexpr virtual ~virt_impl_f() = default;
 };
 
@@ -22,7 +23,9 @@ template <typename F, typename R, typename... Args>
 class impl_f : public virt_impl_f<R , Args...>
 {
 public:
-  constexpr impl_f(F&& f) : f_(f) {}
+  constexpr impl_f(F f) : f_(std::move(f)) {}
+
+  constexpr virtual impl_f* clone() const override { return new impl_f(f_); }
 
   constexpr virtual R operator()(Args... args) override {
     return f_(std::forward<Args>(args)...);
@@ -35,7 +38,9 @@ template <typename F, typename... Args>
 class impl_f<F, void, Args...> : public virt_impl_f<void, Args...>
 {
 public:
-  constexpr impl_f(F&& f) : f_(f) {}
+  constexpr impl_f(F f) : f_(std::move(f)) {}
+
+  constexpr virtual impl_f* clone() const override { return new impl_f(f_); }
 
   constexpr virtual void operator()(Args... args) override {
     f_(std::forward<Args>(args)...);
@@ -58,9 +63,19 @@ public:
   }
 
   template<typename F>
+    requires (!std::is_same_v<std::decay_t<F>, function>)
   constexpr function(F&& f) :
     f_(cest::make_unique<impl_f<std::decay_t<F>,
-                         R, Args...>>(std::move(f))){}
+                         R, Args...>>(std::forward<F>(f))){}
+
+  constexpr function(const function& f) :
+    f_(f.f_ ? f.f_->clone() : nullptr) {}
+  constexpr function(function&& f) = default;
+
+  constexpr function& operator=(const function& f) {
+    return *this = function(f);
+  }
+  constexpr function& operator=(function&& f) = default;
 };
 
 template <typename... Args>
@@ -74,9 +89,19 @@ public:
   }
 
   template<typename F>
+    requires (!std::is_same_v<std::decay_t<F>, function>)
   constexpr function(F&& f) :
     f_(cest::make_unique<impl_f<std::decay_t<F>,
-                         void, Args...>>(std::move(f))){}
+                         void, Args...>>(std::forward<F>(f))){}
+
+  constexpr function(const function& f) :
+    f_(f.f_ ? f.f_->clone() : nullptr) {}
+  constexpr function(function&& f) = default;
+
+  constexpr function& operator=(const function& f) {
+    return *this = function(f);
+  }
+  constexpr function& operator=(function&& f) = default;
 };
 
 // Deduction guide borrowed from libcxx
-- 
2.43.0


From 6c8887450a2836be3f4bb86dfe3055cb73ed261a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:23 +0000
Subject: [PATCH 28/48] fix: printf and fprintf results, %% without arguments,
 null characters

---
 include/cest/cstdio.hpp | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/include/cest/cstdio.hpp b/include/cest/cstdio.hpp
index 7ba7a78..6ddb4ed 100644
--- a/include/cest/cstdio.hpp
+++ b/include/cest/cstdio.hpp
@@ -22,7 +22,7 @@ constexpr int printf(const char* format)
 {
   if (!std::is_constant_evaluated())
   {
-    return std::printf("%s", format);
+    return std::printf(format, 0); // 0 is ignored; but %% is not
   }
 
   return 0;
@@ -39,16 +39,6 @@ constexpr int printf(const char* format, Ts&&... xs)
   return 0; // positive; not an error; 0 characters output (constexpr)
 }
 
-constexpr int fprintf(ostream* stream, const char* format)
-{
-  if (!std::is_constant_evaluated())
-  {
-    (*stream) << format;
-  }
-
-  return 0;
-}
-
 // FILE* for param 1 would itroduce the issues described above. 
 template <typename... Ts>
 constexpr int fprintf(ostream* stream, const char* format, Ts&&... xs)
@@ -58,7 +48,7 @@ constexpr int fprintf(ostream* stream, const char* format, Ts&&... xs)
     int nbytes = std::snprintf(nullptr, 0, format, std::forward<Ts>(xs)...);
     char *psz = new char[nbytes+1];
     std::snprintf(psz, nbytes+1, format, std::forward<Ts>(xs)...);
-    (*stream) << psz;
+    (*stream) << string(psz, nbytes);
     delete [] psz;
     return nbytes;
   }
@@ -66,6 +56,11 @@ constexpr int fprintf(ostream* stream, const char* format, Ts&&... xs)
   return 0;
 }
 
+constexpr int fprintf(ostream* stream, const char* format)
+{
+  return fprintf(stream, format, 0); // as printf above
+}
+
 constexpr FILE* fmemopen(char* buf, size_t size, const char* /*mode*/)
 {
   return new stringstream(string(buf,size));
-- 
2.43.0


From a8cbb0afb3c48dce972944d42f06e59e5a147cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:36 +0000
Subject: [PATCH 29/48] fix: hex, dec and oct had no effect on the standard
 streams

---
 include/cest/ostream.hpp         |  1 +
 include/cest/runtime_ostream.hpp | 13 +++++++++++++
 2 files changed, 14 insertions(+)

diff --git a/include/cest/ostream.hpp b/include/cest/ostream.hpp
index 3a9488c..efa67bb 100644
--- a/include/cest/ostream.hpp
+++ b/include/cest/ostream.hpp
@@ -55,6 +55,7 @@ public:
   constexpr __ostream_type&
   operator<<(ios_base&       (*__pf)(ios_base&))       {
     __pf(*this);
+    impl::runtime_ostream(*this, __pf);
     return *this;
   }
 
diff --git a/include/cest/runtime_ostream.hpp b/include/cest/runtime_ostream.hpp
index 24ea8ea..818bea1 100644
--- a/include/cest/runtime_ostream.hpp
+++ b/include/cest/runtime_ostream.hpp
@@ -34,6 +34,19 @@ constexpr void runtime_ostream(
   }
 }
 
+// hex, dec and oct
+template <class CharT, class Traits>
+constexpr void runtime_ostream(
+  basic_ostream<CharT,Traits>& os, cest::ios_base& (*fp)(cest::ios_base&))
+{
+  if (!std::is_constant_evaluated())
+  {
+    if      (fp == &cest::hex) runtime_ostream(os, &std::hex);
+    else if (fp == &cest::dec) runtime_ostream(os, &std::dec);
+    else if (fp == &cest::oct) runtime_ostream(os, &std::oct);
+  }
+}
+
 } // namespace impl
 
 } // namespace cest
-- 
2.43.0


From 0b7f182ef3cc15ee16c4cd76cb868aa1516f2c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:50 +0000
Subject: [PATCH 30/48] fix: inserting a long into an output stream did not
 compile

---
 include/cest/ostream.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cest/ostream.hpp b/include/cest/ostream.hpp
index efa67bb..5bce528 100644
--- a/include/cest/ostream.hpp
+++ b/include/cest/ostream.hpp
@@ -61,7 +61,10 @@ public:
 
   constexpr __ostream_type&
   operator<<(long __n)
-  { return _M_insert(__n); }
+  {
+    impl::runtime_ostream(*this, __n);
+    return *this;
+  }
 
   constexpr __ostream_type& operator<<(int value)                             {
     impl::runtime_ostream(*this, value);
-- 
2.43.0


From ec69bcd276d01aa49494c98c7b6f1ed54a935e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:33 +0000
Subject: [PATCH 31/48] fix: floor and ceil next to an integer were off by one

---
 include/cest/cmath.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cest/cmath.hpp b/include/cest/cmath.hpp
index 25e0aae..9a1c1b5 100644
--- a/include/cest/cmath.hpp
+++ b/include/cest/cmath.hpp
@@ -118,7 +118,7 @@ namespace cest {
   }
 
   constexpr int ceil(double v) {
-    return ((double)(int)v != v && v > 0) ?  v + 1 : v;
+    return ((double)(int)v != v && v > 0) ?  (int)v + 1 : (int)v;
   }
 
   constexpr double cos(double x) {
@@ -130,7 +130,7 @@ namespace cest {
   }
 
   constexpr int floor(double v) {
-    return ((double)(int)v != v && v < 0) ?  v - 1 : v;
+    return ((double)(int)v != v && v < 0) ?  (int)v - 1 : (int)v;
   }
 
   constexpr double pow(double base, int exponent) {
-- 
2.43.0


From 269f578b2ad500f03fbfe1bb357afc93ee74aad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:44 +0000
Subject: [PATCH 32/48] fix: a failing allocation in a string's default
 constructor terminated the program

---
 include/cest/string.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index 1a4d814..e6a3a4f 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -35,11 +35,10 @@ public:
 
   static const size_type npos = static_cast<size_type>(-1);
 
-  constexpr basic_string() noexcept(noexcept( Allocator() )) :
-    basic_string( Allocator() ) {}
+  constexpr basic_string() : basic_string( Allocator() ) {}
 
   explicit constexpr
-  basic_string(const Allocator& alloc) noexcept : m_alloc(alloc)
+  basic_string(const Allocator& alloc) : m_alloc(alloc)
   {
     m_capacity = 1;                                // Unlike 0, a scalable value
     m_p = m_alloc.allocate(m_capacity+1);          // +1 for the null terminator
-- 
2.43.0


From 71dd7d3edb80d6835c625ceef5fca37608b7eb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:54 +0000
Subject: [PATCH 33/48] fix: string self-assignment was not a constant
 expression

---
 include/cest/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index e6a3a4f..786517f 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -242,7 +242,7 @@ public:
       m_p        = p;
       m_capacity = cap;
     }
-    else
+    else if (s != m_p)
       traits_type::move(m_p, s, count);
     
     traits_type::assign(this->data()[m_size = count], CharT());
-- 
2.43.0


From af1fe2760e6c45d6919897a7ff5fd7aacdb54f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:54 +0000
Subject: [PATCH 34/48] fix: comparing wide strings for equality was not a
 constant expression

---
 include/cest/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index 786517f..f36f0fe 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -308,7 +308,7 @@ private:
 };
 
 template<typename _CharT, typename _Traits, typename _Alloc>
-  inline bool
+  inline constexpr bool
   operator==(const basic_string<_CharT, _Traits, _Alloc>& __lhs,
              const basic_string<_CharT, _Traits, _Alloc>& __rhs)
   noexcept
-- 
2.43.0


From db7ecf3c12c2ffdee9379885c670d068e94a0456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:22 +0000
Subject: [PATCH 35/48] fix: sqrt of zero, a negative number, infinity or NaN
 recursed without end

---
 include/cest/cmath.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cest/cmath.hpp b/include/cest/cmath.hpp
index 9a1c1b5..498d886 100644
--- a/include/cest/cmath.hpp
+++ b/include/cest/cmath.hpp
@@ -1,6 +1,7 @@
 #ifndef _CEST_CMATH_HPP_
 #define _CEST_CMATH_HPP_
 
+#include <limits>
 #include "cest/bits/abs.hpp"
 
 namespace cest {
@@ -141,7 +142,9 @@ namespace cest {
   }
 
   constexpr double sqrt(double x) {
-    return sqrt_helper(x,1.0);
+    // zero, negative, infinite and NaN arguments have no fixed point
+    return x > 0 && x <= std::numeric_limits<double>::max() ? sqrt_helper(x,1.0) :
+           x < 0 ? std::numeric_limits<double>::quiet_NaN() : x;
   }
 
   constexpr double sin(double x) { 
-- 
2.43.0


From 92d5825843e936b2f331104c60abf21a0401da16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:35 +0000
Subject: [PATCH 36/48] fix: complex sqrt, tan, tanh, log10 and non-integer pow
 did not compile

---
 include/cest/complex.hpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/include/cest/complex.hpp b/include/cest/complex.hpp
index a87dc0a..665f7c4 100644
--- a/include/cest/complex.hpp
+++ b/include/cest/complex.hpp
@@ -791,7 +791,7 @@ namespace cest
   template<typename _Tp>
     inline complex<_Tp>
     log10(const complex<_Tp>& __z)
-    { return std::log(__z) / log(_Tp(10.0)); }
+    { return cest::log(__z) / _Tp(log(_Tp(10.0))); }
 
   // 26.2.8/10 sin(__z): Returns the sine of __z.
   template<typename _Tp>
@@ -869,7 +869,7 @@ namespace cest
         }
       else
         {
-          _Tp __t = sqrt(2 * (std::abs(__z) + abs(__x)));
+          _Tp __t = sqrt(2 * (cest::abs(__z) + abs(__x)));
           _Tp __u = __t / 2;
           return __x > _Tp()
             ? complex<_Tp>(__u, __y / __t)
@@ -902,7 +902,7 @@ namespace cest
   template<typename _Tp>
     inline complex<_Tp>
     __complex_tan(const complex<_Tp>& __z)
-    { return std::sin(__z) / std::cos(__z); }
+    { return cest::sin(__z) / cest::cos(__z); }
 
 #if _GLIBCXX_USE_C99_COMPLEX
   inline __complex__ float
@@ -930,7 +930,7 @@ namespace cest
   template<typename _Tp>
     inline complex<_Tp>
     __complex_tanh(const complex<_Tp>& __z)
-    { return std::sinh(__z) / std::cosh(__z); }
+    { return cest::sinh(__z) / cest::cosh(__z); }
 
 #if _GLIBCXX_USE_C99_COMPLEX
   inline __complex__ float
@@ -991,21 +991,19 @@ namespace cest
     complex<_Tp>
     pow(const complex<_Tp>& __x, const _Tp& __y)
     {
-#if ! _GLIBCXX_USE_C99_COMPLEX
       if (__x == _Tp())
 	return _Tp();
-#endif
       if (__x.imag() == _Tp() && __x.real() > _Tp())
-        return pow(__x.real(), __y);
+        return _Tp(exp(__y * log(__x.real())));
 
-      complex<_Tp> __t = std::log(__x);
+      complex<_Tp> __t = cest::log(__x);
       return cest::polar<_Tp>(exp(__y * __t.real()), __y * __t.imag());
     }
 
   template<typename _Tp>
     inline complex<_Tp>
     __complex_pow(const complex<_Tp>& __x, const complex<_Tp>& __y)
-    { return __x == _Tp() ? _Tp() : std::exp(__y * std::log(__x)); }
+    { return __x == _Tp() ? _Tp() : cest::exp(__y * cest::log(__x)); }
 
 #if _GLIBCXX_USE_C99_COMPLEX
   inline __complex__ float
@@ -1036,9 +1034,9 @@ namespace cest
     inline complex<_Tp>
     pow(const _Tp& __x, const complex<_Tp>& __y)
     {
-      return __x > _Tp() ? cest::polar<_Tp>(pow(__x, __y.real()),
+      return __x > _Tp() ? cest::polar<_Tp>(exp(__y.real() * log(__x)),
 					   __y.imag() * log(__x))
-	                 : std::pow(complex<_Tp>(__x), __y);
+	                 : cest::pow(complex<_Tp>(__x), __y);
     }
 
 } // namespace cest
-- 
2.43.0


From 72d2516dce8d3b4c1db77646da670e315a287c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:57 +0000
Subject: [PATCH 37/48] fix: sin, sinh, atan, exp and log of infinity or NaN
 recursed without end

---
 include/cest/cmath.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/cest/cmath.hpp b/include/cest/cmath.hpp
index 498d886..f7cfe9e 100644
--- a/include/cest/cmath.hpp
+++ b/include/cest/cmath.hpp
@@ -20,6 +20,12 @@ namespace cest {
   namespace {
     constexpr double tol = 0.001;
 
+    // neither infinite nor NaN
+    constexpr bool finite(const double x) {
+      return x >= -std::numeric_limits<double>::max() &&
+             x <=  std::numeric_limits<double>::max();
+    }
+
     constexpr double square(const double x) {
       return x*x;
     }
@@ -107,7 +113,7 @@ namespace cest {
   } // anonymous namespace
 
   constexpr double atan(double x) {
-    return (x >= 0) ? atan_cmplmntry(x) : -atan_cmplmntry(-x);
+    return x != x ? x : (x >= 0) ? atan_cmplmntry(x) : -atan_cmplmntry(-x);
   }
 
   constexpr double atan2(double y, double x) {
@@ -148,22 +154,26 @@ namespace cest {
   }
 
   constexpr double sin(double x) { 
-    return sin_helper(x < 0 ? -x+CEST_M_PI : x);
+    return !finite(x) ? std::numeric_limits<double>::quiet_NaN() :
+           sin_helper(x < 0 ? -x+CEST_M_PI : x);
   }
 
   constexpr double sinh(double x) {
-    return x < 0 ? -sinh_helper(-x) : sinh_helper(x);
+    return !finite(x) ? x : x < 0 ? -sinh_helper(-x) : sinh_helper(x);
   }
 
   // exp(x) = e^n . e^r (where n is an integer, and -0.5 > r < 0.5
   // exp(r) = e^r = 1 + r + r^2/2 + r^3/6 + r^4/24 + r^5/120
   constexpr double exp(double x) {
-    return pow(CEST_M_E,nearest(x)) * exp_helper(fraction(x));
+    return !(x <= 710) ? (x != x ? x : std::numeric_limits<double>::infinity()) :
+           x < -746 ? 0 :
+           pow(CEST_M_E,nearest(x)) * exp_helper(fraction(x));
   }
 
   constexpr double log(double x) {
     return x == 0 ? -std::numeric_limits<double>::infinity() :
            x <  0 ?  std::numeric_limits<double>::quiet_NaN() :
+           !finite(x) ? x :
            2.0 * log_helper(sqrt(mantissa(x))) + 2.3025851 * exponent(x);
   }
 
-- 
2.43.0


From 8b23f7e4503f368a0eb112ac5ea15cb22c6500bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:24 +0000
Subject: [PATCH 38/48] fix: set and map insert left an uncounted node when a
 comparison threw

The comparison that decides whether the new key is the smallest was made
after the node had been linked into the tree: a comparator that threw there
left the node in the tree without counting it (and without rebalancing).
---
 include/cest/map.hpp | 4 +++-
 include/cest/set.hpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/cest/map.hpp b/include/cest/map.hpp
index 9ac0cf5..d8e6ceb 100644
--- a/include/cest/map.hpp
+++ b/include/cest/map.hpp
@@ -281,6 +281,8 @@ public:
     node *ret_node = nullptr; // node added; or the one that prevents insertion
     auto ins = [this,&added,&value,&ret_node](node *&n, node *p, auto &ins_rec) {
       if (!n) {
+        // before the node is linked: the comparison may throw
+        const bool first = !m_begin || m_comp(value.first,m_begin->x.first);
         ret_node = m_node_alloc.allocate(1);
         try {
           std::construct_at(ret_node,value,nullptr,nullptr,p,RED);
@@ -289,7 +291,7 @@ public:
           throw;
         }
         n = ret_node;
-        m_begin = (!m_begin || m_comp(value.first,m_begin->x.first)) ? n : m_begin;
+        m_begin = first ? n : m_begin;
         added = true;
         m_size++;
         return;
diff --git a/include/cest/set.hpp b/include/cest/set.hpp
index 860d798..148c5f5 100644
--- a/include/cest/set.hpp
+++ b/include/cest/set.hpp
@@ -217,6 +217,8 @@ public:
     node *ret_node = nullptr; // node added; or the one that prevents insertion
     auto ins = [this,&added,&value,&ret_node](node *&n, node *p, auto &ins_rec) {
       if (!n) {
+        // before the node is linked: the comparison may throw
+        const bool first = !m_begin || m_comp(value,m_begin->x);
         ret_node = m_node_alloc.allocate(1);
         try {
           std::construct_at(ret_node,value,nullptr,nullptr,p,RED);
@@ -225,7 +227,7 @@ public:
           throw;
         }
         n = ret_node;
-        m_begin = (!m_begin || m_comp(value,m_begin->x)) ? n : m_begin;
+        m_begin = first ? n : m_begin;
         added = true;
         m_size++;
         return;
-- 
2.43.0


From 80aac94b7ed28f9affba72307472fd254754cb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:05 +0000
Subject: [PATCH 39/48] fix: shared_ptr leaked the object when its control
 block could not be allocated

---
 include/cest/shared_ptr.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/cest/shared_ptr.hpp b/include/cest/shared_ptr.hpp
index e0877ab..574826b 100644
--- a/include/cest/shared_ptr.hpp
+++ b/include/cest/shared_ptr.hpp
@@ -93,11 +93,19 @@ public:
 
   template <class Y>
   explicit constexpr shared_ptr_base(Y* ptr)
-    : ptr_{ptr}, pctrl_{new ctrl_derived<Y,def_del<Y>>{ptr,def_del<Y>{}}} {}
+    : shared_ptr_base{ptr, def_del<Y>{}} {}
 
   template <class Y, class Deleter>
   constexpr shared_ptr_base(Y* ptr, Deleter del)
-    : ptr_{ptr}, pctrl_{new ctrl_derived<Y,Deleter>{ptr,del}} {}
+    : ptr_{ptr}
+  {
+    try {
+      pctrl_ = new ctrl_derived<Y,Deleter>{ptr,del};
+    } catch (...) {
+      del(ptr); // ptr is owned from the start
+      throw;
+    }
+  }
 
   constexpr shared_ptr_base(const shared_ptr_base& r) noexcept
     : ptr_{r.ptr_}, pctrl_{r.pctrl_} { if (pctrl_) ++pctrl_->count_; }
-- 
2.43.0


From 2405936d7ee61b06d311876c7505586f8a332fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:41 +0000
Subject: [PATCH 40/48] fix: a unique_ptr or shared_ptr to anything but
 characters could not be printed

---
 include/cest/ostream.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/cest/ostream.hpp b/include/cest/ostream.hpp
index 5bce528..387deb6 100644
--- a/include/cest/ostream.hpp
+++ b/include/cest/ostream.hpp
@@ -76,6 +76,11 @@ public:
     return *this;
   }
 
+  constexpr __ostream_type& operator<<(const void* value)                     {
+    impl::runtime_ostream(*this, value);
+    return *this;
+  }
+
   constexpr __ostream_type& flush();
 
   protected:
-- 
2.43.0


From 3a95016934ce09a07fa66c55abd14f062ec10cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:31 +0000
Subject: [PATCH 41/48] fix: str() of a string buffer, which str() of the
 string streams calls, was missing

---
 include/cest/sstream.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cest/sstream.hpp b/include/cest/sstream.hpp
index 4809b3e..8dd0f85 100644
--- a/include/cest/sstream.hpp
+++ b/include/cest/sstream.hpp
@@ -51,6 +51,8 @@ public:
     _M_string(__str.data(), __str.size(), __str.get_allocator())
   { _M_stringbuf_init(__mode); }
 
+  constexpr __string_type str() const { return _M_string; }
+
   constexpr void str(const __string_type& __s)
   {
     _M_string = __s;
-- 
2.43.0


From 18ba583b9b4cb05cdb6aa9590e1220adb02d462c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:28 +0000
Subject: [PATCH 42/48] fix: a short was printed as an int in hex and oct, and
 other integer types not at all

---
 include/cest/ostream.hpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/include/cest/ostream.hpp b/include/cest/ostream.hpp
index 387deb6..eabbd7e 100644
--- a/include/cest/ostream.hpp
+++ b/include/cest/ostream.hpp
@@ -76,6 +76,32 @@ public:
     return *this;
   }
 
+  // in hex and oct, a short is told in its own width
+  constexpr __ostream_type& operator<<(short value)                           {
+    impl::runtime_ostream(*this, value);
+    return *this;
+  }
+
+  constexpr __ostream_type& operator<<(unsigned short value)                  {
+    impl::runtime_ostream(*this, value);
+    return *this;
+  }
+
+  constexpr __ostream_type& operator<<(unsigned long value)                   {
+    impl::runtime_ostream(*this, value);
+    return *this;
+  }
+
+  constexpr __ostream_type& operator<<(long long value)                       {
+    impl::runtime_ostream(*this, value);
+    return *this;
+  }
+
+  constexpr __ostream_type& operator<<(unsigned long long value)              {
+    impl::runtime_ostream(*this, value);
+    return *this;
+  }
+
   constexpr __ostream_type& operator<<(const void* value)                     {
     impl::runtime_ostream(*this, value);
     return *this;
-- 
2.43.0


From 720cb06356a392ecf71a1db66bdf3d801bc33555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:28 +0000
Subject: [PATCH 43/48] fix: signed and unsigned char were printed as numbers,
 and strings of them as addresses

---
 include/cest/ostream.hpp | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/include/cest/ostream.hpp b/include/cest/ostream.hpp
index eabbd7e..c93dc03 100644
--- a/include/cest/ostream.hpp
+++ b/include/cest/ostream.hpp
@@ -137,6 +137,37 @@ operator<<(basic_ostream<CharT,Traits>& os, const CharT* s)
   return os;
 }
 
+// signed and unsigned char are characters too
+template <class Traits>
+constexpr basic_ostream<char,Traits>&
+operator<<(basic_ostream<char,Traits>& os, signed char ch)
+{
+  return os << static_cast<char>(ch);
+}
+
+template <class Traits>
+constexpr basic_ostream<char,Traits>&
+operator<<(basic_ostream<char,Traits>& os, unsigned char ch)
+{
+  return os << static_cast<char>(ch);
+}
+
+template <class Traits>
+constexpr basic_ostream<char,Traits>&
+operator<<(basic_ostream<char,Traits>& os, const signed char* s)
+{
+  impl::runtime_ostream(os, s);
+  return os;
+}
+
+template <class Traits>
+constexpr basic_ostream<char,Traits>&
+operator<<(basic_ostream<char,Traits>& os, const unsigned char* s)
+{
+  impl::runtime_ostream(os, s);
+  return os;
+}
+
 template <class CharT, class Traits >
 constexpr basic_ostream<CharT,Traits> &
 endl(basic_ostream<CharT, Traits> &os)
-- 
2.43.0


From 032b62b29c676b182ac8cb5684e92ac798945ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:49 +0000
Subject: [PATCH 44/48] fix: flush() on cout, cerr and clog did not flush the
 standard stream

---
 include/cest/iostream.hpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/include/cest/iostream.hpp b/include/cest/iostream.hpp
index c7ffc4f..99f6518 100644
--- a/include/cest/iostream.hpp
+++ b/include/cest/iostream.hpp
@@ -8,9 +8,24 @@
 namespace cest {
 
 namespace impl {
-  basic_stringbuf cout(string("cout"));
-  basic_stringbuf cerr(string("cerr"));
-  basic_stringbuf clog(string("clog"));
+  // flushing the stream flushes the standard one
+  template <std::ostream& os>
+  struct runtime_buf : basic_stringbuf<char>
+  {
+    using basic_stringbuf<char>::basic_stringbuf;
+
+  protected:
+    constexpr int sync() override
+    {
+      if (!std::is_constant_evaluated())
+        os.flush();
+      return 0;
+    }
+  };
+
+  runtime_buf<std::cout> cout(string("cout"));
+  runtime_buf<std::cerr> cerr(string("cerr"));
+  runtime_buf<std::clog> clog(string("clog"));
   basic_stringbuf cin(string("cin"));
 }
 
-- 
2.43.0


From 4863ee30d2218d756e358cdd8ae8a53a0fa6b64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:49 +0000
Subject: [PATCH 45/48] fix: fprintf read out of bounds when an argument could
 not be converted

---
 include/cest/cstdio.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cest/cstdio.hpp b/include/cest/cstdio.hpp
index 6ddb4ed..b22b781 100644
--- a/include/cest/cstdio.hpp
+++ b/include/cest/cstdio.hpp
@@ -46,6 +46,7 @@ constexpr int fprintf(ostream* stream, const char* format, Ts&&... xs)
   if (!std::is_constant_evaluated())
   {
     int nbytes = std::snprintf(nullptr, 0, format, std::forward<Ts>(xs)...);
+    if (nbytes < 0) return nbytes; // an error; nothing to output
     char *psz = new char[nbytes+1];
     std::snprintf(psz, nbytes+1, format, std::forward<Ts>(xs)...);
     (*stream) << string(psz, nbytes);
-- 
2.43.0


From 0d20de8d9b02fe2bfb20dbe34906882138c20d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:35 +0000
Subject: [PATCH 46/48] fix: a copy of a stream buffer had uninitialised get
 and put areas

---
 include/cest/streambuf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cest/streambuf.hpp b/include/cest/streambuf.hpp
index a2ff25a..44b081f 100644
--- a/include/cest/streambuf.hpp
+++ b/include/cest/streambuf.hpp
@@ -94,7 +94,7 @@ protected:
 //  _M_buf_locale(locale())
   { }
 
-  constexpr basic_streambuf(const basic_streambuf& /*rhs*/) {}
+  constexpr basic_streambuf(const basic_streambuf&) = default;
 
   constexpr char_type*
   eback() const { return _M_in_beg; }
-- 
2.43.0


From 5666abb908d2fa7655e4025f56c0c244517d8de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:35 +0000
Subject: [PATCH 47/48] fix: complex, streambuf and ios_base headers did not
 compile on their own

---
 include/cest/complex.hpp   | 2 ++
 include/cest/ios_base.hpp  | 2 ++
 include/cest/streambuf.hpp | 4 ++++
 3 files changed, 8 insertions(+)

diff --git a/include/cest/complex.hpp b/include/cest/complex.hpp
index 665f7c4..7f5fee3 100644
--- a/include/cest/complex.hpp
+++ b/include/cest/complex.hpp
@@ -9,6 +9,8 @@
 
 #include <type_traits>
 #include "cest/algorithm.hpp"
+#include "cest/cmath.hpp"
+#include "cest/istream.hpp"
 
 // Get rid of a macro possibly defined in <complex.h>
 #undef complex
diff --git a/include/cest/ios_base.hpp b/include/cest/ios_base.hpp
index c51d052..e36f348 100644
--- a/include/cest/ios_base.hpp
+++ b/include/cest/ios_base.hpp
@@ -1,6 +1,8 @@
 #ifndef _CEST_IOS_BASE_HPP_
 #define _CEST_IOS_BASE_HPP_
 
+#include <ios> // std::streamsize
+
 namespace cest {
 
   enum _Ios_Fmtflags
diff --git a/include/cest/streambuf.hpp b/include/cest/streambuf.hpp
index 44b081f..8be9f32 100644
--- a/include/cest/streambuf.hpp
+++ b/include/cest/streambuf.hpp
@@ -1,6 +1,10 @@
 #ifndef _CEST_STREAMBUF_HPP_
 #define _CEST_STREAMBUF_HPP_
 
+#include "ios_base.hpp" // cest::streamsize
+#include <algorithm>    // std::min
+#include <string>       // std::char_traits
+
 namespace cest {
 
 #define _IsUnused __attribute__ ((__unused__))
-- 
2.43.0


From 00b151ab9f9bf9549824321f72f656be7d900c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:20 +0000
Subject: [PATCH 48/48] fix: a deque ignored the allocator it was constructed
 with

---
 include/cest/deque.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cest/deque.hpp b/include/cest/deque.hpp
index 94ecf82..e254a35 100644
--- a/include/cest/deque.hpp
+++ b/include/cest/deque.hpp
@@ -154,7 +154,9 @@ public:
     value_type* const* m_ppchunk = nullptr; // address of the vector element
   };
 
-  constexpr deque()
+  constexpr deque() : deque(Allocator()) {}
+
+  explicit constexpr deque(const Allocator& alloc) : m_alloc(alloc)
   {
     m_front = CHUNK_SIZE / 2;
     m_back  = CHUNK_SIZE / 2 - 1;
@@ -170,7 +172,7 @@ public:
   }
 
   constexpr deque(std::initializer_list<T> init,
-                  const Allocator& alloc = Allocator()) : deque()
+                  const Allocator& alloc = Allocator()) : deque(alloc)
   {
     for (const auto &x : init) { push_back(x); }
   }
-- 
2.43.0


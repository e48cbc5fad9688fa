From 61131331e000f664cac2e4085f8fd891df533c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:17 +0000
Subject: [PATCH 01/18] fix: thread_pool::run_at assigned the scheduler thread
 without holding the mutex

---
 include/pluto/thread_pool.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pluto/thread_pool.hpp b/include/pluto/thread_pool.hpp
index e0a2ac1..362a5d2 100644
--- a/include/pluto/thread_pool.hpp
+++ b/include/pluto/thread_pool.hpp
@@ -303,7 +303,7 @@ namespace pluto
 
             if (!m_scheduler.joinable())
             {
-                lock.unlock();
+                // Keep the mutex locked, since other threads and the scheduler itself use m_scheduler
                 m_scheduler = std::thread{ &thread_pool::start_scheduling, this };
             }
             else if (time == m_scheduledTasks.begin()->first)
-- 
2.43.0


From 77e18435a9f98cd6d75335d786f1977a1615302f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:17 +0000
Subject: [PATCH 02/18] fix: thread_pool dropped tasks when destroyed with
 complete_tasks during a pending shrink

---
 include/pluto/thread_pool.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/pluto/thread_pool.hpp b/include/pluto/thread_pool.hpp
index 362a5d2..21f8e54 100644
--- a/include/pluto/thread_pool.hpp
+++ b/include/pluto/thread_pool.hpp
@@ -386,8 +386,10 @@ namespace pluto
         {
             std::unique_lock<std::mutex> lock{ m_mutex };
 
-            while (m_workers.size() <= m_targetWorkersSize &&
-                (!m_isStopping || (m_onStop == action::complete_tasks && !m_waitingTasks.empty())))
+            // When stopping, a pending resize no longer matters. Otherwise waiting tasks could be left without workers.
+            while (m_isStopping ?
+                (m_onStop == action::complete_tasks && !m_waitingTasks.empty()) :
+                (m_workers.size() <= m_targetWorkersSize))
             {
                 if (m_waitingTasks.empty())
                 {
-- 
2.43.0


From 39c88f2e3bec151218e2a413a5dacb5c2307788b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:17 +0000
Subject: [PATCH 03/18] fix: wait_until_all_tasks_complete never returned when
 the last active worker left the pool

---
 include/pluto/thread_pool.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/pluto/thread_pool.hpp b/include/pluto/thread_pool.hpp
index 21f8e54..ce82ccb 100644
--- a/include/pluto/thread_pool.hpp
+++ b/include/pluto/thread_pool.hpp
@@ -418,6 +418,12 @@ namespace pluto
 
                     lock.lock();
                     --m_activeWorkersSize;
+
+                    // This worker may leave instead of becoming idle, so it has to notify here
+                    if (m_waitingTasks.empty() && m_activeWorkersSize == 0)
+                    {
+                        m_tasksCompleteCondition.notify_all();
+                    }
                 }
             }
 
-- 
2.43.0


From a5864b86a6e89af99ba1f20fc4da1c4f3bfdbc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:59 +0000
Subject: [PATCH 04/18] fix: destroying a logger could hang when the logging
 thread was about to wait

---
 include/pluto/logger.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/pluto/logger.hpp b/include/pluto/logger.hpp
index 94100e4..b16d7aa 100644
--- a/include/pluto/logger.hpp
+++ b/include/pluto/logger.hpp
@@ -380,7 +380,12 @@ namespace pluto
 
         ~logger()
         {
-            m_isLogging.store(false);
+            {
+                // Lock so the logging thread can't miss this between its check and its wait
+                const std::unique_lock<std::mutex> lock{ m_loggingMutex };
+                m_isLogging.store(false);
+            }
+
             m_loggingCondition.notify_all();
 
             if (m_loggingThread.joinable())
-- 
2.43.0


From 7c493e7da3729e824c50e6be6adaf234ba1f32c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:59 +0000
Subject: [PATCH 05/18] fix: lowering the logger's flush size could leave
 buffered logs unwritten

---
 include/pluto/logger.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/pluto/logger.hpp b/include/pluto/logger.hpp
index b16d7aa..8bf8d78 100644
--- a/include/pluto/logger.hpp
+++ b/include/pluto/logger.hpp
@@ -559,7 +559,12 @@ namespace pluto
 
         inline logger& buffer_flush_size(const std::size_t bufferFlushSize)
         {
-            m_bufferFlushSize.store(bufferFlushSize);
+            {
+                // Lock so the logging thread can't miss this between its check and its wait
+                const std::unique_lock<std::mutex> lock{ m_loggingMutex };
+                m_bufferFlushSize.store(bufferFlushSize);
+            }
+
             m_loggingCondition.notify_one(); // wake the logging thread
             return *this;
         }
-- 
2.43.0


From 23198c8572dbfe82471fa1dd3e5445ff48545877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:59 +0000
Subject: [PATCH 06/18] fix: writef logged the scheme instead of an empty
 message

---
 include/pluto/logger.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pluto/logger.hpp b/include/pluto/logger.hpp
index 8bf8d78..13c3718 100644
--- a/include/pluto/logger.hpp
+++ b/include/pluto/logger.hpp
@@ -648,7 +648,7 @@ namespace pluto
                 {
                     // Create message from scheme and args
                     auto messageLength{ std::vsnprintf(nullptr, 0, scheme, args) };
-                    if (0 < messageLength)
+                    if (0 <= messageLength)
                     {
                         message.resize(messageLength + 1);
                         if (std::vsnprintf(&message[0], message.size(), scheme, argsCopy) == messageLength)
-- 
2.43.0


From d9e335b41c109460afce987d8bc982ca8e957dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 07/18] fix: an exception in lru_cache could leave unreachable
 or excess entries

---
 include/pluto/lru_cache.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/pluto/lru_cache.hpp b/include/pluto/lru_cache.hpp
index 0ed430c..67978e1 100644
--- a/include/pluto/lru_cache.hpp
+++ b/include/pluto/lru_cache.hpp
@@ -61,20 +61,20 @@ namespace pluto
 
         void capacity(const std::size_t newCapacity)
         {
-            m_capacity = newCapacity;
-
-            if (m_capacity == 0)
+            if (newCapacity == 0)
             {
                 clear();
             }
             else
             {
                 // While cache is above capacity, evict the least recently used item
-                while (m_capacity < size())
+                while (newCapacity < size())
                 {
                     evict_lru();
                 }
             }
+
+            m_capacity = newCapacity;
         }
 
         inline bool insert(const key_type& key, const value_type& value)
@@ -128,8 +128,11 @@ namespace pluto
                         evict_lru();
                     }
 
-                    m_list.push_front(key);
-                    m_map.emplace(key, std::make_pair(value, m_list.begin()));
+                    // Nothing below changes the cache before everything that can throw is done
+                    list_type node{};
+                    node.push_front(key);
+                    m_map.emplace(key, std::make_pair(value, node.begin()));
+                    m_list.splice(m_list.begin(), node);
                 }
 
                 result = true;
@@ -150,10 +153,7 @@ namespace pluto
             auto itList{ itMap->second.second };
             if (itList != m_list.begin())
             {
-                m_list.erase(itList);
-                m_list.push_front(itMap->first);
-
-                itMap->second.second = m_list.begin();
+                m_list.splice(m_list.begin(), m_list, itList);
             }
         }
 
-- 
2.43.0


From d174d5d62b75307c7aeae507a0498ea15c5f6fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:13 +0000
Subject: [PATCH 08/18] fix: copying an lru_cache left the copy's entries
 referring to the original's list

---
 include/pluto/lru_cache.hpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/include/pluto/lru_cache.hpp b/include/pluto/lru_cache.hpp
index 67978e1..d466a6b 100644
--- a/include/pluto/lru_cache.hpp
+++ b/include/pluto/lru_cache.hpp
@@ -33,6 +33,28 @@ namespace pluto
         inline explicit lru_cache(const std::size_t capacity) :
             m_capacity{ capacity } {}
 
+        lru_cache(const lru_cache& other) :
+            m_capacity  { other.m_capacity },
+            m_list      ( other.m_list )
+        {
+            // Map must refer to positions in our own list
+            for (auto itList{ m_list.begin() }; itList != m_list.end(); ++itList)
+            {
+                m_map.emplace(*itList, std::make_pair(other.m_map.find(*itList)->second.first, itList));
+            }
+        }
+
+        lru_cache(lru_cache&&) = default;
+
+        ~lru_cache() = default;
+
+        inline lru_cache& operator=(const lru_cache& other)
+        {
+            return *this = lru_cache{ other };
+        }
+
+        lru_cache& operator=(lru_cache&&) = default;
+
         PLUTO_UTILS_NODISCARD inline std::size_t size() const
         {
             return m_map.size();
-- 
2.43.0


From 44f59d135e8268659a7997e9e2e61656b605a247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:08 +0000
Subject: [PATCH 09/18] fix: a scope guard ran a task again, and lost another,
 when a task added one

---
 include/pluto/scope.hpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/pluto/scope.hpp b/include/pluto/scope.hpp
index 82b6ad2..78721dd 100644
--- a/include/pluto/scope.hpp
+++ b/include/pluto/scope.hpp
@@ -9,6 +9,7 @@
 #define PLUTO_UTILS_SCOPE_HPP
 
 #include <stack>
+#include <utility>
 #include <exception>
 #include <functional>
 
@@ -30,9 +31,11 @@ namespace pluto
 
         ~on_scope_exit()
         {
-            for (; !m_tasks.empty(); m_tasks.pop())
+            while (!m_tasks.empty())
             {
-                const auto& task{ m_tasks.top() };
+                // Task may add others so it has to be off the stack first
+                const auto task{ std::move(m_tasks.top()) };
+                m_tasks.pop();
 
                 if (task)
                 {
@@ -79,9 +82,11 @@ namespace pluto
             if (!std::uncaught_exception())
 #endif
             {
-                for (; !m_tasks.empty(); m_tasks.pop())
+                while (!m_tasks.empty())
                 {
-                    const auto& task{ m_tasks.top() };
+                    // Task may add others so it has to be off the stack first
+                    const auto task{ std::move(m_tasks.top()) };
+                    m_tasks.pop();
 
                     if (task)
                     {
@@ -129,9 +134,11 @@ namespace pluto
             if (std::uncaught_exception())
 #endif
             {
-                for (; !m_tasks.empty(); m_tasks.pop())
+                while (!m_tasks.empty())
                 {
-                    const auto& task{ m_tasks.top() };
+                    // Task may add others so it has to be off the stack first
+                    const auto task{ std::move(m_tasks.top()) };
+                    m_tasks.pop();
 
                     if (task)
                     {
-- 
2.43.0


From 0d95acfb5b0b55f2dce6f7d48e9d60e7c28a7963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:08 +0000
Subject: [PATCH 10/18] fix: success and failure guards misjudged a scope
 entered while another exception is in flight

---
 include/pluto/scope.hpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/pluto/scope.hpp b/include/pluto/scope.hpp
index 78721dd..83bf029 100644
--- a/include/pluto/scope.hpp
+++ b/include/pluto/scope.hpp
@@ -66,6 +66,13 @@ namespace pluto
     {
         std::stack<std::function<void()>> m_tasks{};
 
+        // Exceptions in flight when the scope was entered have nothing to do with how it is left
+#if PLUTO_UTILS_HAS_CXX_17
+        const int m_exceptions{ std::uncaught_exceptions() };
+#else
+        const bool m_exceptions{ std::uncaught_exception() };
+#endif
+
     public:
         inline on_scope_success() = default;
 
@@ -77,9 +84,9 @@ namespace pluto
         ~on_scope_success()
         {
 #if PLUTO_UTILS_HAS_CXX_17
-            if (std::uncaught_exceptions() == 0)
+            if (std::uncaught_exceptions() == m_exceptions)
 #else
-            if (!std::uncaught_exception())
+            if (std::uncaught_exception() == m_exceptions)
 #endif
             {
                 while (!m_tasks.empty())
@@ -118,6 +125,13 @@ namespace pluto
     {
         std::stack<std::function<void()>> m_tasks{};
 
+        // Exceptions in flight when the scope was entered have nothing to do with how it is left
+#if PLUTO_UTILS_HAS_CXX_17
+        const int m_exceptions{ std::uncaught_exceptions() };
+#else
+        const bool m_exceptions{ std::uncaught_exception() };
+#endif
+
     public:
         inline on_scope_fail() = default;
 
@@ -129,9 +143,9 @@ namespace pluto
         ~on_scope_fail()
         {
 #if PLUTO_UTILS_HAS_CXX_17
-            if (std::uncaught_exceptions() != 0)
+            if (std::uncaught_exceptions() != m_exceptions)
 #else
-            if (std::uncaught_exception())
+            if (std::uncaught_exception() != m_exceptions)
 #endif
             {
                 while (!m_tasks.empty())
-- 
2.43.0


From 4d6042a31a20384f12c68480e2283233a457a28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:08 +0000
Subject: [PATCH 11/18] fix: case-insensitive comparators dangled once their
 locale object was gone

---
 include/pluto/compare.hpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/pluto/compare.hpp b/include/pluto/compare.hpp
index d2dc899..86f9bda 100644
--- a/include/pluto/compare.hpp
+++ b/include/pluto/compare.hpp
@@ -47,10 +47,12 @@ namespace pluto
     template<class Elem>
     struct is_iequal
     {
+        const std::locale       locale; // Keeps facet alive
         const std::ctype<Elem>& facet;
 
         inline explicit is_iequal(const std::locale& locale = pluto::default_locale()) :
-            facet{ pluto::use_facet<Elem>(locale) } {}
+            locale{ locale },
+            facet{ pluto::use_facet<Elem>(this->locale) } {}
 
         PLUTO_UTILS_NODISCARD inline bool operator()(const Elem& left, const Elem& right) const
         {
@@ -61,10 +63,12 @@ namespace pluto
     template<class Elem>
     struct is_not_iequal
     {
+        const std::locale       locale; // Keeps facet alive
         const std::ctype<Elem>& facet;
 
         inline explicit is_not_iequal(const std::locale& locale = pluto::default_locale()) :
-            facet{ pluto::use_facet<Elem>(locale) } {}
+            locale{ locale },
+            facet{ pluto::use_facet<Elem>(this->locale) } {}
 
         PLUTO_UTILS_NODISCARD inline bool operator()(const Elem& left, const Elem& right) const
         {
@@ -75,10 +79,12 @@ namespace pluto
     template<class Elem>
     struct is_iless
     {
+        const std::locale       locale; // Keeps facet alive
         const std::ctype<Elem>& facet;
 
         inline explicit is_iless(const std::locale& locale = pluto::default_locale()) :
-            facet{ pluto::use_facet<Elem>(locale) } {}
+            locale{ locale },
+            facet{ pluto::use_facet<Elem>(this->locale) } {}
 
         PLUTO_UTILS_NODISCARD inline bool operator()(const Elem& left, const Elem& right) const
         {
@@ -89,10 +95,12 @@ namespace pluto
     template<class Elem>
     struct is_igreater
     {
+        const std::locale       locale; // Keeps facet alive
         const std::ctype<Elem>& facet;
 
         inline explicit is_igreater(const std::locale& locale = pluto::default_locale()) :
-            facet{ pluto::use_facet<Elem>(locale) } {}
+            locale{ locale },
+            facet{ pluto::use_facet<Elem>(this->locale) } {}
 
         PLUTO_UTILS_NODISCARD inline bool operator()(const Elem& left, const Elem& right) const
         {
@@ -103,10 +111,12 @@ namespace pluto
     template<class Elem>
     struct is_iless_equal
     {
+        const std::locale       locale; // Keeps facet alive
         const std::ctype<Elem>& facet;
 
         inline explicit is_iless_equal(const std::locale& locale = pluto::default_locale()) :
-            facet{ pluto::use_facet<Elem>(locale) } {}
+            locale{ locale },
+            facet{ pluto::use_facet<Elem>(this->locale) } {}
 
         PLUTO_UTILS_NODISCARD inline bool operator()(const Elem& left, const Elem& right) const
         {
@@ -117,10 +127,12 @@ namespace pluto
     template<class Elem>
     struct is_igreater_equal
     {
+        const std::locale       locale; // Keeps facet alive
         const std::ctype<Elem>& facet;
 
         inline explicit is_igreater_equal(const std::locale& locale = pluto::default_locale()) :
-            facet{ pluto::use_facet<Elem>(locale) } {}
+            locale{ locale },
+            facet{ pluto::use_facet<Elem>(this->locale) } {}
 
         PLUTO_UTILS_NODISCARD inline bool operator()(const Elem& left, const Elem& right) const
         {
-- 
2.43.0


From c36f04f972dbe19e4fae7df2f54f76c3b19cf3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:41 +0000
Subject: [PATCH 12/18] fix: len and slice used std::size, which C++14 does not
 have, so the headers did not compile there

---
 include/pluto/container.hpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/pluto/container.hpp b/include/pluto/container.hpp
index 6bb714e..ceeca88 100644
--- a/include/pluto/container.hpp
+++ b/include/pluto/container.hpp
@@ -189,13 +189,25 @@ namespace pluto
         return pluto::map<Container<Destination>, Container<Sources...>, Function>(source, function);
     }
 
+    template<class Container>
+    PLUTO_UTILS_NODISCARD_CONSTEXPR auto len(const Container& container)
+    {
+        return container.size();
+    }
+
+    template<class Elem, std::size_t Size>
+    PLUTO_UTILS_NODISCARD_CONSTEXPR std::size_t len(const Elem (&)[Size])
+    {
+        return Size;
+    }
+
     template<class Container>
     PLUTO_UTILS_NODISCARD_CONSTEXPR Container slice(
         const Container&    container,
         long long           start,
         long long           stop)
     {
-        const auto size{ static_cast<long long>(std::size(container)) };
+        const auto size{ static_cast<long long>(pluto::len(container)) };
 
         if (start < 0)          { start += size; if (start < 0) { start = 0; } }
         if (stop < 0)           { stop += size; }
@@ -219,12 +231,6 @@ namespace pluto
         return pluto::slice(container, 0, stop);
     }
 
-    template<class Container>
-    PLUTO_UTILS_NODISCARD_CONSTEXPR auto len(const Container& container)
-    {
-        return std::size(container);
-    }
-
     template<class Container, class Predicate = pluto::is_true>
     PLUTO_UTILS_NODISCARD_CONSTEXPR bool any(
         const Container&    container,
-- 
2.43.0


From c326abcc672b182d10f0ae7eccb8fdf79d0322cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:23 +0000
Subject: [PATCH 13/18] fix: str_to and wstr_to returned an uninitialised value
 for empty and blank text

---
 include/pluto/string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pluto/string.hpp b/include/pluto/string.hpp
index 39bc912..9d06f2c 100644
--- a/include/pluto/string.hpp
+++ b/include/pluto/string.hpp
@@ -295,7 +295,7 @@ namespace pluto
     template<class Value>
     PLUTO_UTILS_NODISCARD inline Value str_to(const std::string& string)
     {
-        Value value;
+        Value value{};
         std::istringstream{ string } >> value;
         return value;
     }
@@ -309,7 +309,7 @@ namespace pluto
     template<class Value>
     PLUTO_UTILS_NODISCARD inline Value wstr_to(const std::wstring& wstring)
     {
-        Value value;
+        Value value{};
         std::wistringstream{ wstring } >> value;
         return value;
     }
-- 
2.43.0


From 180b553038841dc5946827620c38ac6ca3343085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:48 +0000
Subject: [PATCH 14/18] fix: starts_with and ends_with swapped the predicate's
 arguments for random access iterators

---
 include/pluto/iterator.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/pluto/iterator.hpp b/include/pluto/iterator.hpp
index aa311c0..b5d0cec 100644
--- a/include/pluto/iterator.hpp
+++ b/include/pluto/iterator.hpp
@@ -47,7 +47,8 @@ namespace pluto
 #if PLUTO_UTILS_HAS_CXX_20
         if constexpr (std::random_access_iterator<IteratorLeft> && std::random_access_iterator<IteratorRight>)
         {
-            return (((endR - beginR) <= (endL - beginL)) && pluto::equals_same_size(beginR, endR, beginL, predicate));
+            const auto sizeR{ endR - beginR };
+            return ((sizeR <= (endL - beginL)) && pluto::equals_same_size(beginL, (beginL + sizeR), beginR, predicate));
         }
 #endif
 
@@ -75,7 +76,7 @@ namespace pluto
         if constexpr (std::random_access_iterator<IteratorLeft> && std::random_access_iterator<IteratorRight>)
         {
             const auto sizeR{ endR - beginR };
-            return ((sizeR <= (endL - beginL)) && pluto::equals_same_size(beginR, endR, (endL - sizeR), predicate));
+            return ((sizeR <= (endL - beginL)) && pluto::equals_same_size((endL - sizeR), endL, beginR, predicate));
         }
 #endif
 
-- 
2.43.0


From d60bb07ea3ff2ed98f7da3cbdd86cac302258128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:06 +0000
Subject: [PATCH 15/18] fix: destroy a finished task before locking the pool's
 mutex

A worker destroyed the task it had run while holding the mutex. The destructor of
anything the task captured could therefore not use the pool: it locked the same
mutex again and the worker, and with it every caller, hung.
---
 include/pluto/thread_pool.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/pluto/thread_pool.hpp b/include/pluto/thread_pool.hpp
index ce82ccb..5081254 100644
--- a/include/pluto/thread_pool.hpp
+++ b/include/pluto/thread_pool.hpp
@@ -403,7 +403,7 @@ namespace pluto
                 else
                 {
                     const auto begin{ m_waitingTasks.begin() };
-                    const auto task { std::move(begin->second) };
+                    auto task{ std::move(begin->second) };
                     m_waitingTasks.erase(begin);
 
                     if (m_waitingTasks.empty())
@@ -416,6 +416,9 @@ namespace pluto
 
                     task();
 
+                    // Destroy the task before re-locking, since destructors of what it captured may use this thread pool.
+                    task = nullptr;
+
                     lock.lock();
                     --m_activeWorkersSize;
 
-- 
2.43.0


From 7d521db4b93c95521f52a33579312302edf13ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:22 +0000
Subject: [PATCH 16/18] fix: run_after with a very long duration ran the task
 at once

---
 include/pluto/thread_pool.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/pluto/thread_pool.hpp b/include/pluto/thread_pool.hpp
index 5081254..d663317 100644
--- a/include/pluto/thread_pool.hpp
+++ b/include/pluto/thread_pool.hpp
@@ -327,7 +327,11 @@ namespace pluto
             const std::function<void()>&    task,
             const signed char               priority = PLUTO_THREAD_POOL_PRIORITY_NORMAL)
         {
-            run_at((clock_type::now() + duration), task, priority);
+            const auto now{ clock_type::now() };
+            const auto latest{ (clock_type::time_point::max)() };
+
+            // A duration too long for the clock is as long as possible, it must not wrap around into the past
+            run_at(((duration < (latest - now)) ? (now + duration) : latest), task, priority);
         }
 
         inline void run_after(
-- 
2.43.0


From daa2cea91f3273c0d2b2ed4cc6c15329f3c7cd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:31 +0000
Subject: [PATCH 17/18] fix: a failed write made the logger rotate and drop
 files far below the rotation size

---
 include/pluto/logger.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/pluto/logger.hpp b/include/pluto/logger.hpp
index 13c3718..9939869 100644
--- a/include/pluto/logger.hpp
+++ b/include/pluto/logger.hpp
@@ -850,6 +850,13 @@ namespace pluto
 
                 while (itWritten != begin)
                 {
+                    // The size is unknown after a failed write, that must not look like a full file
+                    if (!fileStream.good())
+                    {
+                        throw pluto::filesystem::filesystem_error{
+                            "pluto::logger failed to write file", std::make_error_code(std::errc::io_error) };
+                    }
+
                     fileSize = static_cast<std::size_t>(fileStream.tellp());
 
                     // Rotate file if needed
-- 
2.43.0


From 424135afcd8438c62668c8ffebd9360bcfeadd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:38 +0000
Subject: [PATCH 18/18] fix: rfind, rfind_if and rfind_if_not did not compile
 for pointers and arrays

---
 include/pluto/iterator.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/pluto/iterator.hpp b/include/pluto/iterator.hpp
index b5d0cec..853ab41 100644
--- a/include/pluto/iterator.hpp
+++ b/include/pluto/iterator.hpp
@@ -123,7 +123,7 @@ namespace pluto
 
         auto rit{ pluto::find(rbegin, rend, elem) };
 
-        return ((rit == rend) ? end : --(rit.base()));
+        return ((rit == rend) ? end : std::prev(rit.base()));
     }
 
 #if PLUTO_UTILS_HAS_CXX_17
@@ -159,7 +159,7 @@ namespace pluto
 
         auto rit{ pluto::find_if(rbegin, rend, predicate) };
 
-        return ((rit == rend) ? end : --(rit.base()));
+        return ((rit == rend) ? end : std::prev(rit.base()));
     }
 
     template<class Iterator, class Predicate>
@@ -182,7 +182,7 @@ namespace pluto
 
         auto rit{ pluto::find_if_not(rbegin, rend, predicate) };
 
-        return ((rit == rend) ? end : --(rit.base()));
+        return ((rit == rend) ? end : std::prev(rit.base()));
     }
 
     template<class Iterator, class Elem>
-- 
2.43.0


From c89a4f24acdef10624065c79de3de0247d4824f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 01/34] fix: static_heap statistics query does not compile and
 its result type is private

---
 include/xitren/allocators/static_heap.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/xitren/allocators/static_heap.hpp b/include/xitren/allocators/static_heap.hpp
index 847acf7..e890413 100644
--- a/include/xitren/allocators/static_heap.hpp
+++ b/include/xitren/allocators/static_heap.hpp
@@ -28,6 +28,7 @@ class static_heap {
         size_t               x_block_size;       /**< The size of the free block. */
     };
 
+public:
     /* Used to pass information about the heap. */
     using heap_stats_t = struct {
         size_t x_available_heap_space_in_bytes;
@@ -39,6 +40,7 @@ class static_heap {
         size_t x_number_of_successful_frees;
     };
 
+private:
     static constexpr std::size_t port_byte_alignment = 8;
 
     // static constexpr auto
@@ -489,7 +491,7 @@ public:
 
         v_task_suspend_all();
         {
-            px_block = heapPROTECT_BLOCK_POINTER(x_start_.px_next_free_block);
+            px_block = heap_protect_block_pointer(x_start_.px_next_free_block);
 
             /* pxBlock will be NULL if the heap has not been initialised.  The heap
              * is initialised automatically when the first allocation is made. */
@@ -509,7 +511,7 @@ public:
 
                     /* Move to the next block in the chain until the last block is
                      * reached. */
-                    px_block = heapPROTECT_BLOCK_POINTER(px_block->px_next_free_block);
+                    px_block = heap_protect_block_pointer(px_block->px_next_free_block);
                 }
             }
         }
-- 
2.43.0


From d3ddad6e92701dd1e77ae2dac0929541ec5e1e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 02/34] fix: a copied static_heap hands out the storage of the
 original

---
 include/xitren/allocators/static_heap.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/xitren/allocators/static_heap.hpp b/include/xitren/allocators/static_heap.hpp
index e890413..862683f 100644
--- a/include/xitren/allocators/static_heap.hpp
+++ b/include/xitren/allocators/static_heap.hpp
@@ -383,6 +383,11 @@ public:
     }
     /*-----------------------------------------------------------*/
 
+    static_heap(static_heap const&) = delete;
+    static_heap&
+    operator=(static_heap const&)
+        = delete;
+
     static_heap()
     {
         block_link_t* px_first_free_block;
-- 
2.43.0


From abb47b96b609b54c3d0130780e1d5d20f1328b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 03/34] fix: static_heap_allocator::allocate wraps around for
 huge element counts

size * sizeof(Type) overflowed and a tiny block was returned for a huge
request.
---
 include/xitren/allocators/static_heap_allocator.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/xitren/allocators/static_heap_allocator.hpp b/include/xitren/allocators/static_heap_allocator.hpp
index d7b92b4..2cc6965 100644
--- a/include/xitren/allocators/static_heap_allocator.hpp
+++ b/include/xitren/allocators/static_heap_allocator.hpp
@@ -42,6 +42,9 @@ public:
     Type*
     allocate(size_t size)    // NOLINT
     {
+        if (size > (~static_cast<std::size_t>(0)) / sizeof(Type)) {
+            throw std::bad_alloc();
+        }
         auto ptr = static_cast<Type*>(manager_.allocate(size * sizeof(Type)));
         if (ptr) {
             return ptr;
-- 
2.43.0


From de026399881aadad26f7cf7c207781c9f80e43e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 04/34] fix: allocators of the same static_heap never compare
 equal

Equality compared the addresses of the allocator objects, so splicing
lists of one heap aborted and allocators of other value types could not
be compared.
---
 include/xitren/allocators/static_heap_allocator.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/xitren/allocators/static_heap_allocator.hpp b/include/xitren/allocators/static_heap_allocator.hpp
index 2cc6965..3a382d8 100644
--- a/include/xitren/allocators/static_heap_allocator.hpp
+++ b/include/xitren/allocators/static_heap_allocator.hpp
@@ -60,14 +60,14 @@ public:
 
     template <typename U>
     constexpr bool
-    operator==(static_heap_allocator<U, PoolSize> const& other) noexcept
+    operator==(static_heap_allocator<U, PoolSize> const& other) const noexcept
     {
-        return this == &other;
+        return &manager_ == &other.manager_;
     }
 
     template <typename U>
     constexpr bool
-    operator!=(static_heap_allocator<U, PoolSize> const& other) noexcept
+    operator!=(static_heap_allocator<U, PoolSize> const& other) const noexcept
     {
         return !this->operator==(other);
     }
-- 
2.43.0


From 3571c68ee40ca505cae1af600d348faabccf98e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:50 +0000
Subject: [PATCH 05/34] fix: changing the subscriptions of a publisher inside a
 delivery skips or repeats observers

Deliveries and clearing iterated over the live list: an observer removed
inside a callback made its successor miss the notification or get it from
a dangling slot, an added one was reached (or invalidated the iteration)
and cleared ones were still notified.
---
 include/xitren/comm/observer.hpp | 105 +++++++++++++++++++++++++------
 1 file changed, 87 insertions(+), 18 deletions(-)

diff --git a/include/xitren/comm/observer.hpp b/include/xitren/comm/observer.hpp
index f2632b4..286d159 100644
--- a/include/xitren/comm/observer.hpp
+++ b/include/xitren/comm/observer.hpp
@@ -69,7 +69,17 @@ public:
     static constexpr uint32_t max_observers = Max;
     using observable_type                   = T;
     using size_type                         = std::size_t;
-    using observer_list                     = std::array<observer<T>*, max_observers>;
+    using order_type                        = std::uint64_t;
+
+    /**
+     * @brief A registered observer; the order number grows with every registration, so that a running delivery finds
+     * its place again after the list was changed
+     */
+    struct registration {
+        observer<T>* item;
+        order_type   order;
+    };
+    using observer_list = std::array<registration, max_observers>;
 
 public:
     /**
@@ -96,7 +106,7 @@ public:
         if (count_ >= max_observers) [[unlikely]]
             return observer_errors::list_is_full;
         if (!contains(observer)) [[likely]] {
-            observers_[count_++] = &observer;
+            observers_[count_++] = {&observer, next_order_++};
         } else [[unlikely]] {
             return observer_errors::already_contains;
         }
@@ -118,7 +128,8 @@ public:
             return observer_errors::internal_data_broken;
         if (count_ == 0) [[unlikely]]
             return observer_errors::not_found;
-        auto it = std::remove(observers_.begin(), observers_.begin() + count_, &observer);
+        auto it = std::remove_if(observers_.begin(), observers_.begin() + count_,
+                                 [&observer](auto const& reg) { return reg.item == &observer; });
         if ((observers_.begin() + count_) - it) {
             count_ = it - observers_.begin();
             return observer_errors::ok;
@@ -133,10 +144,13 @@ public:
     inline void
     clear_observers() noexcept
     {
-        for (auto& item : std::views::counted(observers_.begin(), count_)) {
+        auto const end_order = next_order_;
+        while (count_ > 0 && observers_.front().order < end_order) {
+            auto* const item = observers_.front().item;
+            std::move(observers_.begin() + 1, observers_.begin() + count_, observers_.begin());
+            count_--;
             item->disconnect(static_cast<void*>(this));
         }
-        count_ = 0;
     }
 
     /**
@@ -155,8 +169,11 @@ public:
         if (inside) [[unlikely]]
             return observer_errors::notify_recursion_detected;
         inside = true;
-        for (auto& item : std::views::counted(observers_.begin(), count_)) {
-            item->notification(static_cast<void*>(this), n);
+        auto const end_order = next_order_;
+        for (size_type i = 0; i < count_ && observers_[i].order < end_order;) {
+            auto const current = observers_[i];
+            current.item->notification(static_cast<void*>(this), n);
+            i = index_after(current.order);
         }
         inside = false;
         return observer_errors::ok;
@@ -171,11 +188,29 @@ private:
      * @brief The number of observers registered with the observable object
      */
     size_type count_{0};
+    /**
+     * @brief The order number of the next registration
+     */
+    order_type next_order_{0};
     /**
      * @brief A flag indicating whether a recursive notification call is being made
      */
     volatile bool inside{};
 
+    /**
+     * @brief Finds where a delivery goes on after the given registration
+     *
+     * @param order the order number of the last registration that was reached
+     * @return the position of the first later registration
+     */
+    constexpr size_type
+    index_after(order_type order) const noexcept
+    {
+        auto const it = std::upper_bound(observers_.begin(), observers_.begin() + count_, order,
+                                         [](auto value, auto const& reg) { return value < reg.order; });
+        return it - observers_.begin();
+    }
+
     /**
      * @brief Checks if an observer is registered with the observable object
      *
@@ -186,8 +221,8 @@ private:
     constexpr bool
     contains(observer<observable_type> const& observer) noexcept
     {
-        for (auto& item : std::views::counted(observers_.begin(), count_)) {
-            if (item == &observer) [[unlikely]]
+        for (auto& reg : std::views::counted(observers_.begin(), count_)) {
+            if (reg.item == &observer) [[unlikely]]
                 return true;
         }
         return false;
@@ -210,10 +245,24 @@ public:
      */
     using size_type = std::size_t;
 
+    /**
+     * @brief The type that numbers the registrations
+     */
+    using order_type = std::uint64_t;
+
+    /**
+     * @brief A registered observer; the order number grows with every registration, so that a running delivery finds
+     * its place again after the list was changed
+     */
+    struct registration {
+        observer<T>* item;
+        order_type   order;
+    };
+
     /**
      * @brief The observer list
      */
-    using observer_list = std::vector<observer<T>*>;
+    using observer_list = std::vector<registration>;
 
     /**
      * @brief The exception type
@@ -258,7 +307,7 @@ public:
         std::unique_lock<std::mutex> lock(access_);
 #endif
         if (!contains(observer)) [[likely]] {
-            observers_.push_back(&observer);
+            observers_.push_back({&observer, next_order_++});
         } else [[unlikely]] {
             throw exception{observer_errors::already_contains};
         }
@@ -278,7 +327,7 @@ public:
 #ifdef PTHREAD_MUTEX_DEFAULT
         std::unique_lock<std::mutex> lock(access_);
 #endif
-        if (!std::erase(observers_, &observer)) {
+        if (!std::erase_if(observers_, [&observer](auto const& reg) { return reg.item == &observer; })) {
             throw exception{observer_errors::not_found};
         }
     }
@@ -292,10 +341,12 @@ public:
 #ifdef PTHREAD_MUTEX_DEFAULT
         std::unique_lock<std::mutex> lock(access_);
 #endif
-        for (auto& item : observers_) {
+        auto const end_order = next_order_;
+        while (!observers_.empty() && observers_.front().order < end_order) {
+            auto* const item = observers_.front().item;
+            observers_.erase(observers_.begin());
             item->disconnect(static_cast<void*>(this));
         }
-        observers_.clear();
     }
 
     /**
@@ -312,17 +363,35 @@ public:
 #ifdef PTHREAD_MUTEX_DEFAULT
         std::unique_lock<std::mutex> lock(access_);
 #endif
-        for (auto& item : observers_) {
-            item->notification(static_cast<void*>(this), n);
+        auto const end_order = next_order_;
+        for (size_type i = 0; i < observers_.size() && observers_[i].order < end_order;) {
+            auto const current = observers_[i];
+            current.item->notification(static_cast<void*>(this), n);
+            i = index_after(current.order);
         }
     }
 
 private:
     observer_list observers_{};
+    order_type    next_order_{0};
 #ifdef PTHREAD_MUTEX_DEFAULT
     std::mutex access_{};
 #endif
 
+    /**
+     * @brief Finds where a delivery goes on after the given registration
+     *
+     * @param order the order number of the last registration that was reached
+     * @return the position of the first later registration
+     */
+    constexpr size_type
+    index_after(order_type order) const noexcept
+    {
+        auto const it = std::upper_bound(observers_.begin(), observers_.end(), order,
+                                         [](auto value, auto const& reg) { return value < reg.order; });
+        return it - observers_.begin();
+    }
+
     /**
      * @brief Check if an observer is registered with the observable
      *
@@ -333,8 +402,8 @@ private:
     constexpr bool
     contains(observer<observable_type> const& observer) noexcept
     {
-        for (auto& item : observers_) {
-            if (item == &observer) [[unlikely]]
+        for (auto& reg : observers_) {
+            if (reg.item == &observer) [[unlikely]]
                 return true;
         }
         return false;
-- 
2.43.0


From 849ad954b1280e15bf4cf9731e883cebb1194c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:50 +0000
Subject: [PATCH 06/34] fix: increments and decrements of an observable value
 notify or return wrong values

The prefix decrement returned and notified the old value plus one minus one
step, the postfix operators notified the old value.
---
 include/xitren/comm/values/observable.hpp | 24 +++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/xitren/comm/values/observable.hpp b/include/xitren/comm/values/observable.hpp
index 52dfcd6..cfa96ec 100644
--- a/include/xitren/comm/values/observable.hpp
+++ b/include/xitren/comm/values/observable.hpp
@@ -37,7 +37,7 @@ public:
     operator++(int) volatile noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_add(1);
-        notify_observers(ret);
+        notify_observers(ret + 1);
         return ret;
     }
 
@@ -45,7 +45,7 @@ public:
     operator++(int) noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_add(1);
-        notify_observers(ret);
+        notify_observers(ret + 1);
         return ret;
     }
 
@@ -53,7 +53,7 @@ public:
     operator--(int) volatile noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_sub(1);
-        notify_observers(ret);
+        notify_observers(ret - 1);
         return ret;
     }
 
@@ -61,7 +61,7 @@ public:
     operator--(int) noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_sub(1);
-        notify_observers(ret);
+        notify_observers(ret - 1);
         return ret;
     }
 
@@ -84,7 +84,7 @@ public:
     observable_type
     operator--() volatile noexcept
     {
-        auto const ret = std::atomic<observable_type>::fetch_sub(1) + 1;
+        auto const ret = std::atomic<observable_type>::fetch_sub(1) - 1;
         notify_observers(ret);
         return ret;
     }
@@ -92,7 +92,7 @@ public:
     observable_type
     operator--() noexcept
     {
-        auto const ret = std::atomic<observable_type>::fetch_sub(1) + 1;
+        auto const ret = std::atomic<observable_type>::fetch_sub(1) - 1;
         notify_observers(ret);
         return ret;
     }
@@ -283,7 +283,7 @@ public:
     operator++(int) volatile noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_add(1);
-        notify_observers(ret);
+        notify_observers(ret + 1);
         return ret;
     }
 
@@ -291,7 +291,7 @@ public:
     operator++(int) noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_add(1);
-        notify_observers(ret);
+        notify_observers(ret + 1);
         return ret;
     }
 
@@ -299,7 +299,7 @@ public:
     operator--(int) volatile noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_sub(1);
-        notify_observers(ret);
+        notify_observers(ret - 1);
         return ret;
     }
 
@@ -307,7 +307,7 @@ public:
     operator--(int) noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_sub(1);
-        notify_observers(ret);
+        notify_observers(ret - 1);
         return ret;
     }
 
@@ -330,7 +330,7 @@ public:
     observable_type
     operator--() volatile noexcept
     {
-        auto const ret = std::atomic<observable_type>::fetch_sub(1) + 1;
+        auto const ret = std::atomic<observable_type>::fetch_sub(1) - 1;
         notify_observers(ret);
         return ret;
     }
@@ -338,7 +338,7 @@ public:
     observable_type
     operator--() noexcept
     {
-        auto const ret = std::atomic<observable_type>::fetch_sub(1) + 1;
+        auto const ret = std::atomic<observable_type>::fetch_sub(1) - 1;
         notify_observers(ret);
         return ret;
     }
-- 
2.43.0


From d25570bb4aa4764e18660e96e32a40560c827d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:50 +0000
Subject: [PATCH 07/34] fix: removing an observer of a dynamic observable value
 duplicates the last one

std::remove was not followed by an erase.
---
 include/xitren/comm/values/observable.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/xitren/comm/values/observable.hpp b/include/xitren/comm/values/observable.hpp
index cfa96ec..29c9ed4 100644
--- a/include/xitren/comm/values/observable.hpp
+++ b/include/xitren/comm/values/observable.hpp
@@ -441,8 +441,7 @@ public:
         if (observers_.empty()) [[unlikely]] {
             return observer_errors::not_found;
         }
-        auto it = std::remove(observers_.begin(), observers_.end(), &observer);
-        if (it != observers_.end()) {
+        if (std::erase(observers_, &observer)) {
             return observer_errors::ok;
         } else {
             return observer_errors::not_found;
-- 
2.43.0


From 936cdbc8338fa2a2b3c9afdcf1257fcc538c41dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:12 +0000
Subject: [PATCH 08/34] fix: changing the subscriptions of an observable value
 inside a delivery skips or repeats observers

---
 include/xitren/comm/values/observable.hpp | 103 ++++++++++++++++++----
 1 file changed, 85 insertions(+), 18 deletions(-)

diff --git a/include/xitren/comm/values/observable.hpp b/include/xitren/comm/values/observable.hpp
index 29c9ed4..90c73e3 100644
--- a/include/xitren/comm/values/observable.hpp
+++ b/include/xitren/comm/values/observable.hpp
@@ -25,7 +25,17 @@ public:
     static constexpr uint32_t max_observers = Max;
     using observable_type                   = T;
     using size_type                         = std::size_t;
-    using observer_list                     = std::array<observed<observable_type>*, max_observers>;
+    using order_type                        = std::uint64_t;
+
+    /**
+     * @brief A registered observer; the order number grows with every registration, so that a running delivery finds
+     * its place again after the list was changed
+     */
+    struct registration {
+        observed<observable_type>* item;
+        order_type                 order;
+    };
+    using observer_list = std::array<registration, max_observers>;
 
     T
     value()
@@ -176,7 +186,7 @@ public:
         if (count_ >= max_observers) [[unlikely]]
             return observer_errors::list_is_full;
         if (!contains(observer)) [[likely]] {
-            observers_[count_++] = &observer;
+            observers_[count_++] = {&observer, next_order_++};
         } else [[unlikely]] {
             return observer_errors::already_contains;
         }
@@ -198,7 +208,8 @@ public:
             return observer_errors::internal_data_broken;
         if (count_ == 0) [[unlikely]]
             return observer_errors::not_found;
-        auto it = std::remove(observers_.begin(), observers_.begin() + count_, &observer);
+        auto it = std::remove_if(observers_.begin(), observers_.begin() + count_,
+                                 [&observer](auto const& reg) { return reg.item == &observer; });
         if ((observers_.begin() + count_) - it) {
             count_ = it - observers_.begin();
             return observer_errors::ok;
@@ -213,10 +224,13 @@ public:
     inline void
     clear_observers() noexcept
     {
-        for (auto& item : std::views::counted(observers_.begin(), count_)) {
+        auto const end_order = next_order_;
+        while (count_ > 0 && observers_.front().order < end_order) {
+            auto* const item = observers_.front().item;
+            std::move(observers_.begin() + 1, observers_.begin() + count_, observers_.begin());
+            count_--;
             item->disconnect(static_cast<void*>(this));
         }
-        count_ = 0;
     }
 
     /**
@@ -232,8 +246,11 @@ public:
     {
         if (count_ > max_observers) [[unlikely]]
             return observer_errors::internal_data_broken;
-        for (auto& item : std::views::counted(observers_.begin(), count_)) {
-            item->notification(static_cast<void*>(this), n);
+        auto const end_order = next_order_;
+        for (size_type i = 0; i < count_ && observers_[i].order < end_order;) {
+            auto const current = observers_[i];
+            current.item->notification(static_cast<void*>(this), n);
+            i = index_after(current.order);
         }
         return observer_errors::ok;
     }
@@ -247,6 +264,24 @@ private:
      * @brief The number of observers registered with the observable object
      */
     size_type count_{0};
+    /**
+     * @brief The order number of the next registration
+     */
+    order_type next_order_{0};
+
+    /**
+     * @brief Finds where a delivery goes on after the given registration
+     *
+     * @param order the order number of the last registration that was reached
+     * @return the position of the first later registration
+     */
+    constexpr size_type
+    index_after(order_type order) const noexcept
+    {
+        auto const it = std::upper_bound(observers_.begin(), observers_.begin() + count_, order,
+                                         [](auto value, auto const& reg) { return value < reg.order; });
+        return it - observers_.begin();
+    }
 
     /**
      * @brief Checks if an observer is registered with the observable object
@@ -258,8 +293,8 @@ private:
     constexpr bool
     contains(observed<observable_type> const& observer) noexcept
     {
-        for (auto& item : std::views::counted(observers_.begin(), count_)) {
-            if (item == &observer) [[unlikely]]
+        for (auto& reg : std::views::counted(observers_.begin(), count_)) {
+            if (reg.item == &observer) [[unlikely]]
                 return true;
         }
         return false;
@@ -271,7 +306,17 @@ class observable<T, 0> : protected std::atomic<T> {
 public:
     using observable_type = T;
     using size_type       = std::size_t;
-    using observer_list   = std::vector<observed<observable_type>*>;
+    using order_type      = std::uint64_t;
+
+    /**
+     * @brief A registered observer; the order number grows with every registration, so that a running delivery finds
+     * its place again after the list was changed
+     */
+    struct registration {
+        observed<observable_type>* item;
+        order_type                 order;
+    };
+    using observer_list = std::vector<registration>;
 
     T
     value()
@@ -420,7 +465,7 @@ public:
     add_observer(observed<observable_type>& observer) noexcept
     {
         if (!contains(observer)) [[likely]] {
-            observers_.emplace_back(&observer);
+            observers_.push_back({&observer, next_order_++});
         } else [[unlikely]] {
             return observer_errors::already_contains;
         }
@@ -441,7 +486,7 @@ public:
         if (observers_.empty()) [[unlikely]] {
             return observer_errors::not_found;
         }
-        if (std::erase(observers_, &observer)) {
+        if (std::erase_if(observers_, [&observer](auto const& reg) { return reg.item == &observer; })) {
             return observer_errors::ok;
         } else {
             return observer_errors::not_found;
@@ -454,10 +499,12 @@ public:
     inline void
     clear_observers() noexcept
     {
-        for (auto& item : observers_) {
+        auto const end_order = next_order_;
+        while (!observers_.empty() && observers_.front().order < end_order) {
+            auto* const item = observers_.front().item;
+            observers_.erase(observers_.begin());
             item->disconnect(static_cast<void*>(this));
         }
-        observers_.clear();
     }
 
     /**
@@ -471,8 +518,11 @@ public:
     observer_errors
     notify_observers(observable_type const& n) noexcept
     {
-        for (auto& item : observers_) {
-            item->notification(static_cast<void*>(this), n);
+        auto const end_order = next_order_;
+        for (size_type i = 0; i < observers_.size() && observers_[i].order < end_order;) {
+            auto const current = observers_[i];
+            current.item->notification(static_cast<void*>(this), n);
+            i = index_after(current.order);
         }
         return observer_errors::ok;
     }
@@ -482,6 +532,24 @@ private:
      * @brief The list of observers registered with the observable object
      */
     observer_list observers_{};
+    /**
+     * @brief The order number of the next registration
+     */
+    order_type next_order_{0};
+
+    /**
+     * @brief Finds where a delivery goes on after the given registration
+     *
+     * @param order the order number of the last registration that was reached
+     * @return the position of the first later registration
+     */
+    constexpr size_type
+    index_after(order_type order) const noexcept
+    {
+        auto const it = std::upper_bound(observers_.begin(), observers_.end(), order,
+                                         [](auto value, auto const& reg) { return value < reg.order; });
+        return it - observers_.begin();
+    }
 
     /**
      * @brief Checks if an observer is registered with the observable object
@@ -493,8 +561,7 @@ private:
     constexpr bool
     contains(observed<observable_type> const& observer) noexcept
     {
-        auto it = std::find(observers_.begin(), observers_.end(), &observer);
-        return it != observers_.end();
+        return std::ranges::any_of(observers_, [&observer](auto const& reg) { return reg.item == &observer; });
     }
 };
 
-- 
2.43.0


From e743eb368f531731e005c1c87c105f3e4ab0f912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:12 +0000
Subject: [PATCH 09/34] fix: compound assignment of an observable value
 truncates its operand to int

---
 include/xitren/comm/values/observable.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/xitren/comm/values/observable.hpp b/include/xitren/comm/values/observable.hpp
index 90c73e3..f1a1014 100644
--- a/include/xitren/comm/values/observable.hpp
+++ b/include/xitren/comm/values/observable.hpp
@@ -108,7 +108,7 @@ public:
     }
 
     observable_type
-    operator+=(int op) volatile noexcept
+    operator+=(observable_type op) volatile noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_add(op) + op;
         notify_observers(ret);
@@ -116,7 +116,7 @@ public:
     }
 
     observable_type
-    operator+=(int op) noexcept
+    operator+=(observable_type op) noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_add(op) + op;
         notify_observers(ret);
@@ -124,7 +124,7 @@ public:
     }
 
     observable_type
-    operator-=(int op) volatile noexcept
+    operator-=(observable_type op) volatile noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_sub(op) - op;
         notify_observers(ret);
@@ -132,7 +132,7 @@ public:
     }
 
     observable_type
-    operator-=(int op) noexcept
+    operator-=(observable_type op) noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_sub(op) - op;
         notify_observers(ret);
@@ -389,7 +389,7 @@ public:
     }
 
     observable_type
-    operator+=(int op) volatile noexcept
+    operator+=(observable_type op) volatile noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_add(op) + op;
         notify_observers(ret);
@@ -397,7 +397,7 @@ public:
     }
 
     observable_type
-    operator+=(int op) noexcept
+    operator+=(observable_type op) noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_add(op) + op;
         notify_observers(ret);
@@ -405,7 +405,7 @@ public:
     }
 
     observable_type
-    operator-=(int op) volatile noexcept
+    operator-=(observable_type op) volatile noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_sub(op) - op;
         notify_observers(ret);
@@ -413,7 +413,7 @@ public:
     }
 
     observable_type
-    operator-=(int op) noexcept
+    operator-=(observable_type op) noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_sub(op) - op;
         notify_observers(ret);
-- 
2.43.0


From c244aa2995c1b27331de62bd4f49f9cf13fa6ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:26 +0000
Subject: [PATCH 10/34] fix: the lock of the dynamic publisher is compiled out
 on glibc

PTHREAD_MUTEX_DEFAULT is an enumerator there, not a macro, so concurrent
registrations and notifications raced.  The lock has to be recursive since
observers may use the publisher from inside a delivery.
---
 include/xitren/comm/observer.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/xitren/comm/observer.hpp b/include/xitren/comm/observer.hpp
index 286d159..7c27d9c 100644
--- a/include/xitren/comm/observer.hpp
+++ b/include/xitren/comm/observer.hpp
@@ -303,8 +303,8 @@ public:
     void
     add_observer(observer<observable_type>& observer)
     {
-#ifdef PTHREAD_MUTEX_DEFAULT
-        std::unique_lock<std::mutex> lock(access_);
+#if defined(PTHREAD_MUTEX_DEFAULT) || defined(_GLIBCXX_HAS_GTHREADS)
+        std::unique_lock<std::recursive_mutex> lock(access_);
 #endif
         if (!contains(observer)) [[likely]] {
             observers_.push_back({&observer, next_order_++});
@@ -324,8 +324,8 @@ public:
     void
     remove_observer(observer<observable_type> const& observer)
     {
-#ifdef PTHREAD_MUTEX_DEFAULT
-        std::unique_lock<std::mutex> lock(access_);
+#if defined(PTHREAD_MUTEX_DEFAULT) || defined(_GLIBCXX_HAS_GTHREADS)
+        std::unique_lock<std::recursive_mutex> lock(access_);
 #endif
         if (!std::erase_if(observers_, [&observer](auto const& reg) { return reg.item == &observer; })) {
             throw exception{observer_errors::not_found};
@@ -338,8 +338,8 @@ public:
     inline void
     clear_observers()
     {
-#ifdef PTHREAD_MUTEX_DEFAULT
-        std::unique_lock<std::mutex> lock(access_);
+#if defined(PTHREAD_MUTEX_DEFAULT) || defined(_GLIBCXX_HAS_GTHREADS)
+        std::unique_lock<std::recursive_mutex> lock(access_);
 #endif
         auto const end_order = next_order_;
         while (!observers_.empty() && observers_.front().order < end_order) {
@@ -360,8 +360,8 @@ public:
     void
     notify_observers(observable_type const& n)
     {
-#ifdef PTHREAD_MUTEX_DEFAULT
-        std::unique_lock<std::mutex> lock(access_);
+#if defined(PTHREAD_MUTEX_DEFAULT) || defined(_GLIBCXX_HAS_GTHREADS)
+        std::unique_lock<std::recursive_mutex> lock(access_);
 #endif
         auto const end_order = next_order_;
         for (size_type i = 0; i < observers_.size() && observers_[i].order < end_order;) {
@@ -374,8 +374,8 @@ public:
 private:
     observer_list observers_{};
     order_type    next_order_{0};
-#ifdef PTHREAD_MUTEX_DEFAULT
-    std::mutex access_{};
+#if defined(PTHREAD_MUTEX_DEFAULT) || defined(_GLIBCXX_HAS_GTHREADS)
+    std::recursive_mutex access_{};
 #endif
 
     /**
-- 
2.43.0


From ccaa761d51684c0a40c49530aec32dd1540f944b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:36 +0000
Subject: [PATCH 11/34] fix: removing a module from a full mediator writes
 behind its module list

---
 include/xitren/comm/mediator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xitren/comm/mediator.hpp b/include/xitren/comm/mediator.hpp
index 4db881e..1c9c260 100644
--- a/include/xitren/comm/mediator.hpp
+++ b/include/xitren/comm/mediator.hpp
@@ -293,8 +293,8 @@ public:
                 for (; i < modules_cnt_ - 1; i++) {
                     modules_[i] = modules_[i + 1];
                 }
-                modules_[modules_cnt_] = 0;
                 --modules_cnt_;
+                modules_[modules_cnt_] = nullptr;
                 return;
             }
         }
-- 
2.43.0


From 09dd1070a5436525f8a0ac4d86dc89f02b59c809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:36 +0000
Subject: [PATCH 12/34] fix: registering more modules than a mediator holds
 writes behind its module list

The manager now refuses the module with std::out_of_range.
---
 include/xitren/comm/mediator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/xitren/comm/mediator.hpp b/include/xitren/comm/mediator.hpp
index 1c9c260..32b53fc 100644
--- a/include/xitren/comm/mediator.hpp
+++ b/include/xitren/comm/mediator.hpp
@@ -277,7 +277,8 @@ public:
     void
     add_module(base::module& c) override
     {
-        modules_[modules_cnt_++] = &c;
+        modules_.at(modules_cnt_) = &c;
+        modules_cnt_++;
     }
 
     /**
-- 
2.43.0


From bd1755c1d0c0c5467c02f595c9adeab38cb06061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:19 +0000
Subject: [PATCH 13/34] fix: destroying a module inside a delivery makes
 another module miss the message

Deliveries indexed the live list, so the module after a destroyed one was
skipped, and a destroyed sender was still read.
---
 include/xitren/comm/mediator.hpp | 46 ++++++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 5 deletions(-)

diff --git a/include/xitren/comm/mediator.hpp b/include/xitren/comm/mediator.hpp
index 32b53fc..ace696e 100644
--- a/include/xitren/comm/mediator.hpp
+++ b/include/xitren/comm/mediator.hpp
@@ -278,6 +278,7 @@ public:
     add_module(base::module& c) override
     {
         modules_.at(modules_cnt_) = &c;
+        orders_[modules_cnt_]     = next_order_++;
         modules_cnt_++;
     }
 
@@ -293,6 +294,7 @@ public:
             if (modules_[i] == &c) {
                 for (; i < modules_cnt_ - 1; i++) {
                     modules_[i] = modules_[i + 1];
+                    orders_[i]  = orders_[i + 1];
                 }
                 --modules_cnt_;
                 modules_[modules_cnt_] = nullptr;
@@ -310,12 +312,15 @@ public:
     void
     send(Data data)
     {
-        for (std::size_t i = 0; i < modules_cnt_; i++) {
+        std::uint64_t const end_order = next_order_;
+        for (std::size_t i = 0; i < modules_cnt_ && orders_[i] < end_order;) {
             std::size_t          loc_id = std::hash<std::string>{}(typeid(Data).name());
             data_converter<Data> cnv    = {data};
+            std::uint64_t const  order  = orders_[i];
             if (modules_.at(i)->id_ != loc_id) {
                 modules_.at(i)->receive(loc_id, cnv.pure.data(), cnv.pure.size());
             }
+            i = index_after(order);
         }
     }
 
@@ -340,11 +345,15 @@ public:
     void
     distribute(base::module const& sender, std::uint8_t* ptr, std::size_t sz) override
     {
-        data(sender.id_, ptr, sz);
-        for (std::size_t i = 0; i < modules_cnt_; i++) {
-            if (modules_.at(i)->id_ != sender.id_) {
-                modules_.at(i)->receive(sender.id_, ptr, sz);
+        std::size_t const   sender_id = sender.id_;
+        std::uint64_t const end_order = next_order_;
+        data(sender_id, ptr, sz);
+        for (std::size_t i = 0; i < modules_cnt_ && orders_[i] < end_order;) {
+            std::uint64_t const order = orders_[i];
+            if (modules_.at(i)->id_ != sender_id) {
+                modules_.at(i)->receive(sender_id, ptr, sz);
             }
+            i = index_after(order);
         }
     }
 
@@ -375,11 +384,38 @@ private:
      */
     std::array<base::module*, Sources> modules_;
 
+    /**
+     * @brief The order number of each module; it grows with every registration, so that a running delivery finds its
+     * place again after a module was destroyed
+     */
+    std::array<std::uint64_t, Sources> orders_{};
+
+    /**
+     * @brief The order number of the next registration
+     */
+    std::uint64_t next_order_ = 0;
+
     /**
      * @brief The number of modules in the manager
      */
     std::size_t modules_cnt_ = 0;
 
+    /**
+     * @brief Finds where a delivery goes on after the given registration
+     *
+     * @param order the order number of the last module that was reached
+     * @return the position of the first later module
+     */
+    std::size_t
+    index_after(std::uint64_t order) const
+    {
+        std::size_t i = 0;
+        while (i < modules_cnt_ && orders_[i] <= order) {
+            i++;
+        }
+        return i;
+    }
+
     /**
      * @brief A union to hold a specific type of message
      *
-- 
2.43.0


From cba8f26f632ec33317cf250c8e86414c28c2fb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:57 +0000
Subject: [PATCH 14/34] fix: the lru cache cannot be used at all and would keep
 evicted or stale entries

Neither put nor get compiled when instantiated: the constructor took a time
point, lookups compared unlike types and returned nothing. As written, an
update would have kept the old value, a lookup would not have counted as use,
evicted keys would have stayed in the index, ages would have followed the
wall clock and the lock was compiled out on glibc.
---
 include/xitren/cache/lru.hpp | 54 ++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 27 deletions(-)

diff --git a/include/xitren/cache/lru.hpp b/include/xitren/cache/lru.hpp
index 1c2c3bb..767b4ee 100644
--- a/include/xitren/cache/lru.hpp
+++ b/include/xitren/cache/lru.hpp
@@ -16,64 +16,64 @@ __ _(_) |_ _ _ ___ _ _
 #include <mutex>
 #include <optional>
 #include <string>
+#include <tuple>
 #include <unordered_map>
+#include <utility>
 
 namespace xitren::cache {
 
 template <class Key, class Value, std::size_t Size, bool Exception = true>
 class lru {
-    using timestamp          = std::chrono::time_point<std::chrono::system_clock>;
+    using timestamp          = std::chrono::time_point<std::chrono::steady_clock>;
+    using duration           = timestamp::duration;
     using data_item          = std::tuple<Key, Value, timestamp>;
     using double_linked_list = std::list<data_item>;
-    using hash_map           = std::unordered_map<Key, data_item>;
-    using return_type        = std::optional<data_item>;
+    using hash_map           = std::unordered_map<Key, typename double_linked_list::iterator>;
+    using return_type        = std::optional<Value>;
 
 public:
-    explicit lru(timestamp expired) noexcept : expired_after_{expired} {}
+    explicit lru(duration expired) noexcept : expired_after_{expired} {}
 
     void
     put(Key key, Value value)
     {
-#ifdef PTHREAD_MUTEX_DEFAULT
+#if defined(PTHREAD_MUTEX_DEFAULT) || defined(_GLIBCXX_HAS_GTHREADS)
         std::unique_lock<std::mutex> lock(access_);
 #endif
         if (map_.contains(key)) {
-            auto is_key = [key](data_item item) { return item.template get<0>() == key; };
-            auto it     = std::find_if(list_.begin(), list_.end(), is_key);
-            if (it != list_.end()) {
-                auto obj = *it;
-                list_.erase(it);
-                list_.push_front(obj);
-                map_[key] = obj;
-            } else {
-                if constexpr (Exception) {
-                    throw cache_missed();
-                }
-            }
+            auto it          = map_[key];
+            std::get<1>(*it) = std::move(value);
+            std::get<2>(*it) = get_time();
+            list_.splice(list_.begin(), list_, it);
         } else {
-            if (list_.size() >= Size) {
+            double_linked_list obj{};
+            obj.emplace_front(key, std::move(value), get_time());
+            map_[key] = obj.begin();
+            list_.splice(list_.begin(), obj);
+            if (list_.size() > Size) {
+                map_.erase(std::get<0>(list_.back()));
                 list_.pop_back();
             }
-            auto obj = data_item{key, value, get_time()};
-            list_.push_front(obj);
-            map_[key] = obj;
         }
     }
 
     return_type
     get(Key key)
     {
-#ifdef PTHREAD_MUTEX_DEFAULT
+#if defined(PTHREAD_MUTEX_DEFAULT) || defined(_GLIBCXX_HAS_GTHREADS)
         std::unique_lock<std::mutex> lock(access_);
 #endif
         if (map_.contains(key)) {
-            auto [value, time] = map_[key];
-            if ((get_time() - time).count() >= expired_after_) {
+            auto        it   = map_[key];
+            auto const& time = std::get<2>(*it);
+            if ((get_time() - time) >= expired_after_) {
                 if constexpr (Exception) {
                     throw cache_timeout();
                 }
                 return std::nullopt;
             }
+            list_.splice(list_.begin(), list_, it);
+            return std::get<1>(*it);
         } else {
             return std::nullopt;
         }
@@ -86,17 +86,17 @@ public:
     }
 
 private:
-    const timestamp    expired_after_;
+    const duration     expired_after_;
     double_linked_list list_{};
     hash_map           map_{};
-#ifdef PTHREAD_MUTEX_DEFAULT
+#if defined(PTHREAD_MUTEX_DEFAULT) || defined(_GLIBCXX_HAS_GTHREADS)
     std::mutex access_{};
 #endif
 
     inline timestamp
     get_time()
     {
-        return std::chrono::system_clock::now();
+        return std::chrono::steady_clock::now();
     }
 };
 
-- 
2.43.0


From e34bff82dda4d9237a188448bdbbe79d3f9c71b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:19 +0000
Subject: [PATCH 15/34] fix: a pipeline stage loses, repeats or tears items
 once its buffer wraps

A slot stayed marked as filled after its item was handled, so the worker took
stale items, a push wrote over items still waiting and over the one being
handled, and producer and worker raced on the slot itself.
---
 include/xitren/comm/pipeline_stage.hpp | 38 ++++++++++++++++++++------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/include/xitren/comm/pipeline_stage.hpp b/include/xitren/comm/pipeline_stage.hpp
index 0299016..8573b05 100644
--- a/include/xitren/comm/pipeline_stage.hpp
+++ b/include/xitren/comm/pipeline_stage.hpp
@@ -37,8 +37,9 @@ class pipeline_stage {
     using measure_type       = std::pair<int, int>;
     using statistics_type    = std::deque<measure_type>;
     using queue_type         = struct type_tag {
-        std::array<ready_type, BufferSize> array;
-        atomic_cnt_type                    tail;
+        std::array<ready_type, BufferSize>         array;
+        std::array<atomic_closed_type, BufferSize> ready;
+        atomic_cnt_type                            tail;
     };
     using function_type = std::function<const NextType(pipeline_stage_exception, const Type, const measure_type)>;
 
@@ -56,8 +57,10 @@ public:
     void
     push(Type const&& data)
     {
-        auto const i                          = queue_.tail++;
+        auto const i = queue_.tail++;
+        wait_for_slot(i);
         queue_.array[i % queue_.array.size()] = data;
+        queue_.ready[i % queue_.array.size()] = true;
 #ifdef DEBUG
         Log::trace() << "Index: " << queue_.tail << "\n";
 #endif
@@ -66,8 +69,10 @@ public:
     void
     push(Type const& data)
     {
-        auto const i                          = queue_.tail++;
+        auto const i = queue_.tail++;
+        wait_for_slot(i);
         queue_.array[i % queue_.array.size()] = data;
+        queue_.ready[i % queue_.array.size()] = true;
 #ifdef DEBUG
         Log::trace() << "Index: " << queue_.tail << "\n";
 #endif
@@ -100,6 +105,20 @@ private:
     function_type      func_{};
     statistics_type    stat_{};
 
+    /**
+     * @brief Waits until the item that occupied the slot before was taken out of it
+     *
+     * @param i the number of the item that will be stored
+     */
+    void
+    wait_for_slot(std::size_t i)
+    {
+        using namespace std::chrono_literals;
+        while ((i - tail_) >= queue_.array.size()) {
+            std::this_thread::sleep_for(0ms);
+        }
+    }
+
     std::thread worker_ = std::thread{[this]() {
         using namespace std::chrono_literals;
 #ifdef DEBUG
@@ -107,19 +126,22 @@ private:
 #endif
         while (!closed_ || ((queue_.tail - tail_) > 0)) {
             while (tail_ < queue_.tail) {
-                if (!(queue_.array[(tail_) % queue_.array.size()])) {
+                if (!(queue_.ready[(tail_) % queue_.array.size()])) {
                     std::this_thread::sleep_for(0ms);
 #ifdef DEBUG
                     Log::trace() << "Data are not ready!\n";
 #endif
                     continue;
                 }
-                auto const i = tail_++;
+                std::size_t const i = tail_;
 #ifdef DEBUG
                 Log::trace() << "Index to process: " << i << "\n";
 #endif
-                auto& data = queue_.array[i % queue_.array.size()];
-                auto  last_time{std::chrono::system_clock::now()};
+                ready_type data{std::move(queue_.array[i % queue_.array.size()])};
+                queue_.array[i % queue_.array.size()].reset();
+                queue_.ready[i % queue_.array.size()] = false;
+                tail_++;
+                auto last_time{std::chrono::system_clock::now()};
                 func_(pipeline_stage_exception::no_error, data.value(),
                       measure_type{time_for_unit(), buffer_utilization()});
                 auto elapsed = std::chrono::system_clock::now() - last_time;
-- 
2.43.0


From 1f3331cc8d8f9874297b6f14b4c4b086b0c9b882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:19 +0000
Subject: [PATCH 16/34] fix: a worker pool of any size but eight loses items or
 reads outside its queues

---
 include/xitren/comm/pipeline_stage_pool.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xitren/comm/pipeline_stage_pool.hpp b/include/xitren/comm/pipeline_stage_pool.hpp
index f0c5544..55c9477 100644
--- a/include/xitren/comm/pipeline_stage_pool.hpp
+++ b/include/xitren/comm/pipeline_stage_pool.hpp
@@ -46,7 +46,7 @@ class pipeline_stage_pool {
         atomic_cnt_type                    tail;
         atomic_cnt_type                    head;
     };
-    using pool_type     = std::array<queue_type, 8>;
+    using pool_type     = std::array<queue_type, PoolSize>;
     using thread_type   = std::vector<std::thread>;
     using function_type = std::function<const NextType(pipeline_stage_exception, const Type, const measure_data)>;
 
-- 
2.43.0


From d276ba358548c1000685c9835a002fe3d71aa7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:19 +0000
Subject: [PATCH 17/34] fix: a worker pool loses, repeats or tears items once a
 buffer wraps

The same as in the stage: slots stayed marked as filled, and a push wrote over
items still waiting or being handled.
---
 include/xitren/comm/pipeline_stage_pool.hpp | 45 ++++++++++++++++-----
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/include/xitren/comm/pipeline_stage_pool.hpp b/include/xitren/comm/pipeline_stage_pool.hpp
index 55c9477..91412a9 100644
--- a/include/xitren/comm/pipeline_stage_pool.hpp
+++ b/include/xitren/comm/pipeline_stage_pool.hpp
@@ -41,10 +41,11 @@ class pipeline_stage_pool {
     using ready_type         = std::optional<Type>;
     using statistics_type    = std::deque<measure_data>;
     using queue_type         = struct type_tag {
-        std::array<ready_type, BufferSize> array;
-        statistics_type                    stat;
-        atomic_cnt_type                    tail;
-        atomic_cnt_type                    head;
+        std::array<ready_type, BufferSize>         array;
+        std::array<atomic_closed_type, BufferSize> ready;
+        statistics_type                            stat;
+        atomic_cnt_type                            tail;
+        atomic_cnt_type                            head;
     };
     using pool_type     = std::array<queue_type, PoolSize>;
     using thread_type   = std::vector<std::thread>;
@@ -58,23 +59,26 @@ public:
 #ifdef DEBUG
             Log::debug() << "Started thread " << pool_thread_n << "... \n";
 #endif
-            auto& [array_l, stat_l, tail_l, head_l] = pool_[pool_thread_n];
+            auto& [array_l, ready_l, stat_l, tail_l, head_l] = pool_[pool_thread_n];
 
             while (!closed_ || ((tail_l - head_l) > 0)) {
                 while (head_l < tail_l) {
-                    if (!(array_l[(head_l) % array_l.size()])) {
+                    if (!(ready_l[(head_l) % array_l.size()])) {
                         std::this_thread::sleep_for(0ms);
 #ifdef DEBUG
                         Log::trace() << "[" << pool_thread_n << "] Data are not ready!\n";
 #endif
                         continue;
                     }
-                    auto const i = head_l++;
+                    std::size_t const i = head_l;
 #ifdef DEBUG
                     Log::trace() << "[" << pool_thread_n << "] Index to process: " << i << "\n";
 #endif
-                    auto& data = array_l[i % array_l.size()];
-                    auto  last_time{std::chrono::system_clock::now()};
+                    ready_type data{std::move(array_l[i % array_l.size()])};
+                    array_l[i % array_l.size()].reset();
+                    ready_l[i % array_l.size()] = false;
+                    head_l++;
+                    auto last_time{std::chrono::system_clock::now()};
                     func_(pipeline_stage_exception::no_error, data.value(),
                           measure_data{pool_thread_n, time_for_unit(stat_l), buffer_utilization(stat_l)});
                     auto elapsed = std::chrono::system_clock::now() - last_time;
@@ -112,8 +116,10 @@ public:
     push(Type const&& data)
     {
         auto const min_id{min_thread()};
-        auto const i                                        = pool_[min_id].tail++;
+        auto const i = pool_[min_id].tail++;
+        wait_for_slot(pool_[min_id], i);
         pool_[min_id].array[i % pool_[min_id].array.size()] = data;
+        pool_[min_id].ready[i % pool_[min_id].array.size()] = true;
 #ifdef DEBUG
         Log::trace() << "Index[" << min_id << "]: " << pool_[min_id].tail << "\n";
 #endif
@@ -123,8 +129,10 @@ public:
     push(Type const& data)
     {
         auto const min_id{min_thread()};
-        auto const i                                        = pool_[min_id].tail++;
+        auto const i = pool_[min_id].tail++;
+        wait_for_slot(pool_[min_id], i);
         pool_[min_id].array[i % pool_[min_id].array.size()] = data;
+        pool_[min_id].ready[i % pool_[min_id].array.size()] = true;
 #ifdef DEBUG
         Log::trace() << "Index[" << min_id << "]: " << pool_[min_id].tail << "\n";
 #endif
@@ -158,6 +166,21 @@ private:
     pool_type          pool_{};
     thread_type        pool_threads_{};
 
+    /**
+     * @brief Waits until the item that occupied the slot before was taken out of it
+     *
+     * @param queue the queue of the worker
+     * @param i the number of the item that will be stored
+     */
+    static void
+    wait_for_slot(queue_type const& queue, std::size_t i)
+    {
+        using namespace std::chrono_literals;
+        while ((i - queue.head) >= queue.array.size()) {
+            std::this_thread::sleep_for(0ms);
+        }
+    }
+
     int
     min_thread()
     {
-- 
2.43.0


From 1076d9d17e3f005f3a3577ec62d521c83f9df605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:19 +0000
Subject: [PATCH 18/34] fix: handling times of pipelines follow adjustments of
 the wall clock

---
 include/xitren/comm/pipeline_stage.hpp      | 4 ++--
 include/xitren/comm/pipeline_stage_pool.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/xitren/comm/pipeline_stage.hpp b/include/xitren/comm/pipeline_stage.hpp
index 8573b05..986c76d 100644
--- a/include/xitren/comm/pipeline_stage.hpp
+++ b/include/xitren/comm/pipeline_stage.hpp
@@ -141,10 +141,10 @@ private:
                 queue_.array[i % queue_.array.size()].reset();
                 queue_.ready[i % queue_.array.size()] = false;
                 tail_++;
-                auto last_time{std::chrono::system_clock::now()};
+                auto last_time{std::chrono::steady_clock::now()};
                 func_(pipeline_stage_exception::no_error, data.value(),
                       measure_type{time_for_unit(), buffer_utilization()});
-                auto elapsed = std::chrono::system_clock::now() - last_time;
+                auto elapsed = std::chrono::steady_clock::now() - last_time;
                 stat_.push_front(measure_type{std::chrono::duration_cast<std::chrono::milliseconds>(elapsed).count(),
                                               queue_.tail - tail_});
                 if (stat_.size() > measure_points) {
diff --git a/include/xitren/comm/pipeline_stage_pool.hpp b/include/xitren/comm/pipeline_stage_pool.hpp
index 91412a9..1d75065 100644
--- a/include/xitren/comm/pipeline_stage_pool.hpp
+++ b/include/xitren/comm/pipeline_stage_pool.hpp
@@ -78,10 +78,10 @@ public:
                     array_l[i % array_l.size()].reset();
                     ready_l[i % array_l.size()] = false;
                     head_l++;
-                    auto last_time{std::chrono::system_clock::now()};
+                    auto last_time{std::chrono::steady_clock::now()};
                     func_(pipeline_stage_exception::no_error, data.value(),
                           measure_data{pool_thread_n, time_for_unit(stat_l), buffer_utilization(stat_l)});
-                    auto elapsed = std::chrono::system_clock::now() - last_time;
+                    auto elapsed = std::chrono::steady_clock::now() - last_time;
                     stat_l.push_front(measure_data{
                         pool_thread_n,
                         static_cast<int>(std::chrono::duration_cast<std::chrono::milliseconds>(elapsed).count()),
-- 
2.43.0


From d740a1583111ac91b6889f4c6019d9d76eb65624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:19 +0000
Subject: [PATCH 19/34] fix: querying the statistics of a running pipeline
 stage races with its worker

---
 include/xitren/comm/pipeline_stage.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/xitren/comm/pipeline_stage.hpp b/include/xitren/comm/pipeline_stage.hpp
index 986c76d..2ff608b 100644
--- a/include/xitren/comm/pipeline_stage.hpp
+++ b/include/xitren/comm/pipeline_stage.hpp
@@ -81,7 +81,8 @@ public:
     auto
     time_for_unit() const
     {
-        int calc{};
+        std::unique_lock<std::mutex> lock(stat_access_);
+        int                          calc{};
         for (auto& item : stat_) {
             calc += item.first;
         }
@@ -91,7 +92,8 @@ public:
     auto
     buffer_utilization() const
     {
-        int calc{};
+        std::unique_lock<std::mutex> lock(stat_access_);
+        int                          calc{};
         for (auto& item : stat_) {
             calc += item.second;
         }
@@ -104,6 +106,7 @@ private:
     queue_type         queue_{};
     function_type      func_{};
     statistics_type    stat_{};
+    mutable std::mutex stat_access_{};
 
     /**
      * @brief Waits until the item that occupied the slot before was taken out of it
@@ -145,6 +148,7 @@ private:
                 func_(pipeline_stage_exception::no_error, data.value(),
                       measure_type{time_for_unit(), buffer_utilization()});
                 auto elapsed = std::chrono::steady_clock::now() - last_time;
+                std::unique_lock<std::mutex> lock(stat_access_);
                 stat_.push_front(measure_type{std::chrono::duration_cast<std::chrono::milliseconds>(elapsed).count(),
                                               queue_.tail - tail_});
                 if (stat_.size() > measure_points) {
-- 
2.43.0


From 4d2db494e943d5d88ec5ee416a401ab0a767258b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:53 +0000
Subject: [PATCH 20/34] fix: stopping or destroying an interval_event can hang,
 return too early or leave its thread on freed memory

The thread was started before the intervals were initialised, detached, and
the hand-over through keep_running_ could be missed: stop waited for ever when
called from the function, and a thread past its last check still used the
destroyed event. Join it instead.
---
 include/xitren/func/interval_event.hpp | 40 ++++++++++++++------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/include/xitren/func/interval_event.hpp b/include/xitren/func/interval_event.hpp
index 89edbcc..d5ba7df 100644
--- a/include/xitren/func/interval_event.hpp
+++ b/include/xitren/func/interval_event.hpp
@@ -10,6 +10,7 @@ __ _(_) |_ _ _ ___ _ _
 #include <atomic>
 #include <chrono>
 #include <functional>
+#include <mutex>
 #include <thread>
 #include <utility>
 using namespace std::literals;
@@ -41,7 +42,10 @@ public:
     interval_event(std::function<void(void)> function, time_type repeat_every = 100ms,
                    time_type wait_between_checks = 20ms)
         : function_{std::move(function)},
+          period_{repeat_every},
+          period_between_checks_{wait_between_checks},
           thread_{[&] {
+              thread_id_ = std::this_thread::get_id();
               std::this_thread::sleep_for(10ms);
               auto last_time{std::chrono::system_clock::now()};
               while (keep_running_.test_and_set()) {
@@ -51,13 +55,8 @@ public:
                   }
                   std::this_thread::sleep_for(period_between_checks_);
               }
-              keep_running_.notify_one();
-          }},
-          period_{repeat_every},
-          period_between_checks_{wait_between_checks}
-    {
-        thread_.detach();
-    }
+          }}
+    {}
 
     /**
      * Destroys the interval_event object.
@@ -65,15 +64,19 @@ public:
     ~interval_event() { stop(); }
 
     /**
-     * Stops the interval_event object.
+     * Stops the interval_event object. The function is not running any more when this returns, unless it is called
+     * from the function itself.
      */
     void
     stop()
     {
-        if (!stop_) {
-            keep_running_.clear();
-            keep_running_.wait(false);
-            stop_ = true;
+        keep_running_.clear();
+        if (thread_id_.load() == std::this_thread::get_id()) {
+            return;
+        }
+        std::lock_guard<std::mutex> lock(join_access_);
+        if (thread_.joinable()) {
+            thread_.join();
         }
     }
 
@@ -127,12 +130,13 @@ public:
     }
 
 private:
-    std::function<void(void)> function_;
-    std::atomic_flag          keep_running_{true};
-    std::thread               thread_;
-    time_type                 period_{};
-    time_type                 period_between_checks_{};
-    bool                      stop_{false};
+    std::function<void(void)>    function_;
+    std::atomic_flag             keep_running_{true};
+    time_type                    period_{};
+    time_type                    period_between_checks_{};
+    std::atomic<std::thread::id> thread_id_{};
+    std::mutex                   join_access_{};
+    std::thread                  thread_;
 };
 
 }    // namespace xitren::func
-- 
2.43.0


From fab9ed3e034f70cba673e4206c1d19331645b795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:53 +0000
Subject: [PATCH 21/34] fix: an interval_event loses or adds calls when the
 wall clock is adjusted

---
 include/xitren/func/interval_event.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xitren/func/interval_event.hpp b/include/xitren/func/interval_event.hpp
index d5ba7df..6748b86 100644
--- a/include/xitren/func/interval_event.hpp
+++ b/include/xitren/func/interval_event.hpp
@@ -47,9 +47,9 @@ public:
           thread_{[&] {
               thread_id_ = std::this_thread::get_id();
               std::this_thread::sleep_for(10ms);
-              auto last_time{std::chrono::system_clock::now()};
+              auto last_time{std::chrono::steady_clock::now()};
               while (keep_running_.test_and_set()) {
-                  if ((std::chrono::system_clock::now() - last_time).count() >= period_.count()) {
+                  if ((std::chrono::steady_clock::now() - last_time).count() >= period_.count()) {
                       last_time += period_;
                       function_();
                   }
-- 
2.43.0


From 3c4dbc9c6fb8028fceb82eaf8cc795f041b0fa38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:53 +0000
Subject: [PATCH 22/34] fix: changing the intervals of an interval_event races
 with its thread

---
 include/xitren/func/interval_event.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/xitren/func/interval_event.hpp b/include/xitren/func/interval_event.hpp
index 6748b86..f7686d2 100644
--- a/include/xitren/func/interval_event.hpp
+++ b/include/xitren/func/interval_event.hpp
@@ -49,11 +49,11 @@ public:
               std::this_thread::sleep_for(10ms);
               auto last_time{std::chrono::steady_clock::now()};
               while (keep_running_.test_and_set()) {
-                  if ((std::chrono::steady_clock::now() - last_time).count() >= period_.count()) {
-                      last_time += period_;
+                  if ((std::chrono::steady_clock::now() - last_time).count() >= period_.load().count()) {
+                      last_time += period_.load();
                       function_();
                   }
-                  std::this_thread::sleep_for(period_between_checks_);
+                  std::this_thread::sleep_for(period_between_checks_.load());
               }
           }}
     {}
@@ -92,19 +92,19 @@ public:
     /**
      * Returns the interval at which the function is called, in milliseconds.
      */
-    auto&
+    auto
     period() const noexcept
     {
-        return period_;
+        return period_.load();
     }
 
     /**
      * Returns the interval between checks for whether the function should be called, in milliseconds.
      */
-    auto&
+    auto
     period_between_checks() const noexcept
     {
-        return period_between_checks_;
+        return period_between_checks_.load();
     }
 
     /**
@@ -132,8 +132,8 @@ public:
 private:
     std::function<void(void)>    function_;
     std::atomic_flag             keep_running_{true};
-    time_type                    period_{};
-    time_type                    period_between_checks_{};
+    std::atomic<time_type>       period_{};
+    std::atomic<time_type>       period_between_checks_{};
     std::atomic<std::thread::id> thread_id_{};
     std::mutex                   join_access_{};
     std::thread                  thread_;
-- 
2.43.0


From 372d9b2f63503bee7224a3941b87bc285c01fefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:23 +0000
Subject: [PATCH 23/34] fix: the command line parser cuts text options at white
 space and ignores empty ones

---
 include/xitren/func/argv_parser.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/xitren/func/argv_parser.hpp b/include/xitren/func/argv_parser.hpp
index 48e5154..91bd21c 100644
--- a/include/xitren/func/argv_parser.hpp
+++ b/include/xitren/func/argv_parser.hpp
@@ -6,6 +6,7 @@
 #include <sstream>
 #include <string>
 #include <string_view>
+#include <type_traits>
 #include <variant>
 #include <vector>
 
@@ -73,9 +74,13 @@ private:
                 visit(
                     [this, idx, &argv](auto&& arg) {
                         if (idx < static_cast<int>(argv.size() - 1)) {
-                            std::stringstream value;
-                            value << argv[idx + 1];
-                            value >> this->*arg;
+                            if constexpr (std::is_same_v<std::remove_cvref_t<decltype(arg)>, std::string Opts::*>) {
+                                this->*arg = argv[idx + 1];
+                            } else {
+                                std::stringstream value;
+                                value << argv[idx + 1];
+                                value >> this->*arg;
+                            }
                         }
                     },
                     prop);
-- 
2.43.0


From 29701f4484b01e9c4d3e4dd291f124ff8f8caa1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:44 +0000
Subject: [PATCH 24/34] fix: reading the parts of a constant packet or any
 packet's checksum does not compile

---
 include/xitren/func/packet.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/xitren/func/packet.hpp b/include/xitren/func/packet.hpp
index a30ae3f..5465861 100644
--- a/include/xitren/func/packet.hpp
+++ b/include/xitren/func/packet.hpp
@@ -61,13 +61,13 @@ public:
         return fields_.header;
     }
 
-    constexpr Header&
+    constexpr Header const&
     header() const noexcept
     {
         return fields_.header;
     }
 
-    constexpr Fields&
+    constexpr Fields const&
     fields() const noexcept
     {
         return fields_.fields;
@@ -79,13 +79,13 @@ public:
         return fields_.fields;
     }
 
-    Crc&
+    typename Crc::value_type&
     crc() noexcept
     {
         return fields_.crc;
     }
 
-    constexpr Crc&
+    constexpr typename Crc::value_type const&
     crc() const noexcept
     {
         return fields_.crc;
-- 
2.43.0


From 895ed84493e43b376540068c74ebda26538c2ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:44 +0000
Subject: [PATCH 25/34] fix: deserialising a packet from an array does not
 compile and checks uninitialised bytes

---
 include/xitren/func/packet.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/xitren/func/packet.hpp b/include/xitren/func/packet.hpp
index 5465861..1d66301 100644
--- a/include/xitren/func/packet.hpp
+++ b/include/xitren/func/packet.hpp
@@ -12,6 +12,7 @@ __ _(_) |_ _ _ ___ _ _
 
 #include <array>
 #include <cstdint>
+#include <tuple>
 
 namespace xitren::func {
 
@@ -115,9 +116,9 @@ public:
     static constexpr std::tuple<bool, Header, Fields>
     deserialize(std::array<std::uint8_t, Size> const& array) noexcept
     {
-        auto [header, fields, crc] = data<struct_type>::serialize(array);
-        std::array<std::uint8_t, Size - sizeof(Crc::value_type)> checker;
-        auto                                                     calc_crc = Crc::calculate(checker);
+        static_assert(Size >= length);
+        auto [header, fields, crc] = data<struct_type>::deserialize(array.begin());
+        auto calc_crc = Crc::calculate(array.begin(), array.begin() + length - sizeof(typename Crc::value_type));
         return {crc == calc_crc, header, fields};
     }
 
-- 
2.43.0


From 0f1fc511f673dc80f32d4256098c27a0fe37612a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:44 +0000
Subject: [PATCH 26/34] fix: deserialising a frame shorter than its fixed part
 or longer than its storage reads outside it

---
 include/xitren/func/packet.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/xitren/func/packet.hpp b/include/xitren/func/packet.hpp
index 1d66301..a97d00f 100644
--- a/include/xitren/func/packet.hpp
+++ b/include/xitren/func/packet.hpp
@@ -199,6 +199,9 @@ public:
         constexpr size_type length = (sizeof(Header) + sizeof(Fields) + sizeof(typename Crc::value_type));
         static_assert(sizeof(Type) != 0);
         static_assert(Max >= length);
+        if ((size_ < length) || (size_ > Max)) {
+            return return_type{{}, {}, false, 0, nullptr};
+        }
         size_type const variable_part = (size_ - length) / sizeof(Type);
         if (((size_ - length) % sizeof(Type))) {
             return return_type{{}, {}, false, 0, nullptr};
-- 
2.43.0


From f84bb781104946f78c17832769008fca05968dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:44 +0000
Subject: [PATCH 27/34] fix: serialising a frame with a huge element count
 wraps around and writes outside its storage

---
 include/xitren/func/packet.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xitren/func/packet.hpp b/include/xitren/func/packet.hpp
index a97d00f..9525190 100644
--- a/include/xitren/func/packet.hpp
+++ b/include/xitren/func/packet.hpp
@@ -223,7 +223,7 @@ public:
         constexpr size_type length = (sizeof(Header) + sizeof(Fields) + sizeof(typename Crc::value_type));
         static_assert(sizeof(Type) != 0);
         static_assert(Max >= length);
-        if ((input.size * sizeof(Type) + length) > Max) {
+        if (input.size > (Max - length) / sizeof(Type)) {
             return false;
         }
         data<Header>::serialize(input.header, storage_.begin());
-- 
2.43.0


From 38f4dc19681fa3c321009be02e699fd5bfbb2d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:59 +0000
Subject: [PATCH 28/34] fix: deserialising a packet from an array does not
 compile for members that are not byte-aligned

---
 include/xitren/func/packet.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xitren/func/packet.hpp b/include/xitren/func/packet.hpp
index 9525190..d967266 100644
--- a/include/xitren/func/packet.hpp
+++ b/include/xitren/func/packet.hpp
@@ -117,9 +117,9 @@ public:
     deserialize(std::array<std::uint8_t, Size> const& array) noexcept
     {
         static_assert(Size >= length);
-        auto [header, fields, crc] = data<struct_type>::deserialize(array.begin());
+        auto raw      = data<struct_type>::deserialize(array.begin());
         auto calc_crc = Crc::calculate(array.begin(), array.begin() + length - sizeof(typename Crc::value_type));
-        return {crc == calc_crc, header, fields};
+        return {raw.crc == calc_crc, Header(raw.header), Fields(raw.fields)};
     }
 
     template <typename InputIterator>
-- 
2.43.0


From 611ed87ee91b7238edb9ed650e6a9b3878bc52dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:59 +0000
Subject: [PATCH 29/34] fix: a constant packet hands out a dangling reference
 to members that are not byte-aligned

---
 include/xitren/func/packet.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/xitren/func/packet.hpp b/include/xitren/func/packet.hpp
index d967266..1df0f47 100644
--- a/include/xitren/func/packet.hpp
+++ b/include/xitren/func/packet.hpp
@@ -65,12 +65,14 @@ public:
     constexpr Header const&
     header() const noexcept
     {
+        static_assert(alignof(Header) == 1, "a reference to a packed member needs a byte-aligned type");
         return fields_.header;
     }
 
     constexpr Fields const&
     fields() const noexcept
     {
+        static_assert(alignof(Fields) == 1, "a reference to a packed member needs a byte-aligned type");
         return fields_.fields;
     }
 
@@ -89,6 +91,7 @@ public:
     constexpr typename Crc::value_type const&
     crc() const noexcept
     {
+        static_assert(alignof(typename Crc::value_type) == 1, "a reference to a packed member needs a byte-aligned type");
         return fields_.crc;
     }
 
-- 
2.43.0


From 329dc2520e9b4ec23df23e4eac2b93f7ee27fdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:10 +0000
Subject: [PATCH 30/34] fix: a packet serialised from members with internal
 padding carries the checksum of other bytes

---
 include/xitren/func/packet.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/xitren/func/packet.hpp b/include/xitren/func/packet.hpp
index 1df0f47..1bbb2d2 100644
--- a/include/xitren/func/packet.hpp
+++ b/include/xitren/func/packet.hpp
@@ -110,9 +110,7 @@ public:
     static constexpr array_type
     serialize(Header const& header, Fields const& fields) noexcept
     {
-        auto data_tr = data<struct_nocrc_type>::serialize({header, fields});
-        auto crc     = Crc::calculate(data_tr.begin(), data_tr.end());
-        return data<struct_type>::serialize({header, fields, crc});
+        return packet(header, fields).to_array();
     }
 
     template <std::size_t Size>
-- 
2.43.0


From 1b59670a530abb1f467c1c913ecc476952901dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:32 +0000
Subject: [PATCH 31/34] fix: copying a non-constant fast_pimpl constructs the
 object from the holder instead of from its object

---
 include/xitren/func/fast_pimpl.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/xitren/func/fast_pimpl.hpp b/include/xitren/func/fast_pimpl.hpp
index f22f236..f71c61f 100644
--- a/include/xitren/func/fast_pimpl.hpp
+++ b/include/xitren/func/fast_pimpl.hpp
@@ -50,6 +50,7 @@ public:
      * @tparam Args The types of the arguments to be passed to the object's constructor.
      */
     template <typename... Args>
+        requires(!(std::is_same_v<std::remove_cvref_t<Args>, fast_pimpl> && ... && (sizeof...(Args) == 1)))
     explicit fast_pimpl(Args&&... args) noexcept(noexcept(type{std::declval<Args>()...}))
     {
         new (get()) type(std::forward<Args>(args)...);
-- 
2.43.0


From c2adf708a39fde8fa494cbea19f1d28ed3006df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:43 +0000
Subject: [PATCH 32/34] fix: fast_pimpl turns an exception of the constructor
 it calls into termination when a brace-initialisation would not throw

---
 include/xitren/func/fast_pimpl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xitren/func/fast_pimpl.hpp b/include/xitren/func/fast_pimpl.hpp
index f71c61f..5217f3b 100644
--- a/include/xitren/func/fast_pimpl.hpp
+++ b/include/xitren/func/fast_pimpl.hpp
@@ -51,7 +51,7 @@ public:
      */
     template <typename... Args>
         requires(!(std::is_same_v<std::remove_cvref_t<Args>, fast_pimpl> && ... && (sizeof...(Args) == 1)))
-    explicit fast_pimpl(Args&&... args) noexcept(noexcept(type{std::declval<Args>()...}))
+    explicit fast_pimpl(Args&&... args) noexcept(std::is_nothrow_constructible_v<type, Args...>)
     {
         new (get()) type(std::forward<Args>(args)...);
     }
-- 
2.43.0


From 20668d5d3c7fe43ba6ee7498426c5a5629d735ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:21 +0000
Subject: [PATCH 33/34] fix: a static_heap smaller than its end marker writes
 outside its storage and hands out memory it does not have

---
 include/xitren/allocators/static_heap.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/xitren/allocators/static_heap.hpp b/include/xitren/allocators/static_heap.hpp
index 862683f..b42817b 100644
--- a/include/xitren/allocators/static_heap.hpp
+++ b/include/xitren/allocators/static_heap.hpp
@@ -17,8 +17,6 @@ namespace xitren::allocators {
 
 template <std::size_t Size>
 class static_heap {
-    static const std::size_t config_total_heap_size = Size;
-
     using callback_t = std::function<void(void)>;
 
     /* Define the linked list structure.  This is used to link free blocks in order
@@ -28,6 +26,9 @@ class static_heap {
         size_t               x_block_size;       /**< The size of the free block. */
     };
 
+    /* The end marker of the list takes its place in the smallest of heaps as well. */
+    static const std::size_t config_total_heap_size = Size < sizeof(block_link_t) ? sizeof(block_link_t) : Size;
+
 public:
     /* Used to pass information about the heap. */
     using heap_stats_t = struct {
-- 
2.43.0


From 8f954d7af0b9404fdb9455bad3604437bd4be44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:19 +0000
Subject: [PATCH 34/34] fix: a push whose item cannot be copied leaves the
 pipeline stage or pool as it was

The copy threw after a slot had been claimed; the slot was never filled, so the worker waited for it for ever,
later pushes blocked once the buffer was full and the destructor never returned.
---
 include/xitren/comm/pipeline_stage.hpp      | 6 ++++--
 include/xitren/comm/pipeline_stage_pool.hpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/xitren/comm/pipeline_stage.hpp b/include/xitren/comm/pipeline_stage.hpp
index 2ff608b..bb4af60 100644
--- a/include/xitren/comm/pipeline_stage.hpp
+++ b/include/xitren/comm/pipeline_stage.hpp
@@ -57,9 +57,10 @@ public:
     void
     push(Type const&& data)
     {
+        ready_type item{data};    // if this throws, nothing has been claimed
         auto const i = queue_.tail++;
         wait_for_slot(i);
-        queue_.array[i % queue_.array.size()] = data;
+        queue_.array[i % queue_.array.size()] = std::move(item);
         queue_.ready[i % queue_.array.size()] = true;
 #ifdef DEBUG
         Log::trace() << "Index: " << queue_.tail << "\n";
@@ -69,9 +70,10 @@ public:
     void
     push(Type const& data)
     {
+        ready_type item{data};    // if this throws, nothing has been claimed
         auto const i = queue_.tail++;
         wait_for_slot(i);
-        queue_.array[i % queue_.array.size()] = data;
+        queue_.array[i % queue_.array.size()] = std::move(item);
         queue_.ready[i % queue_.array.size()] = true;
 #ifdef DEBUG
         Log::trace() << "Index: " << queue_.tail << "\n";
diff --git a/include/xitren/comm/pipeline_stage_pool.hpp b/include/xitren/comm/pipeline_stage_pool.hpp
index 1d75065..ed210cd 100644
--- a/include/xitren/comm/pipeline_stage_pool.hpp
+++ b/include/xitren/comm/pipeline_stage_pool.hpp
@@ -115,10 +115,11 @@ public:
     void
     push(Type const&& data)
     {
+        ready_type item{data};    // if this throws, nothing has been claimed
         auto const min_id{min_thread()};
         auto const i = pool_[min_id].tail++;
         wait_for_slot(pool_[min_id], i);
-        pool_[min_id].array[i % pool_[min_id].array.size()] = data;
+        pool_[min_id].array[i % pool_[min_id].array.size()] = std::move(item);
         pool_[min_id].ready[i % pool_[min_id].array.size()] = true;
 #ifdef DEBUG
         Log::trace() << "Index[" << min_id << "]: " << pool_[min_id].tail << "\n";
@@ -128,10 +129,11 @@ public:
     void
     push(Type const& data)
     {
+        ready_type item{data};    // if this throws, nothing has been claimed
         auto const min_id{min_thread()};
         auto const i = pool_[min_id].tail++;
         wait_for_slot(pool_[min_id], i);
-        pool_[min_id].array[i % pool_[min_id].array.size()] = data;
+        pool_[min_id].array[i % pool_[min_id].array.size()] = std::move(item);
         pool_[min_id].ready[i % pool_[min_id].array.size()] = true;
 #ifdef DEBUG
         Log::trace() << "Index[" << min_id << "]: " << pool_[min_id].tail << "\n";
-- 
2.43.0


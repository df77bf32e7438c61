From cb4aee8c0d216e06560f8c22d7f6aa6b7325bd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:37 +0000
Subject: [PATCH 01/41] fix: escape() must escape DEL (0x7f), a non-printable
 character

---
 src/escape.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/escape.cc b/src/escape.cc
index d9c45c7..35e09be 100644
--- a/src/escape.cc
+++ b/src/escape.cc
@@ -60,7 +60,7 @@ std::string escape(string_view in)
                 escaped += "\\t";
                 break;
             default:
-                if (c < 32)
+                if (c < 32 || c == 127)
                 {
                     // This applies also to all non-ASCII characters (>127) because they
                     // are mapped to negative values
-- 
2.43.0


From 024bbec1bf70fcf461f6404b584711006bbe4d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:37 +0000
Subject: [PATCH 02/41] fix: string_view::substr() must clamp the length
 without overflowing pos + n

---
 include/gul14/string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gul14/string_view.h b/include/gul14/string_view.h
index 3f070a4..97647f6 100644
--- a/include/gul14/string_view.h
+++ b/include/gul14/string_view.h
@@ -214,7 +214,7 @@ public:
     constexpr basic_string_view substr(size_type pos, size_type n=npos) const {
         if ( pos > size())
             throw std::out_of_range ( "string_view::substr" );
-        if (n == npos || pos + n > size())
+        if (n > size() - pos)
             n = size () - pos;
         return basic_string_view(data() + pos, n);
     }
-- 
2.43.0


From 092733edd867a3adab852f1a458723c1b3a312bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:42 +0000
Subject: [PATCH 03/41] fix: string_view::compare(pos, n, x) must throw
 out_of_range instead of terminating

---
 include/gul14/string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gul14/string_view.h b/include/gul14/string_view.h
index 97647f6..998a886 100644
--- a/include/gul14/string_view.h
+++ b/include/gul14/string_view.h
@@ -225,7 +225,7 @@ public:
     }
 
     constexpr int compare(size_type pos1, size_type n1, basic_string_view x)
-    const noexcept {
+    const {
         return substr(pos1, n1).compare(x);
     }
 
-- 
2.43.0


From 39ea48c919a9fc02e0b20a0d458086a3ed599668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:43 +0000
Subject: [PATCH 04/41] fix: remove_outliers(begin, end, ...) must compile and
 return the remaining elements

---
 include/gul14/statistics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gul14/statistics.h b/include/gul14/statistics.h
index 23a5d3f..3ff122f 100644
--- a/include/gul14/statistics.h
+++ b/include/gul14/statistics.h
@@ -789,7 +789,7 @@ template <typename IteratorT,
 auto remove_outliers(IteratorT const& begin, IteratorT const& end,
         std::size_t outliers, Accessor accessor = ElementAccessor<ElementT>()) -> std::vector<ElementT>
 {
-    return remove_outliers(make_view(begin, end), outliers, accessor);
+    return remove_outliers(std::vector<ElementT>(begin, end), outliers, accessor);
 }
 
 /**
-- 
2.43.0


From 1441810942a119172ab0b857ee1fa43f51ce026a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:43 +0000
Subject: [PATCH 05/41] fix: within_orders() must not wrap around when a < b
 are unsigned

---
 include/gul14/num_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gul14/num_util.h b/include/gul14/num_util.h
index 63ddadf..278ddc8 100644
--- a/include/gul14/num_util.h
+++ b/include/gul14/num_util.h
@@ -96,7 +96,7 @@ template<typename NumT, typename OrderT,
     >>
 bool within_orders(const NumT a, const NumT b, const OrderT orders) noexcept(false) {
     // std::pow() is not noexcept, which might or might not be true
-    auto difference = gul14::abs(a - b);
+    auto difference = (a > b) ? a - b : b - a; // gul14::abs(a - b) would wrap around for unsigned types
     if (difference == NumT{ 0 })
         return true;
     auto maximum = std::max(gul14::abs(a), gul14::abs(b));
-- 
2.43.0


From 700282138bf1ba54a30a2f746a56c9950a5ff67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:10 +0000
Subject: [PATCH 06/41] fix: to_number() must not overflow the exponent of
 floating-point numbers

---
 include/gul14/to_number.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/gul14/to_number.h b/include/gul14/to_number.h
index e8bdb15..c33a6c4 100644
--- a/include/gul14/to_number.h
+++ b/include/gul14/to_number.h
@@ -23,6 +23,7 @@
 #ifndef GUL14_TO_NUMBER_H_
 #define GUL14_TO_NUMBER_H_
 
+#include <algorithm>
 #include <array>
 #include <cmath>
 #include <cstdint>
@@ -320,7 +321,10 @@ constexpr inline optional<NumberType> to_unsigned_float(gul14::string_view str)
         if (!opt_exp)
             return nullopt;
 
-        exponent = *opt_exp;
+        // Limit the exponent so that the adjustments below cannot overflow (the result is
+        // zero or infinity anyway)
+        constexpr int max_exponent = std::numeric_limits<int>::max() / 2;
+        exponent = std::min(std::max(*opt_exp, -max_exponent), max_exponent);
     }
 
     gul14::string_view str_before_point{ str };
-- 
2.43.0


From b048e9dfe4346e14bdd29a5c095614ff3782110e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:20 +0000
Subject: [PATCH 07/41] fix: to_number() must reject floating-point strings
 with foreign characters behind the significant digits

---
 include/gul14/to_number.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/gul14/to_number.h b/include/gul14/to_number.h
index c33a6c4..ee50a89 100644
--- a/include/gul14/to_number.h
+++ b/include/gul14/to_number.h
@@ -182,6 +182,14 @@ constexpr inline gul14::optional<NumberType> to_normalized_float(gul14::string_v
             >= std::numeric_limits<NumberType>::digits10,
             "FloatConversionIntType is too small for NumberType");
 
+    // Digits beyond the precision of the number type are ignored, but they must be digits
+    for (char c : i1)
+        if (not is_digit(c))
+            return nullopt;
+    for (char c : i2)
+        if (not is_digit(c))
+            return nullopt;
+
     i1 = i1.substr(0, std::min(i1.length(),
                 size_t(std::numeric_limits<FloatConversionIntType<NumberType>>::digits10)));
     i2 = i2.substr(0, std::min(i2.length(),
-- 
2.43.0


From a79028b0ee046e5f711c5f29455315ba7741b806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:14 +0000
Subject: [PATCH 08/41] fix: TaskHandle::cancel() must have no effect on tasks
 that are running or complete

The handle gave up its future even if the task was not removed from the queue, so
the result of a running or finished task was lost and its state reported as canceled.
---
 include/gul14/ThreadPool.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/gul14/ThreadPool.h b/include/gul14/ThreadPool.h
index 4b8819b..6e7ec82 100644
--- a/include/gul14/ThreadPool.h
+++ b/include/gul14/ThreadPool.h
@@ -172,8 +172,11 @@ public:
          */
         bool cancel()
         {
-            future_ = {};
-            return detail::lock_pool_or_throw(pool_)->cancel_pending_task(id_);
+            const bool removed =
+                detail::lock_pool_or_throw(pool_)->cancel_pending_task(id_);
+            if (removed)
+                future_ = {};
+            return removed;
         }
 
         /**
-- 
2.43.0


From 3a14dcbaa3cd2c61b06ae48fef3588d01e9e9045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:01 +0000
Subject: [PATCH 09/41] fix: TaskHandle must not report canceled tasks as
 complete, nor complete tasks as canceled

is_complete() returned true for tasks that were removed by cancel_pending_tasks() or by
destroying the pool (the future of a broken promise is ready), and false once the result
had been retrieved with get_result(). get_state() was wrong accordingly.
---
 include/gul14/ThreadPool.h | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/include/gul14/ThreadPool.h b/include/gul14/ThreadPool.h
index 6e7ec82..5a9c93d 100644
--- a/include/gul14/ThreadPool.h
+++ b/include/gul14/ThreadPool.h
@@ -25,6 +25,7 @@
 #ifndef GUL14_THREADPOOL_H_
 #define GUL14_THREADPOOL_H_
 
+#include <atomic>
 #include <chrono>
 #include <condition_variable>
 #include <functional>
@@ -152,11 +153,14 @@ public:
          *                task
          * \param pool    A shared pointer to the ThreadPool that the task is associated
          *                with
+         * \param started A shared flag that is set when the task is started
          */
-        TaskHandle(TaskId id, std::future<T> future, std::shared_ptr<ThreadPool> pool)
+        TaskHandle(TaskId id, std::future<T> future, std::shared_ptr<ThreadPool> pool,
+            std::shared_ptr<const std::atomic<bool>> started)
             : future_{ std::move(future) }
             , id_{ id }
             , pool_{ std::move(pool) }
+            , started_{ std::move(started) }
         {}
 
         /**
@@ -206,9 +210,12 @@ public:
          */
         bool is_complete() const
         {
-            if (not future_.valid())
+            if (not started_ || not *started_)
                 return false;
 
+            if (not future_.valid())
+                return true; // The result has already been retrieved
+
             return future_.wait_for(std::chrono::seconds(0)) == std::future_status::ready;
         }
 
@@ -242,6 +249,7 @@ public:
         std::future<T> future_;
         TaskId id_{ 0 };
         std::weak_ptr<ThreadPool> pool_;
+        std::shared_ptr<const std::atomic<bool>> started_;
     };
 
 
@@ -328,7 +336,8 @@ public:
                     PackagedTask{ std::move(fct) }, std::move(name));
 
                 TaskHandle<Result> handle{
-                    next_task_id_, named_task_ptr->fct_.get_future(), shared_from_this() };
+                    next_task_id_, named_task_ptr->fct_.get_future(), shared_from_this(),
+                    named_task_ptr->started_ };
 
                 pending_tasks_.emplace_back(
                     next_task_id_, std::move(named_task_ptr), start_time);
@@ -474,6 +483,8 @@ private:
         virtual void operator()(ThreadPool& pool) = 0;
 
         std::string name_;
+        std::shared_ptr<std::atomic<bool>> started_{
+            std::make_shared<std::atomic<bool>>(false) };
     };
 
     template <typename FunctionType>
@@ -485,7 +496,11 @@ private:
         , fct_{ std::move(fct) }
         {}
 
-        void operator()(ThreadPool& pool) override { fct_(pool); }
+        void operator()(ThreadPool& pool) override
+        {
+            *started_ = true;
+            fct_(pool);
+        }
 
         FunctionType fct_;
     };
-- 
2.43.0


From 97ddfe72ae650d36f426560f8ea6ad351c12fe1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:01 +0000
Subject: [PATCH 10/41] fix: TaskHandle::get_state() must not contradict
 is_complete() and get_result()

Between the moment in which the result becomes available and the one in which the worker
thread updates its bookkeeping, a task was still reported as running.
---
 include/gul14/ThreadPool.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/gul14/ThreadPool.h b/include/gul14/ThreadPool.h
index 5a9c93d..7c9ad78 100644
--- a/include/gul14/ThreadPool.h
+++ b/include/gul14/ThreadPool.h
@@ -235,13 +235,13 @@ public:
         {
             const auto state = detail::lock_pool_or_throw(pool_)->get_task_state(id_);
 
+            // The result is available a bit earlier than the pool notices the task's end
+            if (is_complete())
+                return TaskState::complete;
+
             if (state == InternalTaskState::unknown)
-            {
-                if (is_complete())
-                    return TaskState::complete;
-                else
-                    return TaskState::canceled;
-            }
+                return TaskState::canceled;
+
             return static_cast<TaskState>(state);
         }
 
-- 
2.43.0


From 2ffc8281cf4c75fcfcd5cf699ee36030a3cbbf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:01 +0000
Subject: [PATCH 11/41] fix: ThreadPool must start a due task if a worker
 thread is idle

If a worker thread that waited for the start time of a task was woken up to execute
another one, no thread was left to start the first task on time even though others
were idle.
---
 src/ThreadPool.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ThreadPool.cc b/src/ThreadPool.cc
index b125758..47a746c 100644
--- a/src/ThreadPool.cc
+++ b/src/ThreadPool.cc
@@ -239,6 +239,10 @@ void ThreadPool::perform_work()
         running_task_ids_.push_back(id);
         running_task_names_.push_back(name);
 
+        // Another thread must keep an eye on the remaining tasks while this one is busy
+        if (not pending_tasks_.empty())
+            cv_.notify_one();
+
         lock.unlock();
 
         try
-- 
2.43.0


From 5c36d6dec4f6b5a15b93952abd7e30f0d4b634be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:36 +0000
Subject: [PATCH 12/41] fix: ThreadPool constructor must not terminate the
 process if a thread cannot be started

The threads that were already running were destroyed without being joined.
---
 include/gul14/ThreadPool.h |  3 +++
 src/ThreadPool.cc          | 17 +++++++++++++++--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/gul14/ThreadPool.h b/include/gul14/ThreadPool.h
index 7c9ad78..00cebff 100644
--- a/include/gul14/ThreadPool.h
+++ b/include/gul14/ThreadPool.h
@@ -600,6 +600,9 @@ private:
      * repeats until asked to quit.
      */
     void perform_work();
+
+    /// Request shutdown and join all threads.
+    void shut_down();
 };
 
 /**
diff --git a/src/ThreadPool.cc b/src/ThreadPool.cc
index 47a746c..18eaa2c 100644
--- a/src/ThreadPool.cc
+++ b/src/ThreadPool.cc
@@ -61,11 +61,24 @@ ThreadPool::ThreadPool(std::size_t num_threads, std::size_t capacity)
         throw std::invalid_argument(cat("Illegal capacity for thread pool: ", capacity));
 
     threads_.reserve(num_threads);
-    while (threads_.size() < num_threads)
-        threads_.emplace_back([this]() { perform_work(); });
+    try
+    {
+        while (threads_.size() < num_threads)
+            threads_.emplace_back([this]() { perform_work(); });
+    }
+    catch (...)
+    {
+        shut_down();
+        throw;
+    }
 }
 
 ThreadPool::~ThreadPool()
+{
+    shut_down();
+}
+
+void ThreadPool::shut_down()
 {
     std::unique_lock<std::mutex> lock(mutex_);
     shutdown_requested_ = true;
-- 
2.43.0


From 5136c85f1058977db6e42ac7d0bd930c3df3ecff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:42 +0000
Subject: [PATCH 13/41] fix: a task may give up the last reference to its
 ThreadPool

TaskHandle::cancel() and get_state() as well as add_task() hold a temporary reference
to the pool. If this was the last one and the caller was a task, the destructor ran on a
worker thread, which deadlocked (add_task() still held the mutex) or terminated the
process (the thread tried to join itself).
---
 src/ThreadPool.cc | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/ThreadPool.cc b/src/ThreadPool.cc
index 18eaa2c..4934b93 100644
--- a/src/ThreadPool.cc
+++ b/src/ThreadPool.cc
@@ -192,7 +192,21 @@ std::shared_ptr<ThreadPool> ThreadPool::make_shared(
     std::size_t num_threads, std::size_t capacity)
 {
     // We cannot use std::make_shared() because the constructor is private.
-    return std::shared_ptr<ThreadPool>(new ThreadPool(num_threads, capacity));
+    return std::shared_ptr<ThreadPool>(new ThreadPool(num_threads, capacity),
+        [](ThreadPool* pool)
+        {
+            // If a task gives up the last reference to its pool, the destructor must run
+            // outside of the pool because a thread cannot join itself.
+            const bool called_from_pool =
+                std::any_of(pool->threads_.begin(), pool->threads_.end(),
+                    [](const std::thread& t)
+                    { return t.get_id() == std::this_thread::get_id(); });
+
+            if (called_from_pool)
+                std::thread([pool]() { delete pool; }).detach();
+            else
+                delete pool;
+        });
 }
 
 void ThreadPool::perform_work()
-- 
2.43.0


From 3de05647e572e4526315754b29b0d10e32430e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:38 +0000
Subject: [PATCH 14/41] fix: Trigger may be destructed while threads wait for
 it

As documented, the destructor releases waiting threads. These still used the mutex, the
condition variable, and the flag of the destructed object when they resumed.
---
 include/gul14/Trigger.h | 23 +++++++++++++++++++++--
 src/Trigger.cc          | 11 +++++++++--
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/include/gul14/Trigger.h b/include/gul14/Trigger.h
index 66770f9..15e8785 100644
--- a/include/gul14/Trigger.h
+++ b/include/gul14/Trigger.h
@@ -189,7 +189,8 @@ public:
     bool wait_for(const std::chrono::duration<Rep, Period>& delta_t) const
     {
         std::unique_lock<std::mutex> lock(mutex_);
-        return cv_.wait_for(lock, delta_t, [this]{ return triggered_; });
+        const WaitGuard guard{ *this };
+        return cv_.wait_for(lock, delta_t, [this]{ return triggered_ || destructing_; });
     }
 
     /**
@@ -212,13 +213,31 @@ public:
     bool wait_until(const std::chrono::time_point<Clock, Duration>& t) const
     {
         std::unique_lock<std::mutex> lock(mutex_);
-        return cv_.wait_until(lock, t, [this]{ return triggered_; });
+        const WaitGuard guard{ *this };
+        return cv_.wait_until(lock, t, [this]{ return triggered_ || destructing_; });
     }
 
 private:
     mutable std::mutex mutex_; // Protects private data and is used with the condition variable
     mutable std::condition_variable cv_;
     bool triggered_ = false;
+    bool destructing_ = false;
+    mutable unsigned long num_waiting_ = 0; // Number of threads inside of a wait function
+
+    // Count the calling thread as a waiting one (the mutex must be locked). The destructor
+    // must not return before all of them are gone.
+    struct WaitGuard
+    {
+        explicit WaitGuard(const Trigger& trg) noexcept : trg_(trg) { ++trg_.num_waiting_; }
+
+        ~WaitGuard()
+        {
+            if (--trg_.num_waiting_ == 0 && trg_.destructing_)
+                trg_.cv_.notify_all();
+        }
+
+        const Trigger& trg_;
+    };
 };
 
 /// @}
diff --git a/src/Trigger.cc b/src/Trigger.cc
index cbf4d61..1de0ee6 100644
--- a/src/Trigger.cc
+++ b/src/Trigger.cc
@@ -27,7 +27,13 @@ namespace gul14 {
 
 Trigger::~Trigger() noexcept
 {
-    trigger();
+    std::unique_lock<std::mutex> lock(mutex_);
+    triggered_ = true;
+    destructing_ = true;
+    cv_.notify_all();
+
+    // The waiting threads still need the mutex and the condition variable to resume
+    cv_.wait(lock, [this]{ return num_waiting_ == 0; });
 }
 
 Trigger &Trigger::operator=(bool interrupt) noexcept
@@ -72,7 +78,8 @@ void Trigger::trigger() noexcept
 void Trigger::wait() const
 {
     std::unique_lock<std::mutex> lock(mutex_);
-    cv_.wait(lock, [this]{ return triggered_; });
+    const WaitGuard guard{ *this };
+    cv_.wait(lock, [this]{ return triggered_ || destructing_; });
 }
 
 
-- 
2.43.0


From 78e9f7ea3a41e647878bbffd64ae318e80c267bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:37 +0000
Subject: [PATCH 15/41] fix: constant iterators of SlidingBuffer refer to
 constant elements

The iterator_traits of const_iterator claimed that dereferencing yields value_type&, so that
the iterators returned by crbegin() and crend() could not be dereferenced at all.
---
 include/gul14/SlidingBuffer.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/gul14/SlidingBuffer.h b/include/gul14/SlidingBuffer.h
index ab9c2a9..80a9af1 100644
--- a/include/gul14/SlidingBuffer.h
+++ b/include/gul14/SlidingBuffer.h
@@ -657,9 +657,13 @@ public:
         /// Distance between iterators is represented as this type.
         using difference_type = std::ptrdiff_t;
         /// This type represents a pointer-to-value_type.
-        using pointer = value_type*;
+        using pointer = std::conditional_t<
+            std::is_const<std::remove_pointer_t<BufferPointer>>::value,
+            const value_type*, value_type*>;
         /// This type represents a reference-to-value_type.
-        using reference = value_type&;
+        using reference = std::conditional_t<
+            std::is_const<std::remove_pointer_t<BufferPointer>>::value,
+            const value_type&, value_type&>;
 
         /**
          * Create an iterator pointing into a SlidingBuffer.
-- 
2.43.0


From 558c237a9ba578280d187710ac5f591a2bf68ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:37 +0000
Subject: [PATCH 16/41] fix: a moved-from SlidingBuffer is empty

With a std::vector as the underlying container, moving from a SlidingBuffer left it with a capacity
of zero, but with its old indices: size() exceeded capacity() and resize() accessed memory out of
bounds.
---
 include/gul14/SlidingBuffer.h | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/include/gul14/SlidingBuffer.h b/include/gul14/SlidingBuffer.h
index 80a9af1..540a78c 100644
--- a/include/gul14/SlidingBuffer.h
+++ b/include/gul14/SlidingBuffer.h
@@ -222,12 +222,27 @@ public:
     SlidingBuffer() = default;
     /// Default copy constructor.
     SlidingBuffer(SlidingBuffer const&) = default;
-    /// Default move constructor.
-    SlidingBuffer(SlidingBuffer&&) noexcept(std::is_nothrow_move_constructible<container_type>::value) = default;
+    /// Move constructor; the moved-from buffer is empty afterwards.
+    SlidingBuffer(SlidingBuffer&& other) noexcept(std::is_nothrow_move_constructible<container_type>::value)
+        : idx_begin_{ other.idx_begin_ }
+        , idx_end_{ other.idx_end_ }
+        , full_{ other.full_ }
+        , storage_(std::move(other.storage_))
+    {
+        other.reset_indices();
+    }
     /// Default copy assignment operator.
     SlidingBuffer& operator=(SlidingBuffer const&) = default;
-    /// Default move assignment operator.
-    SlidingBuffer& operator=(SlidingBuffer &&) noexcept(std::is_nothrow_move_assignable<container_type>::value) = default;
+    /// Move assignment operator; the moved-from buffer is empty afterwards.
+    SlidingBuffer& operator=(SlidingBuffer&& other) noexcept(std::is_nothrow_move_assignable<container_type>::value)
+    {
+        storage_ = std::move(other.storage_);
+        idx_begin_ = other.idx_begin_;
+        idx_end_ = other.idx_end_;
+        full_ = other.full_;
+        other.reset_indices();
+        return *this;
+    }
     /// Default Destructor.
     virtual ~SlidingBuffer() = default;
 
@@ -958,6 +973,14 @@ private:
             idx = 0;
     }
 
+    /// Forget about all elements.
+    void reset_indices() noexcept
+    {
+        idx_begin_ = 0u;
+        idx_end_ = 0u;
+        full_ = false;
+    }
+
 protected:
     /**
      * Change the underlying container's capacity.
-- 
2.43.0


From 7c5418a799c9c803056260ae119cfe15b039e84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:37 +0000
Subject: [PATCH 17/41] fix: SlidingBufferExposed::end() points past the last
 occupied element after pop_front()

After pop_front(), elements are stored contiguously without starting at the begin of the underlying
container. end() and cend() returned the end of the container then, so that a traversal visited
unoccupied elements and an empty buffer had begin() != end().
---
 include/gul14/SlidingBuffer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gul14/SlidingBuffer.h b/include/gul14/SlidingBuffer.h
index 540a78c..a39114a 100644
--- a/include/gul14/SlidingBuffer.h
+++ b/include/gul14/SlidingBuffer.h
@@ -1192,7 +1192,7 @@ public:
      */
     auto end() noexcept -> iterator
     {
-        if (full_ or idx_begin_ != 0)
+        if (full_ or idx_end_ < idx_begin_)
             return storage_.end();
 
         return storage_.begin() + idx_end_;
@@ -1212,7 +1212,7 @@ public:
      */
     auto cend() const noexcept -> const_iterator
     {
-        if (full_ or idx_begin_ != 0)
+        if (full_ or idx_end_ < idx_begin_)
             return storage_.cend();
 
         return storage_.cbegin() + idx_end_;
-- 
2.43.0


From 54f71e64e9fb304609f15d3db27963f9f8d214c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:37 +0000
Subject: [PATCH 18/41] fix: SmallVector::crbegin() and crend() can be called
 on constant vectors

---
 include/gul14/SmallVector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gul14/SmallVector.h b/include/gul14/SmallVector.h
index 57cd2ec..ea22843 100644
--- a/include/gul14/SmallVector.h
+++ b/include/gul14/SmallVector.h
@@ -578,7 +578,7 @@ public:
      *
      * The iterator cannot be dereferenced if the vector is empty.
      */
-    ConstReverseIterator crbegin() noexcept
+    ConstReverseIterator crbegin() const noexcept
     {
         return std::make_reverse_iterator(end());
     }
@@ -589,7 +589,7 @@ public:
      *
      * The iterator cannot be dereferenced if the vector is empty.
      */
-    ConstReverseIterator crend() noexcept
+    ConstReverseIterator crend() const noexcept
     {
         return std::make_reverse_iterator(begin());
     }
-- 
2.43.0


From 7ef47277f6bf644cbb2d85689c9b240862d6e170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:37 +0000
Subject: [PATCH 19/41] fix: SmallVector::erase() of an empty range leaves the
 elements alone

All elements from the given position on were move-assigned to themselves, which clears elements like
std::string or std::vector.
---
 include/gul14/SmallVector.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/gul14/SmallVector.h b/include/gul14/SmallVector.h
index ea22843..13421b7 100644
--- a/include/gul14/SmallVector.h
+++ b/include/gul14/SmallVector.h
@@ -738,6 +738,9 @@ public:
         auto range_end = const_cast<Iterator>(last);
         auto num_elements = range_end - range_begin;
 
+        if (num_elements == 0)
+            return range_begin;
+
         std::move(range_end, end(), range_begin);
         destroy_range(end() - num_elements, end());
 
-- 
2.43.0


From ce0ead7d6982797b79ef2c2196e5b1a25bc9bdf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:37 +0000
Subject: [PATCH 20/41] fix: SmallVector accepts ranges of all input iterators

According to the documentation, the constructor, assign() and insert() take a range given by two
input iterators. insert() did not compile unless they were random access iterators, and a range that
can be traversed only once resulted in uninitialized elements.
---
 include/gul14/SmallVector.h | 69 ++++++++++++++++++++++++++++---------
 1 file changed, 52 insertions(+), 17 deletions(-)

diff --git a/include/gul14/SmallVector.h b/include/gul14/SmallVector.h
index 13421b7..692e06e 100644
--- a/include/gul14/SmallVector.h
+++ b/include/gul14/SmallVector.h
@@ -853,23 +853,8 @@ public:
              typename = std::enable_if_t<not std::is_integral<InputIterator>::value>>
     Iterator insert(ConstIterator pos, InputIterator first, InputIterator last)
     {
-        const auto idx = static_cast<SizeType>(pos - begin());
-        const auto num_elements = static_cast<SizeType>(std::distance(first, last));
-        if (num_elements < 1)
-            return begin() + idx;
-
-        const SizeType num_assignable = make_space_at_idx_for_n_elements(idx, num_elements);
-        Iterator insert_pos = begin() + idx;
-
-        // Copy-assign to moved-from elements
-        std::copy_n(first, num_assignable, insert_pos);
-
-        // Copy the remaining values into uninitialized cells
-        copy_range_into_uninitialized_cells(size_, first + num_assignable, last);
-
-        size_ += num_elements;
-
-        return insert_pos;
+        return insert_range(pos, first, last,
+            typename std::iterator_traits<InputIterator>::iterator_category{});
     }
 
     /**
@@ -1324,6 +1309,22 @@ private:
      */
     template<typename InputIterator>
     void fill_empty_vector_with_copied_range(InputIterator first, InputIterator last)
+    {
+        fill_empty_vector_with_copied_range(first, last,
+            typename std::iterator_traits<InputIterator>::iterator_category{});
+    }
+
+    template<typename InputIterator>
+    void fill_empty_vector_with_copied_range(InputIterator first, InputIterator last,
+                                             std::input_iterator_tag)
+    {
+        for (; first != last; ++first)
+            push_back(ValueType{ *first });
+    }
+
+    template<typename ForwardIterator>
+    void fill_empty_vector_with_copied_range(ForwardIterator first, ForwardIterator last,
+                                             std::forward_iterator_tag)
     {
         const auto num_elements = static_cast<SizeType>(std::distance(first, last));
 
@@ -1429,6 +1430,40 @@ private:
         return insert_pos;
     }
 
+    /// Insert a range of values that can be traversed several times.
+    template<class ForwardIterator>
+    Iterator insert_range(ConstIterator pos, ForwardIterator first, ForwardIterator last,
+                          std::forward_iterator_tag)
+    {
+        const auto idx = static_cast<SizeType>(pos - begin());
+        const auto num_elements = static_cast<SizeType>(std::distance(first, last));
+        if (num_elements < 1)
+            return begin() + idx;
+
+        const SizeType num_assignable = make_space_at_idx_for_n_elements(idx, num_elements);
+        Iterator insert_pos = begin() + idx;
+
+        // Copy-assign to moved-from elements
+        std::copy_n(first, num_assignable, insert_pos);
+
+        // Copy the remaining values into uninitialized cells
+        copy_range_into_uninitialized_cells(size_, std::next(first, num_assignable), last);
+
+        size_ += num_elements;
+
+        return insert_pos;
+    }
+
+    /// Insert a range of values that can be traversed only once.
+    template<class InputIterator>
+    Iterator insert_range(ConstIterator pos, InputIterator first, InputIterator last,
+                          std::input_iterator_tag)
+    {
+        SmallVector values(first, last);
+        return insert(pos, std::make_move_iterator(values.begin()),
+                      std::make_move_iterator(values.end()));
+    }
+
     /// Determine if this vector is using allocated external storage.
     bool is_storage_allocated() const noexcept
     {
-- 
2.43.0


From db1348d63c1cbdde16b7d746f00a9d9f3e7f4f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:37 +0000
Subject: [PATCH 21/41] fix: elements of a SmallVector may be passed to its own
 member functions

push_back(), emplace_back(), insert(), resize() and assign() used a reference to one of the vector's
own elements after that element had been moved or destroyed.
---
 include/gul14/SmallVector.h | 83 ++++++++++++++++++++++++++++---------
 1 file changed, 64 insertions(+), 19 deletions(-)

diff --git a/include/gul14/SmallVector.h b/include/gul14/SmallVector.h
index 692e06e..5da4975 100644
--- a/include/gul14/SmallVector.h
+++ b/include/gul14/SmallVector.h
@@ -435,8 +435,9 @@ public:
      */
     void assign(SizeType num_elements, const ValueType& value)
     {
+        const ValueType copied_value(value); // value may refer to an element of this vector
         clear();
-        fill_empty_vector_with_copied_value(num_elements, value);
+        fill_empty_vector_with_copied_value(num_elements, copied_value);
     }
 
     /**
@@ -672,7 +673,10 @@ public:
     Reference emplace_back(ArgumentTypes&&... arguments)
     {
         if (size_ == capacity_)
-            grow();
+        {
+            emplace_back_and_grow(std::forward<ArgumentTypes>(arguments)...);
+            return back();
+        }
 
         ::new(static_cast<void*>(data_end()))
             ValueType(std::forward<ArgumentTypes>(arguments)...);
@@ -784,7 +788,14 @@ public:
      */
     Iterator insert(ConstIterator pos, const ValueType& value)
     {
-        return insert_single_value(pos, value);
+        if (pos == end())
+        {
+            push_back(value);
+            return end() - 1;
+        }
+
+        // The value may refer to an element of this vector, so we need to copy it first
+        return insert_single_value(pos, ValueType(value));
     }
 
     /**
@@ -816,14 +827,16 @@ public:
         if (num_elements < 1)
             return begin() + idx;
 
+        const ValueType copied_value(value); // value may refer to an element of this vector
+
         const SizeType num_assignable = make_space_at_idx_for_n_elements(idx, num_elements);
         Iterator insert_pos = begin() + idx;
 
         // Copy-assign to moved-from elements
-        std::fill_n(insert_pos, num_assignable, value);
+        std::fill_n(insert_pos, num_assignable, copied_value);
 
         // Copy the remaining values into uninitialized cells
-        copy_value_into_uninitialized_cells(size_, num_elements - num_assignable, value);
+        copy_value_into_uninitialized_cells(size_, num_elements - num_assignable, copied_value);
 
         size_ += num_elements;
 
@@ -1002,12 +1015,7 @@ public:
      */
     void push_back(const ValueType& value)
     {
-        if (size_ == capacity_)
-            grow();
-
-        ::new(static_cast<void*>(data_end())) ValueType(value);
-
-        ++size_;
+        emplace_back(value);
     }
 
     /**
@@ -1020,12 +1028,7 @@ public:
      */
     void push_back(ValueType&& value)
     {
-        if (size_ == capacity_)
-            grow();
-
-        ::new(static_cast<void*>(data_end())) ValueType(std::move(value));
-
-        ++size_;
+        emplace_back(std::move(value));
     }
 
     /**
@@ -1129,8 +1132,9 @@ public:
         }
         else if (num_elements > size_)
         {
+            const ValueType value(element); // element may be part of this vector
             reserve(num_elements);
-            copy_value_into_uninitialized_cells(size_, num_elements - size_, element);
+            copy_value_into_uninitialized_cells(size_, num_elements - size_, value);
         }
 
         size_ = num_elements;
@@ -1385,6 +1389,12 @@ private:
      *            reached and cannot be increased.
      */
     void grow()
+    {
+        reserve(get_grown_capacity());
+    }
+
+    /// Return the capacity to which the vector should grow next.
+    SizeType get_grown_capacity() const
     {
         const auto remaining_space = std::numeric_limits<SizeType>::max() - capacity_;
 
@@ -1397,7 +1407,42 @@ private:
         else if (increase == 0u)
             increase = 1u;
 
-        reserve(capacity_ + increase);
+        return capacity_ + increase;
+    }
+
+    /**
+     * Add an element at the end of the vector while moving all others to a larger storage.
+     *
+     * The new element is constructed first because the arguments may refer to an element
+     * of this vector.
+     */
+    template <typename... ArgumentTypes>
+    void emplace_back_and_grow(ArgumentTypes&&... arguments)
+    {
+        const SizeType new_capacity = get_grown_capacity();
+        auto new_storage = std::make_unique<AlignedStorage[]>(new_capacity);
+        const auto new_data = reinterpret_cast<ValueType*>(new_storage.get());
+        const auto new_element = ::new(static_cast<void*>(new_data + size_))
+            ValueType(std::forward<ArgumentTypes>(arguments)...);
+
+        try
+        {
+            uninitialized_move_or_copy(data(), data_end(), new_data);
+        }
+        catch (...)
+        {
+            new_element->~ValueType();
+            throw;
+        }
+
+        destroy_range(data(), data_end());
+
+        if (is_storage_allocated())
+            delete[] data_ptr_;
+
+        data_ptr_ = new_storage.release();
+        capacity_ = new_capacity;
+        ++size_;
     }
 
     /// Insert a single value before the given position.
-- 
2.43.0


From 27224955a586e10552c31a4062c6c9432aee451b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:37 +0000
Subject: [PATCH 22/41] fix: SmallVector does not lose track of its elements
 and memory if an exception is thrown

If copying or moving an element failed, constructors leaked the allocated memory and all elements
that had been constructed so far, and insert(), emplace() and resize() did not destroy elements that
they had constructed behind the end of the vector.
---
 include/gul14/SmallVector.h | 81 +++++++++++++++++++++++++++----------
 1 file changed, 59 insertions(+), 22 deletions(-)

diff --git a/include/gul14/SmallVector.h b/include/gul14/SmallVector.h
index 5da4975..c4a13ef 100644
--- a/include/gul14/SmallVector.h
+++ b/include/gul14/SmallVector.h
@@ -322,14 +322,13 @@ public:
      *
      * \param num_elements  The number of initial elements
      */
-    explicit SmallVector(SizeType num_elements)
+    explicit SmallVector(SizeType num_elements) : SmallVector()
     {
         static_assert(std::is_default_constructible<ValueType>::value,
             "SmallVector: Element type is not default-constructible");
 
         reserve(num_elements);
-        for (SizeType i = 0u; i != num_elements; ++i)
-            ::new(static_cast<void*>(data() + i)) ValueType{};
+        fill_uninitialized_cells_with_default_constructed_elements(0u, num_elements);
         size_ = num_elements;
     }
 
@@ -340,7 +339,7 @@ public:
      * \param num_elements  The number of initial elements
      * \param value         The value to be copied to the initial elements
      */
-    SmallVector(SizeType num_elements, const ValueType& value)
+    SmallVector(SizeType num_elements, const ValueType& value) : SmallVector()
     {
         fill_empty_vector_with_copied_value(num_elements, value);
     }
@@ -363,7 +362,7 @@ public:
      */
     template<class InputIterator,
              typename = std::enable_if_t<not std::is_integral<InputIterator>::value>>
-    SmallVector(InputIterator first, InputIterator last)
+    SmallVector(InputIterator first, InputIterator last) : SmallVector()
     {
         fill_empty_vector_with_copied_range(first, last);
     }
@@ -378,6 +377,7 @@ public:
      */
     SmallVector(const SmallVector& other)
         noexcept(std::is_nothrow_copy_constructible<ValueType>::value)
+        : SmallVector()
     {
         static_assert(std::is_copy_constructible<ValueType>::value == true,
             "SmallVector: Element type is not copy-constructible");
@@ -412,7 +412,7 @@ public:
      * \warning The behavior is undefined if the number of elements in the initializer
      *          list exceeds max_size().
      */
-    SmallVector(std::initializer_list<ValueType> init)
+    SmallVector(std::initializer_list<ValueType> init) : SmallVector()
     {
         fill_empty_vector_with_copied_range(init.begin(), init.end());
     }
@@ -832,11 +832,21 @@ public:
         const SizeType num_assignable = make_space_at_idx_for_n_elements(idx, num_elements);
         Iterator insert_pos = begin() + idx;
 
-        // Copy-assign to moved-from elements
-        std::fill_n(insert_pos, num_assignable, copied_value);
+        try
+        {
+            // Copy-assign to moved-from elements
+            std::fill_n(insert_pos, num_assignable, copied_value);
 
-        // Copy the remaining values into uninitialized cells
-        copy_value_into_uninitialized_cells(size_, num_elements - num_assignable, copied_value);
+            // Copy the remaining values into uninitialized cells
+            copy_value_into_uninitialized_cells(size_, num_elements - num_assignable, copied_value);
+        }
+        catch (...)
+        {
+            // Get rid of the shifted elements beyond the current end
+            const auto shifted_end = data_end() + num_elements;
+            destroy_range(shifted_end - num_assignable, shifted_end);
+            throw;
+        }
 
         size_ += num_elements;
 
@@ -1267,8 +1277,18 @@ private:
     {
         const auto start_ptr = data() + pos;
         const auto end_ptr = start_ptr + num_elements;
-        for (auto p = start_ptr; p != end_ptr; ++p)
-            ::new(static_cast<void*>(p)) ValueType(value);
+        auto p = start_ptr;
+
+        try
+        {
+            for (; p != end_ptr; ++p)
+                ::new(static_cast<void*>(p)) ValueType(value);
+        }
+        catch (...)
+        {
+            destroy_range(start_ptr, p);
+            throw;
+        }
     }
 
     /// Return a non-dereferencable pointer past the last element.
@@ -1466,10 +1486,10 @@ private:
 
         // Construct new back() element by moving from the old back()
         ::new(static_cast<void*>(data_ptr + size_)) ValueType(std::move(*(data_ptr + size_ - 1)));
-
-        std::move_backward(insert_pos, data_ptr + size_ - 1, data_ptr + size_);
         ++size_;
 
+        std::move_backward(insert_pos, data_ptr + size_ - 2, data_ptr + size_ - 1);
+
         *insert_pos = std::forward<T>(value);
 
         return insert_pos;
@@ -1488,11 +1508,21 @@ private:
         const SizeType num_assignable = make_space_at_idx_for_n_elements(idx, num_elements);
         Iterator insert_pos = begin() + idx;
 
-        // Copy-assign to moved-from elements
-        std::copy_n(first, num_assignable, insert_pos);
+        try
+        {
+            // Copy-assign to moved-from elements
+            std::copy_n(first, num_assignable, insert_pos);
 
-        // Copy the remaining values into uninitialized cells
-        copy_range_into_uninitialized_cells(size_, std::next(first, num_assignable), last);
+            // Copy the remaining values into uninitialized cells
+            copy_range_into_uninitialized_cells(size_, std::next(first, num_assignable), last);
+        }
+        catch (...)
+        {
+            // Get rid of the shifted elements beyond the current end
+            const auto shifted_end = data_end() + num_elements;
+            destroy_range(shifted_end - num_assignable, shifted_end);
+            throw;
+        }
 
         size_ += num_elements;
 
@@ -1544,11 +1574,18 @@ private:
         // Move-initialize elements in uninitialized space at the back of the container
         const auto from_ptr = data_ptr + size_ - num_move_initialized;
         const auto to_ptr = from_ptr + num_elements;
-        for (SizeType i = 0; i != num_move_initialized; ++i)
-            ::new(static_cast<void*>(to_ptr + i)) ValueType(std::move(*(from_ptr + i)));
+        uninitialized_move(from_ptr, from_ptr + num_move_initialized, to_ptr);
 
-        // Move elements backwards within old vector size
-        std::move_backward(data_ptr + idx, data_ptr + idx + num_moved, to_ptr);
+        try
+        {
+            // Move elements backwards within old vector size
+            std::move_backward(data_ptr + idx, data_ptr + idx + num_moved, to_ptr);
+        }
+        catch (...)
+        {
+            destroy_range(to_ptr, to_ptr + num_move_initialized);
+            throw;
+        }
 
         return num_move_initialized;
     }
-- 
2.43.0


From 705fbe98ba7ac85b3d84526f9e46fca82c2a1365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:19 +0000
Subject: [PATCH 23/41] fix: operator!= of expected<void, E> objects with
 different errors

---
 include/gul14/expected.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gul14/expected.h b/include/gul14/expected.h
index 91354be..8f406c8 100644
--- a/include/gul14/expected.h
+++ b/include/gul14/expected.h
@@ -2171,7 +2171,7 @@ constexpr bool operator!=(const expected<void, E> &lhs,
                           const expected<void, F> &rhs) {
   return (lhs.has_value() != rhs.has_value())
              ? true
-             : (!lhs.has_value() ? lhs.error() == rhs.error() : false);
+             : (!lhs.has_value() ? lhs.error() != rhs.error() : false);
 }
 
 template <class T, class E, class U>
-- 
2.43.0


From 23ed28096f7d9ee8edff37d5cb7ea98969364846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:25 +0000
Subject: [PATCH 24/41] fix: converting constructors of expected do not
 construct a value beforehand

---
 include/gul14/expected.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/gul14/expected.h b/include/gul14/expected.h
index 8f406c8..cb5771e 100644
--- a/include/gul14/expected.h
+++ b/include/gul14/expected.h
@@ -1492,7 +1492,8 @@ public:
             detail::expected_enable_from_other<T, E, U, G, const U &, const G &>
                 * = nullptr>
   explicit constexpr expected(const expected<U, G> &rhs)
-      : ctor_base(detail::default_constructor_tag{}) {
+      : impl_base(detail::no_init),
+        ctor_base(detail::default_constructor_tag{}) {
     if (rhs.has_value()) {
       this->construct(*rhs);
     } else {
@@ -1507,7 +1508,8 @@ public:
             detail::expected_enable_from_other<T, E, U, G, const U &, const G &>
                 * = nullptr>
   constexpr expected(const expected<U, G> &rhs)
-      : ctor_base(detail::default_constructor_tag{}) {
+      : impl_base(detail::no_init),
+        ctor_base(detail::default_constructor_tag{}) {
     if (rhs.has_value()) {
       this->construct(*rhs);
     } else {
@@ -1521,7 +1523,8 @@ public:
                             std::is_convertible<G &&, E>::value)> * = nullptr,
       detail::expected_enable_from_other<T, E, U, G, U &&, G &&> * = nullptr>
   explicit constexpr expected(expected<U, G> &&rhs)
-      : ctor_base(detail::default_constructor_tag{}) {
+      : impl_base(detail::no_init),
+        ctor_base(detail::default_constructor_tag{}) {
     if (rhs.has_value()) {
       this->construct(std::move(*rhs));
     } else {
@@ -1535,7 +1538,8 @@ public:
                            std::is_convertible<G &&, E>::value)> * = nullptr,
       detail::expected_enable_from_other<T, E, U, G, U &&, G &&> * = nullptr>
   constexpr expected(expected<U, G> &&rhs)
-      : ctor_base(detail::default_constructor_tag{}) {
+      : impl_base(detail::no_init),
+        ctor_base(detail::default_constructor_tag{}) {
     if (rhs.has_value()) {
       this->construct(std::move(*rhs));
     } else {
-- 
2.43.0


From dfd0b2b671ce9d056e5b63d2d6d84228b6bb012b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:48 +0000
Subject: [PATCH 25/41] fix: expected survives exceptions thrown while values
 or errors are copied or moved

---
 include/gul14/expected.h | 233 ++++++++++++++++++++++++++-------------
 1 file changed, 156 insertions(+), 77 deletions(-)

diff --git a/include/gul14/expected.h b/include/gul14/expected.h
index cb5771e..d6496a3 100644
--- a/include/gul14/expected.h
+++ b/include/gul14/expected.h
@@ -359,6 +359,11 @@ using is_move_assignable_or_void = is_void_or<T, std::is_move_assignable<T>>;
 struct no_init_t {};
 static constexpr no_init_t no_init{};
 
+// Tag for constructing the value or the error from that of another expected. If
+// that fails, there is nothing to destroy because the storage has not come to life.
+struct from_other_t {};
+static constexpr from_other_t from_other{};
+
 // Implements the storage of the values, and ensures that the destructor is
 // trivial if it can be.
 //
@@ -371,6 +376,17 @@ struct expected_storage_base {
   constexpr expected_storage_base() : m_val(T{}), m_has_val(true) {}
   constexpr expected_storage_base(no_init_t) : m_no_init(), m_has_val(false) {}
 
+  template <class Rhs>
+  expected_storage_base(from_other_t, Rhs &&rhs)
+      : m_no_init(), m_has_val(rhs.m_has_val) {
+    if (m_has_val) {
+      new (std::addressof(m_val)) T(std::forward<Rhs>(rhs).m_val);
+    } else {
+      new (std::addressof(m_unexpect))
+          unexpected<E>(std::forward<Rhs>(rhs).m_unexpect.value());
+    }
+  }
+
   template <class... Args,
             detail::enable_if_t<std::is_constructible<T, Args &&...>::value> * =
                 nullptr>
@@ -418,6 +434,17 @@ template <class T, class E> struct expected_storage_base<T, E, true, true> {
   constexpr expected_storage_base() : m_val(T{}), m_has_val(true) {}
   constexpr expected_storage_base(no_init_t) : m_no_init(), m_has_val(false) {}
 
+  template <class Rhs>
+  expected_storage_base(from_other_t, Rhs &&rhs)
+      : m_no_init(), m_has_val(rhs.m_has_val) {
+    if (m_has_val) {
+      new (std::addressof(m_val)) T(std::forward<Rhs>(rhs).m_val);
+    } else {
+      new (std::addressof(m_unexpect))
+          unexpected<E>(std::forward<Rhs>(rhs).m_unexpect.value());
+    }
+  }
+
   template <class... Args,
             detail::enable_if_t<std::is_constructible<T, Args &&...>::value> * =
                 nullptr>
@@ -459,6 +486,17 @@ template <class T, class E> struct expected_storage_base<T, E, true, false> {
   constexpr expected_storage_base(no_init_t)
       : m_no_init(), m_has_val(false) {}
 
+  template <class Rhs>
+  expected_storage_base(from_other_t, Rhs &&rhs)
+      : m_no_init(), m_has_val(rhs.m_has_val) {
+    if (m_has_val) {
+      new (std::addressof(m_val)) T(std::forward<Rhs>(rhs).m_val);
+    } else {
+      new (std::addressof(m_unexpect))
+          unexpected<E>(std::forward<Rhs>(rhs).m_unexpect.value());
+    }
+  }
+
   template <class... Args,
             detail::enable_if_t<std::is_constructible<T, Args &&...>::value> * =
                 nullptr>
@@ -504,6 +542,17 @@ template <class T, class E> struct expected_storage_base<T, E, false, true> {
   constexpr expected_storage_base() : m_val(T{}), m_has_val(true) {}
   constexpr expected_storage_base(no_init_t) : m_no_init(), m_has_val(false) {}
 
+  template <class Rhs>
+  expected_storage_base(from_other_t, Rhs &&rhs)
+      : m_no_init(), m_has_val(rhs.m_has_val) {
+    if (m_has_val) {
+      new (std::addressof(m_val)) T(std::forward<Rhs>(rhs).m_val);
+    } else {
+      new (std::addressof(m_unexpect))
+          unexpected<E>(std::forward<Rhs>(rhs).m_unexpect.value());
+    }
+  }
+
   template <class... Args,
             detail::enable_if_t<std::is_constructible<T, Args &&...>::value> * =
                 nullptr>
@@ -554,6 +603,15 @@ template <class E> struct expected_storage_base<void, E, false, true> {
 
   constexpr expected_storage_base(no_init_t) : m_val(), m_has_val(false) {}
 
+  template <class Rhs>
+  expected_storage_base(from_other_t, Rhs &&rhs)
+      : m_val(), m_has_val(rhs.m_has_val) {
+    if (!m_has_val) {
+      new (std::addressof(m_unexpect))
+          unexpected<E>(std::forward<Rhs>(rhs).m_unexpect.value());
+    }
+  }
+
   constexpr expected_storage_base(in_place_t) : m_has_val(true) {}
 
   template <class... Args,
@@ -584,6 +642,15 @@ template <class E> struct expected_storage_base<void, E, false, false> {
   constexpr expected_storage_base() : m_dummy(), m_has_val(true) {}
   constexpr expected_storage_base(no_init_t) : m_dummy(), m_has_val(false) {}
 
+  template <class Rhs>
+  expected_storage_base(from_other_t, Rhs &&rhs)
+      : m_dummy(), m_has_val(rhs.m_has_val) {
+    if (!m_has_val) {
+      new (std::addressof(m_unexpect))
+          unexpected<E>(std::forward<Rhs>(rhs).m_unexpect.value());
+    }
+  }
+
   constexpr expected_storage_base(in_place_t) : m_dummy(), m_has_val(true) {}
 
   template <class... Args,
@@ -619,17 +686,12 @@ template <class T, class E>
 struct expected_operations_base : expected_storage_base<T, E> {
   using expected_storage_base<T, E>::expected_storage_base;
 
-  template <class... Args> void construct(Args &&...args) noexcept {
+  template <class... Args> void construct(Args &&...args) {
     new (std::addressof(this->m_val)) T(std::forward<Args>(args)...);
     this->m_has_val = true;
   }
 
-  template <class Rhs> void construct_with(Rhs &&rhs) noexcept {
-    new (std::addressof(this->m_val)) T(std::forward<Rhs>(rhs).get());
-    this->m_has_val = true;
-  }
-
-  template <class... Args> void construct_error(Args &&...args) noexcept {
+  template <class... Args> void construct_error(Args &&...args) {
     new (std::addressof(this->m_unexpect))
         unexpected<E>(std::forward<Args>(args)...);
     this->m_has_val = false;
@@ -646,7 +708,7 @@ struct expected_operations_base : expected_storage_base<T, E> {
   template <class U = T,
             detail::enable_if_t<std::is_nothrow_copy_constructible<U>::value>
                 * = nullptr>
-  void assign(const expected_operations_base &rhs) noexcept {
+  void assign(const expected_operations_base &rhs) {
     if (!this->m_has_val && rhs.m_has_val) {
       geterr().~unexpected<E>();
       construct(rhs.get());
@@ -661,7 +723,7 @@ struct expected_operations_base : expected_storage_base<T, E> {
             detail::enable_if_t<!std::is_nothrow_copy_constructible<U>::value &&
                                 std::is_nothrow_move_constructible<U>::value>
                 * = nullptr>
-  void assign(const expected_operations_base &rhs) noexcept {
+  void assign(const expected_operations_base &rhs) {
     if (!this->m_has_val && rhs.m_has_val) {
       T tmp = rhs.get();
       geterr().~unexpected<E>();
@@ -689,7 +751,7 @@ struct expected_operations_base : expected_storage_base<T, E> {
       try {
         construct(rhs.get());
       } catch (...) {
-        geterr() = std::move(tmp);
+        construct_error(std::move(tmp));
         throw;
       }
 #else
@@ -704,7 +766,7 @@ struct expected_operations_base : expected_storage_base<T, E> {
   template <class U = T,
             detail::enable_if_t<std::is_nothrow_move_constructible<U>::value>
                 * = nullptr>
-  void assign(expected_operations_base &&rhs) noexcept {
+  void assign(expected_operations_base &&rhs) {
     if (!this->m_has_val && rhs.m_has_val) {
       geterr().~unexpected<E>();
       construct(std::move(rhs).get());
@@ -724,7 +786,7 @@ struct expected_operations_base : expected_storage_base<T, E> {
       try {
         construct(std::move(rhs).get());
       } catch (...) {
-        geterr() = std::move(tmp);
+        construct_error(std::move(tmp));
         throw;
       }
 #else
@@ -764,8 +826,9 @@ struct expected_operations_base : expected_storage_base<T, E> {
       if (rhs.m_has_val) {
         get() = std::forward<Rhs>(rhs).get();
       } else {
-        destroy_val();
-        construct_error(std::forward<Rhs>(rhs).geterr());
+        replace_val_by_error(
+            typename std::is_nothrow_move_constructible<E>::type{},
+            std::forward<Rhs>(rhs).geterr());
       }
     } else {
       if (!rhs.m_has_val) {
@@ -774,6 +837,30 @@ struct expected_operations_base : expected_storage_base<T, E> {
     }
   }
 
+  // Replace the value by an error. If moving an error cannot fail, it suffices to
+  // make the new error before destroying the value...
+  template <class Err> void replace_val_by_error(std::true_type, Err &&err) {
+    unexpected<E> tmp(std::forward<Err>(err));
+    destroy_val();
+    construct_error(std::move(tmp));
+  }
+
+  // ...otherwise, the value is put aside and moved back in case of failure.
+  template <class Err> void replace_val_by_error(std::false_type, Err &&err) {
+    T tmp = std::move(get());
+    destroy_val();
+#ifdef GUL14_EXPECTED_EXCEPTIONS_ENABLED
+    try {
+      construct_error(std::forward<Err>(err));
+    } catch (...) {
+      construct(std::move(tmp));
+      throw;
+    }
+#else
+    construct_error(std::forward<Err>(err));
+#endif
+  }
+
   bool has_value() const { return this->m_has_val; }
 
   constexpr T &get() & { return this->m_val; }
@@ -803,19 +890,13 @@ struct expected_operations_base<void, E> : expected_storage_base<void, E> {
 
   template <class... Args> void construct() noexcept { this->m_has_val = true; }
 
-  // This function doesn't use its argument, but needs it so that code in
-  // levels above this can work independently of whether T is void
-  template <class Rhs> void construct_with(Rhs &&) noexcept {
-    this->m_has_val = true;
-  }
-
-  template <class... Args> void construct_error(Args &&...args) noexcept {
+  template <class... Args> void construct_error(Args &&...args) {
     new (std::addressof(this->m_unexpect))
         unexpected<E>(std::forward<Args>(args)...);
     this->m_has_val = false;
   }
 
-  template <class Rhs> void assign(Rhs &&rhs) noexcept {
+  template <class Rhs> void assign(Rhs &&rhs) {
     if (!this->m_has_val) {
       if (rhs.m_has_val) {
         geterr().~unexpected<E>();
@@ -864,13 +945,7 @@ struct expected_copy_base<T, E, false> : expected_operations_base<T, E> {
 
   expected_copy_base() = default;
   expected_copy_base(const expected_copy_base &rhs)
-      : expected_operations_base<T, E>(no_init) {
-    if (rhs.has_value()) {
-      this->construct_with(rhs);
-    } else {
-      this->construct_error(rhs.geterr());
-    }
-  }
+      : expected_operations_base<T, E>(from_other, rhs) {}
 
   expected_copy_base(expected_copy_base &&rhs) = default;
   expected_copy_base &operator=(const expected_copy_base &rhs) = default;
@@ -893,14 +968,9 @@ struct expected_move_base<T, E, false> : expected_copy_base<T, E> {
   expected_move_base(const expected_move_base &rhs) = default;
 
   expected_move_base(expected_move_base &&rhs) noexcept(
-      std::is_nothrow_move_constructible<T>::value)
-      : expected_copy_base<T, E>(no_init) {
-    if (rhs.has_value()) {
-      this->construct_with(std::move(rhs));
-    } else {
-      this->construct_error(std::move(rhs.geterr()));
-    }
-  }
+      std::is_nothrow_move_constructible<T>::value
+          &&std::is_nothrow_move_constructible<E>::value)
+      : expected_copy_base<T, E>(from_other, std::move(rhs)) {}
   expected_move_base &operator=(const expected_move_base &rhs) = default;
   expected_move_base &operator=(expected_move_base &&rhs) = default;
 };
@@ -963,7 +1033,9 @@ struct expected_move_assign_base<T, E, false>
   expected_move_assign_base &
   operator=(expected_move_assign_base &&rhs) noexcept(
       std::is_nothrow_move_constructible<T>::value
-          &&std::is_nothrow_move_assignable<T>::value) {
+          &&std::is_nothrow_move_assignable<T>::value
+              &&std::is_nothrow_move_constructible<E>::value
+                  &&std::is_nothrow_move_assignable<E>::value) {
     this->assign(std::move(rhs));
     return *this;
   }
@@ -1193,6 +1265,8 @@ class expected : private detail::expected_move_assign_base<T, E>,
   using impl_base = detail::expected_move_assign_base<T, E>;
   using ctor_base = detail::expected_default_ctor_base<T, E>;
 
+  template <class U, class G> friend class expected;
+
 public:
   typedef T value_type;
   typedef E error_type;
@@ -1492,14 +1566,9 @@ public:
             detail::expected_enable_from_other<T, E, U, G, const U &, const G &>
                 * = nullptr>
   explicit constexpr expected(const expected<U, G> &rhs)
-      : impl_base(detail::no_init),
-        ctor_base(detail::default_constructor_tag{}) {
-    if (rhs.has_value()) {
-      this->construct(*rhs);
-    } else {
-      this->construct_error(rhs.error());
-    }
-  }
+      : impl_base(detail::from_other,
+                  static_cast<const typename expected<U, G>::impl_base &>(rhs)),
+        ctor_base(detail::default_constructor_tag{}) {}
 
   template <class U, class G,
             detail::enable_if_t<(std::is_convertible<U const &, T>::value &&
@@ -1508,14 +1577,9 @@ public:
             detail::expected_enable_from_other<T, E, U, G, const U &, const G &>
                 * = nullptr>
   constexpr expected(const expected<U, G> &rhs)
-      : impl_base(detail::no_init),
-        ctor_base(detail::default_constructor_tag{}) {
-    if (rhs.has_value()) {
-      this->construct(*rhs);
-    } else {
-      this->construct_error(rhs.error());
-    }
-  }
+      : impl_base(detail::from_other,
+                  static_cast<const typename expected<U, G>::impl_base &>(rhs)),
+        ctor_base(detail::default_constructor_tag{}) {}
 
   template <
       class U, class G,
@@ -1523,14 +1587,9 @@ public:
                             std::is_convertible<G &&, E>::value)> * = nullptr,
       detail::expected_enable_from_other<T, E, U, G, U &&, G &&> * = nullptr>
   explicit constexpr expected(expected<U, G> &&rhs)
-      : impl_base(detail::no_init),
-        ctor_base(detail::default_constructor_tag{}) {
-    if (rhs.has_value()) {
-      this->construct(std::move(*rhs));
-    } else {
-      this->construct_error(std::move(rhs.error()));
-    }
-  }
+      : impl_base(detail::from_other,
+                  static_cast<typename expected<U, G>::impl_base &&>(rhs)),
+        ctor_base(detail::default_constructor_tag{}) {}
 
   template <
       class U, class G,
@@ -1538,14 +1597,9 @@ public:
                            std::is_convertible<G &&, E>::value)> * = nullptr,
       detail::expected_enable_from_other<T, E, U, G, U &&, G &&> * = nullptr>
   constexpr expected(expected<U, G> &&rhs)
-      : impl_base(detail::no_init),
-        ctor_base(detail::default_constructor_tag{}) {
-    if (rhs.has_value()) {
-      this->construct(std::move(*rhs));
-    } else {
-      this->construct_error(std::move(rhs.error()));
-    }
-  }
+      : impl_base(detail::from_other,
+                  static_cast<typename expected<U, G>::impl_base &&>(rhs)),
+        ctor_base(detail::default_constructor_tag{}) {}
 
   template <
       class U = T,
@@ -1609,7 +1663,7 @@ public:
         ::new (valptr()) T(std::forward<U>(v));
         this->m_has_val = true;
       } catch (...) {
-        err() = std::move(tmp);
+        this->construct_error(std::move(tmp));
         throw;
       }
 #else
@@ -1667,8 +1721,7 @@ public:
                                T, Args &&...>::value> * = nullptr>
   void emplace(Args &&...args) {
     if (has_value()) {
-      val().~T();
-      ::new (valptr()) T(std::forward<Args>(args)...);
+      replace_val(replace_val_tag{}, std::forward<Args>(args)...);
     } else {
       auto tmp = std::move(err());
       err().~unexpected<E>();
@@ -1678,7 +1731,7 @@ public:
         ::new (valptr()) T(std::forward<Args>(args)...);
         this->m_has_val = true;
       } catch (...) {
-        err() = std::move(tmp);
+        this->construct_error(std::move(tmp));
         throw;
       }
 #else
@@ -1718,7 +1771,7 @@ public:
         ::new (valptr()) T(il, std::forward<Args>(args)...);
         this->m_has_val = true;
       } catch (...) {
-        err() = std::move(tmp);
+        this->construct_error(std::move(tmp));
         throw;
       }
 #else
@@ -1729,6 +1782,32 @@ public:
   }
 
 private:
+  using via_move_construction = std::integral_constant<int, 0>;
+  using via_move_assignment = std::integral_constant<int, 1>;
+  using in_its_place = std::integral_constant<int, 2>;
+  using replace_val_tag = std::integral_constant<
+      int, std::is_nothrow_move_constructible<T>::value
+               ? via_move_construction::value
+               : std::is_move_constructible<T>::value && std::is_move_assignable<T>::value
+                     ? via_move_assignment::value
+                     : in_its_place::value>;
+
+  template <class... Args>
+  void replace_val(via_move_construction, Args &&...args) {
+    T tmp(std::forward<Args>(args)...);
+    val().~T();
+    ::new (valptr()) T(std::move(tmp));
+  }
+  template <class... Args>
+  void replace_val(via_move_assignment, Args &&...args) {
+    T tmp(std::forward<Args>(args)...);
+    val() = std::move(tmp);
+  }
+  template <class... Args> void replace_val(in_its_place, Args &&...args) {
+    val().~T();
+    ::new (valptr()) T(std::forward<Args>(args)...);
+  }
+
   using t_is_void = std::true_type;
   using t_is_not_void = std::false_type;
   using t_is_nothrow_move_constructible = std::true_type;
@@ -1781,7 +1860,7 @@ private:
       ::new (rhs.valptr()) T(std::move(temp));
       std::swap(this->m_has_val, rhs.m_has_val);
     } catch (...) {
-      val() = std::move(temp);
+      this->construct(std::move(temp));
       throw;
     }
 #else
@@ -1804,7 +1883,7 @@ private:
       ::new (errptr()) unexpected_type(std::move(temp));
       std::swap(this->m_has_val, rhs.m_has_val);
     } catch (...) {
-      rhs.err() = std::move(temp);
+      rhs.construct_error(std::move(temp));
       throw;
     }
 #else
-- 
2.43.0


From 05e74481d07f4cfe4399fc1b57391252311acf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:29 +0000
Subject: [PATCH 26/41] fix: finally() does not move from callables passed as
 lvalues

---
 include/gul14/finalizer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gul14/finalizer.h b/include/gul14/finalizer.h
index 54df935..33fceb4 100644
--- a/include/gul14/finalizer.h
+++ b/include/gul14/finalizer.h
@@ -167,7 +167,7 @@ public:
  */
 template <typename F>
 FinalAction<typename std::decay_t<F>> finally(F&& f) noexcept {
-    return FinalAction<typename std::decay_t<F>>(std::forward<typename std::decay_t<F>>(f));
+    return FinalAction<typename std::decay_t<F>>(std::forward<F>(f));
 }
 
 /// @}
-- 
2.43.0


From 5e66c7dc50faf6f3c8b195856c04a3f37f8ffb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:04 +0000
Subject: [PATCH 27/41] fix: copies of a ConvertingStringView keep the
 converted number

---
 include/gul14/cat.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/gul14/cat.h b/include/gul14/cat.h
index 49702a4..7f6ee01 100644
--- a/include/gul14/cat.h
+++ b/include/gul14/cat.h
@@ -62,6 +62,18 @@ public:
     ConvertingStringView(float a) : str_(std::to_string(a)), sv_(str_) {} ///< Construct a ConvertingStringView from a float.
     ConvertingStringView(double a) : str_(std::to_string(a)), sv_(str_) {} ///< Construct a ConvertingStringView from a double.
 
+    /// Copy a ConvertingStringView: A converted number is copied with it.
+    ConvertingStringView(const ConvertingStringView& other)
+        : str_(other.str_), sv_(str_.empty() ? other.sv_ : string_view(str_)) {}
+
+    /// Assign from another ConvertingStringView: A converted number is copied with it.
+    ConvertingStringView& operator=(const ConvertingStringView& other)
+    {
+        str_ = other.str_;
+        sv_ = str_.empty() ? other.sv_ : string_view(str_);
+        return *this;
+    }
+
     /**
      * Return a pointer to the internal character buffer. The contained string is usually
      * not null-terminated.
-- 
2.43.0


From f765d99747f89464b961ab2fe7b44a3032532764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:21 +0000
Subject: [PATCH 28/41] fix: clamp() without a comparison returns v when it is
 equivalent to a bound

std::max(lo, ...) preferred lo over an equivalent v (and over a NaN), although a
reference to v is documented: clamp(-0.0, 0.0, 1.0) was 0.0, and the reference to a
temporary bound could be returned for an in-range value.
---
 include/gul14/num_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gul14/num_util.h b/include/gul14/num_util.h
index 278ddc8..9197ce0 100644
--- a/include/gul14/num_util.h
+++ b/include/gul14/num_util.h
@@ -206,7 +206,7 @@ bool within_ulp(NumT a, NumT b, unsigned int ulp)
  */
 template<class NumT>
 constexpr const NumT& clamp(const NumT& v, const NumT& lo, const NumT& hi) {
-    return std::max(lo, std::min(v, hi)); // usually more optimized than actually using operator<()
+    return std::max(std::min(v, hi), lo); // usually more optimized than actually using operator<()
 }
 /**
  * \overload
-- 
2.43.0


From b206c2d6aeb4bdb2a901271e54d3471c0b033bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:07 +0000
Subject: [PATCH 29/41] fix: is_invocable_r<void, ...> accepts any result

Like std::is_invocable_r, of which it is a backport, it has to hold for every
invocable F if R is void; is_convertible<int, void> is false.
---
 include/gul14/traits.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/gul14/traits.h b/include/gul14/traits.h
index f1b1103..cede335 100644
--- a/include/gul14/traits.h
+++ b/include/gul14/traits.h
@@ -265,7 +265,8 @@ struct is_invocable_r<void_t<invoke_result_t<F, Args...>>,
                         R,
                         F,
                         Args...>
-    : std::is_convertible<invoke_result_t<F, Args...>, R> {};
+    : std::integral_constant<bool, std::is_void<R>::value
+        || std::is_convertible<invoke_result_t<F, Args...>, R>::value> {};
 
 } // namespace detail_invocable
 
-- 
2.43.0


From 5588df28280de24463ee83a7284961c9db185c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:38 +0000
Subject: [PATCH 30/41] fix: type_name() does not cut a name at a semicolon
 inside of it

type_name<Ch<';'>>() was "Ch<'".
---
 include/gul14/type_name.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gul14/type_name.h b/include/gul14/type_name.h
index 54bdd85..f70ed35 100644
--- a/include/gul14/type_name.h
+++ b/include/gul14/type_name.h
@@ -98,7 +98,7 @@ constexpr string_view type_name()
     auto const start_idx = s.find(" = ") + 3; // len(" = ") == 3
     s.remove_prefix(start_idx);
 
-    auto const colon_idx = s.find(";");
+    auto const colon_idx = s.rfind("; "); // the last one, a type may contain others
     auto const suff_length =
         (colon_idx != string_view::npos) ? s.length() - colon_idx : 1; // len("]") == 1
     s.remove_suffix(suff_length);
-- 
2.43.0


From e49e15694c3f0f1d0391ef5ec3bc67ab4a88dc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:27 +0000
Subject: [PATCH 31/41] fix: a failing emplace() of expected leaves the error
 in place if moving it back may fail, too

---
 include/gul14/expected.h | 58 +++++++++++++++++++---------------------
 1 file changed, 28 insertions(+), 30 deletions(-)

diff --git a/include/gul14/expected.h b/include/gul14/expected.h
index d6496a3..a54897e 100644
--- a/include/gul14/expected.h
+++ b/include/gul14/expected.h
@@ -1723,21 +1723,7 @@ public:
     if (has_value()) {
       replace_val(replace_val_tag{}, std::forward<Args>(args)...);
     } else {
-      auto tmp = std::move(err());
-      err().~unexpected<E>();
-
-#ifdef GUL14_EXPECTED_EXCEPTIONS_ENABLED
-      try {
-        ::new (valptr()) T(std::forward<Args>(args)...);
-        this->m_has_val = true;
-      } catch (...) {
-        this->construct_error(std::move(tmp));
-        throw;
-      }
-#else
-      ::new (valptr()) T(std::forward<Args>(args)...);
-      this->m_has_val = true;
-#endif
+      replace_err(std::is_nothrow_move_constructible<T>{}, std::forward<Args>(args)...);
     }
   }
 
@@ -1763,21 +1749,7 @@ public:
       T t(il, std::forward<Args>(args)...);
       val() = std::move(t);
     } else {
-      auto tmp = std::move(err());
-      err().~unexpected<E>();
-
-#ifdef GUL14_EXPECTED_EXCEPTIONS_ENABLED
-      try {
-        ::new (valptr()) T(il, std::forward<Args>(args)...);
-        this->m_has_val = true;
-      } catch (...) {
-        this->construct_error(std::move(tmp));
-        throw;
-      }
-#else
-      ::new (valptr()) T(il, std::forward<Args>(args)...);
-      this->m_has_val = true;
-#endif
+      replace_err(std::is_nothrow_move_constructible<T>{}, il, std::forward<Args>(args)...);
     }
   }
 
@@ -1808,6 +1780,32 @@ private:
     ::new (valptr()) T(std::forward<Args>(args)...);
   }
 
+  // Replace an error by a value: The error is left alone until the value can be moved in
+  // without throwing, or else it is kept aside.
+  template <class... Args> void replace_err(std::true_type, Args &&...args) {
+    T tmp(std::forward<Args>(args)...);
+    err().~unexpected<E>();
+    ::new (valptr()) T(std::move(tmp));
+    this->m_has_val = true;
+  }
+  template <class... Args> void replace_err(std::false_type, Args &&...args) {
+    auto tmp = std::move(err());
+    err().~unexpected<E>();
+
+#ifdef GUL14_EXPECTED_EXCEPTIONS_ENABLED
+    try {
+      ::new (valptr()) T(std::forward<Args>(args)...);
+      this->m_has_val = true;
+    } catch (...) {
+      this->construct_error(std::move(tmp));
+      throw;
+    }
+#else
+    ::new (valptr()) T(std::forward<Args>(args)...);
+    this->m_has_val = true;
+#endif
+  }
+
   using t_is_void = std::true_type;
   using t_is_not_void = std::false_type;
   using t_is_nothrow_move_constructible = std::true_type;
-- 
2.43.0


From 666728a48338fb8723ac3ec2ad0ed6d5df69eeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:47 +0000
Subject: [PATCH 32/41] fix: objects owned by task functions may use the pool
 when they are destroyed

Function objects of tasks were destroyed while the pool's mutex was held, so that a
destructor calling the pool locked up.
---
 src/ThreadPool.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ThreadPool.cc b/src/ThreadPool.cc
index 4934b93..c34e4fc 100644
--- a/src/ThreadPool.cc
+++ b/src/ThreadPool.cc
@@ -94,12 +94,14 @@ void ThreadPool::shut_down()
 
 bool ThreadPool::cancel_pending_task(const TaskId task_id)
 {
+    std::unique_ptr<NamedTask> removed_task; // must be destroyed with the mutex unlocked
     std::lock_guard<std::mutex> lock(mutex_);
 
     auto it = std::find_if(pending_tasks_.begin(), pending_tasks_.end(),
         [task_id](const Task& t) { return t.id_ == task_id; });
     if (it != pending_tasks_.end())
     {
+        removed_task = std::move(it->named_task_);
         pending_tasks_.erase(it);
         return true;
     }
@@ -109,10 +111,11 @@ bool ThreadPool::cancel_pending_task(const TaskId task_id)
 
 std::size_t ThreadPool::cancel_pending_tasks()
 {
+    std::vector<Task> removed_tasks; // must be destroyed with the mutex unlocked
     std::lock_guard<std::mutex> lock(mutex_);
 
     std::size_t num_removed = pending_tasks_.size();
-    pending_tasks_.clear();
+    pending_tasks_.swap(removed_tasks);
 
     return num_removed;
 }
@@ -283,6 +286,9 @@ void ThreadPool::perform_work()
             // to continue...
         }
 
+        // Objects owned by the task may use the pool in their destructors
+        named_task_ptr.reset();
+
         lock.lock();
 
         auto it = std::find(running_task_ids_.begin(), running_task_ids_.end(), id);
-- 
2.43.0


From a1e6ab3c7181ed48a443c8b6036818ba563067bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:21 +0000
Subject: [PATCH 33/41] fix: date: %D and %F format negative years like %y and
 %Y

---
 include/gul14/date.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/gul14/date.h b/include/gul14/date.h
index 31f4757..783b33b 100644
--- a/include/gul14/date.h
+++ b/include/gul14/date.h
@@ -4839,7 +4839,7 @@ to_stream(std::basic_ostream<CharT, Traits>& os, const CharT* fmt,
                     os.width(2);
                     os << static_cast<unsigned>(ymd.day()) << CharT{'/'};
                     os.width(2);
-                    os << static_cast<int>(ymd.year()) % 100;
+                    os << std::abs(static_cast<int>(ymd.year())) % 100;
                 }
                 else
                 {
@@ -4862,8 +4862,8 @@ to_stream(std::basic_ostream<CharT, Traits>& os, const CharT* fmt,
                     save_ostream<CharT, Traits> _(os);
                     os.imbue(std::locale::classic());
                     os.fill('0');
-                    os.flags(std::ios::dec | std::ios::right);
-                    os.width(4);
+                    os.flags(std::ios::dec | std::ios::internal);
+                    os.width(4 + (ymd.year() < year{0}));
                     os << static_cast<int>(ymd.year()) << CharT{'-'};
                     os.width(2);
                     os << static_cast<unsigned>(ymd.month()) << CharT{'-'};
-- 
2.43.0


From db1bc9b981fcf4124f602d223b82011b76bb0c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:29 +0000
Subject: [PATCH 34/41] fix: date: parse() compiles

---
 include/gul14/date.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/gul14/date.h b/include/gul14/date.h
index 783b33b..f0d79fa 100644
--- a/include/gul14/date.h
+++ b/include/gul14/date.h
@@ -7639,10 +7639,11 @@ public:
         , offset_(offset)
         {}
 
-    parse_manip(gul14::basic_string_view<CharT, Traits> format, Parsable& tp,
+    parse_manip(gul14::basic_string_view<CharT, gul14::char_traits<CharT, Traits>> format,
+                Parsable& tp,
                 std::basic_string<CharT, Traits, Alloc>* abbrev = nullptr,
                 std::chrono::minutes* offset = nullptr)
-        : format_(format)
+        : format_(format.begin(), format.end())
         , tp_(tp)
         , abbrev_(abbrev)
         , offset_(offset)
-- 
2.43.0


From b4bbf12931269f57ab8b0cebc73f9848396e409c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:38 +0000
Subject: [PATCH 35/41] fix: date: parsing accepts the hour in both the 24-hour
 and the 12-hour format in the afternoon

---
 include/gul14/date.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gul14/date.h b/include/gul14/date.h
index f0d79fa..9e08b96 100644
--- a/include/gul14/date.h
+++ b/include/gul14/date.h
@@ -7399,7 +7399,7 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
                             if (H != 0 && H != 12)
                                 goto broken;
                         }
-                        else if (!(I == H || I == H+12))
+                        else if (!(I == H || I+12 == H))
                         {
                             goto broken;
                         }
-- 
2.43.0


From 1ea726f5faf0bc1b672439e3b64ca1d14a96bcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:47 +0000
Subject: [PATCH 36/41] fix: date: parsing rejects days of the year that the
 year does not have

---
 include/gul14/date.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/gul14/date.h b/include/gul14/date.h
index 9e08b96..580ce5c 100644
--- a/include/gul14/date.h
+++ b/include/gul14/date.h
@@ -7314,6 +7314,8 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
             if (j != not_a_doy && Y != not_a_year)
             {
                 auto ymd_trial = year_month_day{local_days(year{Y}/1/1) + days{j-1}};
+                if (year{Y} != ymd_trial.year())
+                    goto broken;
                 if (m == not_a_month)
                     m = static_cast<int>(static_cast<unsigned>(ymd_trial.month()));
                 else if (month(static_cast<unsigned>(m)) != ymd_trial.month())
-- 
2.43.0


From bba13dd2b884f9370ee32e3e3b2f1f8fa347a8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:54 +0000
Subject: [PATCH 37/41] fix: date: parsing checks all week numbers against the
 date

---
 include/gul14/date.h | 63 ++++++++++++++++++++------------------------
 1 file changed, 28 insertions(+), 35 deletions(-)

diff --git a/include/gul14/date.h b/include/gul14/date.h
index 580ce5c..9c034c2 100644
--- a/include/gul14/date.h
+++ b/include/gul14/date.h
@@ -7253,7 +7253,6 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
             }
             if (Y < static_cast<int>(year::min()) || Y > static_cast<int>(year::max()))
                 Y = not_a_year;
-            bool computed = false;
             if (G != not_a_year && V != not_a_week_num && wd != not_a_weekday)
             {
                 year_month_day ymd_trial = sys_days(year{G-1}/December/Thursday[last]) +
@@ -7271,7 +7270,6 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
                     d = static_cast<int>(static_cast<unsigned>(ymd_trial.day()));
                 else if (day(static_cast<unsigned>(d)) != ymd_trial.day())
                     goto broken;
-                computed = true;
             }
             if (Y != not_a_year && U != not_a_week_num && wd != not_a_weekday)
             {
@@ -7290,7 +7288,6 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
                     d = static_cast<int>(static_cast<unsigned>(ymd_trial.day()));
                 else if (day(static_cast<unsigned>(d)) != ymd_trial.day())
                     goto broken;
-                computed = true;
             }
             if (Y != not_a_year && W != not_a_week_num && wd != not_a_weekday)
             {
@@ -7309,7 +7306,6 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
                     d = static_cast<int>(static_cast<unsigned>(ymd_trial.day()));
                 else if (day(static_cast<unsigned>(d)) != ymd_trial.day())
                     goto broken;
-                computed = true;
             }
             if (j != not_a_doy && Y != not_a_year)
             {
@@ -7333,45 +7329,42 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
                     wd = static_cast<int>((weekday(sys_days(ymd)) - Sunday).count());
                 else if (wd != static_cast<int>((weekday(sys_days(ymd)) - Sunday).count()))
                     goto broken;
-                if (!computed)
+                if (G != not_a_year || V != not_a_week_num)
                 {
-                    if (G != not_a_year || V != not_a_week_num)
+                    sys_days sd = ymd;
+                    auto G_trial = year_month_day{sd + days{3}}.year();
+                    auto start = sys_days((G_trial - years{1})/December/Thursday[last]) +
+                                 (Monday - Thursday);
+                    if (sd < start)
                     {
-                        sys_days sd = ymd;
-                        auto G_trial = year_month_day{sd + days{3}}.year();
-                        auto start = sys_days((G_trial - years{1})/December/Thursday[last]) +
-                                     (Monday - Thursday);
-                        if (sd < start)
-                        {
-                            --G_trial;
-                            if (V != not_a_week_num)
-                                start = sys_days((G_trial - years{1})/December/Thursday[last])
-                                        + (Monday - Thursday);
-                        }
-                        if (G != not_a_year && G != static_cast<int>(G_trial))
-                            goto broken;
+                        --G_trial;
                         if (V != not_a_week_num)
-                        {
-                            auto V_trial = duration_cast<weeks>(sd - start).count() + 1;
-                            if (V != V_trial)
-                                goto broken;
-                        }
-                    }
-                    if (U != not_a_week_num)
-                    {
-                        auto start = sys_days(Sunday[1]/January/ymd.year());
-                        auto U_trial = floor<weeks>(sys_days(ymd) - start).count() + 1;
-                        if (U != U_trial)
-                            goto broken;
+                            start = sys_days((G_trial - years{1})/December/Thursday[last])
+                                    + (Monday - Thursday);
                     }
-                    if (W != not_a_week_num)
+                    if (G != not_a_year && G != static_cast<int>(G_trial))
+                        goto broken;
+                    if (V != not_a_week_num)
                     {
-                        auto start = sys_days(Monday[1]/January/ymd.year());
-                        auto W_trial = floor<weeks>(sys_days(ymd) - start).count() + 1;
-                        if (W != W_trial)
+                        auto V_trial = duration_cast<weeks>(sd - start).count() + 1;
+                        if (V != V_trial)
                             goto broken;
                     }
                 }
+                if (U != not_a_week_num)
+                {
+                    auto start = sys_days(Sunday[1]/January/ymd.year());
+                    auto U_trial = floor<weeks>(sys_days(ymd) - start).count() + 1;
+                    if (U != U_trial)
+                        goto broken;
+                }
+                if (W != not_a_week_num)
+                {
+                    auto start = sys_days(Monday[1]/January/ymd.year());
+                    auto W_trial = floor<weeks>(sys_days(ymd) - start).count() + 1;
+                    if (W != W_trial)
+                        goto broken;
+                }
             }
             fds.ymd = ymd;
             if (I != not_a_hour_12_value)
-- 
2.43.0


From 25a7363a6fdba8a2fc1f673679f09c6451af9932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:02 +0000
Subject: [PATCH 38/41] fix: date: parsing of %p does not rely on
 std::time_get, which may take PM for AM

---
 include/gul14/date.h | 55 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 44 insertions(+), 11 deletions(-)

diff --git a/include/gul14/date.h b/include/gul14/date.h
index 9c034c2..82d4111 100644
--- a/include/gul14/date.h
+++ b/include/gul14/date.h
@@ -6102,6 +6102,49 @@ checked_set(T& value, T from, T not_a_value, std::basic_ios<CharT, Traits>& is)
     }
 }
 
+#if !ONLY_C_LOCALE
+
+// Read the locale's designation of AM (returns 0) or PM (returns 1), ignoring case.
+// std::time_get is of no use here: It may disregard a %p that does not come with a %I.
+template <class CharT, class Traits>
+int
+read_ampm(std::basic_istream<CharT, Traits>& is)
+{
+    const auto loc = is.getloc();
+    const auto& ct = std::use_facet<std::ctype<CharT>>(loc);
+    std::basic_string<CharT> names[2];
+    for (int i = 0; i != 2; ++i)
+    {
+        std::basic_ostringstream<CharT> os;
+        std::tm tm{};
+        tm.tm_hour = 1 + 12*i;
+        std::use_facet<std::time_put<CharT>>(loc).put(os, os, os.fill(), &tm, 'p');
+        for (CharT c : os.str())
+            names[i] += ct.toupper(c);
+    }
+    std::basic_string<CharT> text;
+    while (text != names[0] && text != names[1])
+    {
+        auto ic = is.peek();
+        if (Traits::eq_int_type(ic, Traits::eof()))
+        {
+            is.setstate(std::ios::failbit | std::ios::eofbit);
+            break;
+        }
+        text += ct.toupper(static_cast<CharT>(Traits::to_char_type(ic)));
+        if (names[0].compare(0, text.size(), text) != 0 &&
+            names[1].compare(0, text.size(), text) != 0)
+        {
+            is.setstate(std::ios::failbit);
+            break;
+        }
+        (void)is.get();
+    }
+    return text == names[0] ? 0 : 1;
+}
+
+#endif  // !ONLY_C_LOCALE
+
 }  // namespace detail;
 
 template <class CharT, class Traits, class Duration, class Alloc = std::allocator<CharT>>
@@ -6713,17 +6756,7 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
                     {
                         int tp = not_a_ampm;
 #if !ONLY_C_LOCALE
-                        tm = std::tm{};
-                        tm.tm_hour = 1;
-                        ios::iostate err = ios::goodbit;
-                        f.get(is, nullptr, is, err, &tm, command, fmt+1);
-                        is.setstate(err);
-                        if (tm.tm_hour == 1)
-                            tp = 0;
-                        else if (tm.tm_hour == 13)
-                            tp = 1;
-                        else
-                            is.setstate(err);
+                        tp = detail::read_ampm(is);
 #else
                         auto nm = detail::ampm_names();
                         auto i = detail::scan_keyword(is, nm.first, nm.second) - nm.first;
-- 
2.43.0


From 28a75f8eb2f42a558719aaf173f23b76e52106f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:11 +0000
Subject: [PATCH 39/41] fix: date: parsing rejects months, days, and 12-hour
 clock hours of 0 in all cases

---
 include/gul14/date.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/gul14/date.h b/include/gul14/date.h
index 82d4111..b2c2508 100644
--- a/include/gul14/date.h
+++ b/include/gul14/date.h
@@ -6179,10 +6179,10 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
         constexpr const int not_a_year = numeric_limits<short>::min();
         constexpr const int not_a_2digit_year = 100;
         constexpr const int not_a_century = not_a_year / 100;
-        constexpr const int not_a_month = 0;
-        constexpr const int not_a_day = 0;
+        constexpr const int not_a_month = numeric_limits<int>::min();
+        constexpr const int not_a_day = not_a_month;
         constexpr const int not_a_hour = numeric_limits<int>::min();
-        constexpr const int not_a_hour_12_value = 0;
+        constexpr const int not_a_hour_12_value = not_a_hour;
         constexpr const int not_a_minute = not_a_hour;
         constexpr const Duration not_a_second = Duration::min();
         constexpr const int not_a_doy = -1;
@@ -7228,6 +7228,10 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
         }
         if (!is.fail())
         {
+            if (m != not_a_month && !(1 <= m && m <= 12))
+                goto broken;
+            if (d != not_a_day && !(1 <= d && d <= 31))
+                goto broken;
             if (y != not_a_2digit_year)
             {
                 // Convert y and an optional C to Y
-- 
2.43.0


From c0f5ad92581eb2bf88705478c182c1f677dd9b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:43 +0000
Subject: [PATCH 40/41] fix: date: parsing a year_month requires a valid year

---
 include/gul14/date.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gul14/date.h b/include/gul14/date.h
index b2c2508..e1e6e52 100644
--- a/include/gul14/date.h
+++ b/include/gul14/date.h
@@ -7547,7 +7547,7 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt, year_month&
     using CT = std::chrono::seconds;
     fields<CT> fds{};
     gul14::date::from_stream(is, fmt, fds, abbrev, offset);
-    if (!fds.ymd.month().ok())
+    if (!fds.ymd.year().ok() || !fds.ymd.month().ok())
         is.setstate(std::ios::failbit);
     if (!is.fail())
         ym = fds.ymd.year()/fds.ymd.month();
-- 
2.43.0


From d47d3c33a51cc0d8127f107f1093b70720db0cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:53 +0000
Subject: [PATCH 41/41] fix: date: parsing a month_day rejects days that the
 month does not have

---
 include/gul14/date.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gul14/date.h b/include/gul14/date.h
index e1e6e52..a4e1193 100644
--- a/include/gul14/date.h
+++ b/include/gul14/date.h
@@ -7563,7 +7563,7 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt, month_day&
     using CT = std::chrono::seconds;
     fields<CT> fds{};
     gul14::date::from_stream(is, fmt, fds, abbrev, offset);
-    if (!fds.ymd.month().ok() || !fds.ymd.day().ok())
+    if (!(fds.ymd.month()/fds.ymd.day()).ok())
         is.setstate(std::ios::failbit);
     if (!is.fail())
         md = fds.ymd.month()/fds.ymd.day();
-- 
2.43.0


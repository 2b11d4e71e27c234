From 889bb749c67aabb87922eb1f8f34129a5bd25fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:44 +0000
Subject: [PATCH 01/73] fix: thread pool strands a task enqueued while its
 worker times out as idle

---
 framework/core/src/concurrency/executor/thread_pool.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/concurrency/executor/thread_pool.cc b/framework/core/src/concurrency/executor/thread_pool.cc
index 5f5fc1b..49d7719 100644
--- a/framework/core/src/concurrency/executor/thread_pool.cc
+++ b/framework/core/src/concurrency/executor/thread_pool.cc
@@ -291,7 +291,8 @@ bool ThreadPoolWorker::wait_for_task(std::unique_lock<std::mutex> &lock) {
 
   if (!lock.owns_lock())
     lock.lock();
-  if (!event_found || abort_) {
+  // A task may have been enqueued between the timeout and taking the lock.
+  if ((!event_found && public_queue_.empty()) || abort_) {
     idle_ = true;
     lock.unlock();
     return false;
-- 
2.43.0


From 331c99901550c6e0eb26440a7ad9d057625ede10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:32 +0000
Subject: [PATCH 02/73] fix: thread pool worker abandons its queue when a
 donation hits a worker already shut down

---
 framework/core/src/concurrency/executor/thread_pool.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/concurrency/executor/thread_pool.cc b/framework/core/src/concurrency/executor/thread_pool.cc
index 49d7719..18aeb2a 100644
--- a/framework/core/src/concurrency/executor/thread_pool.cc
+++ b/framework/core/src/concurrency/executor/thread_pool.cc
@@ -230,8 +230,12 @@ void ThreadPoolWorker::balance_work() {
     assert(donation_begin_it < private_queue_.end());
     assert(donation_end_it <= private_queue_.end());
 
-    parent_pool_.worker_at(idle_worker_index).enqueue_foreign(
-      donation_begin_it, donation_end_it);
+    try {
+      parent_pool_.worker_at(idle_worker_index).enqueue_foreign(
+        donation_begin_it, donation_end_it);
+    } catch (const std::runtime_error &) {
+      break; // That worker is shut down already, keep the remaining tasks.
+    }
 
     begin = end;
     end += donation_count;
-- 
2.43.0


From 9ee67fc8e9d4ffc84f4e9ea339285df6297d8a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:32 +0000
Subject: [PATCH 03/73] fix: thread pool worker stopping during shutdown can be
 restarted with a non-empty queue

---
 framework/core/src/concurrency/executor/thread_pool.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/concurrency/executor/thread_pool.cc b/framework/core/src/concurrency/executor/thread_pool.cc
index 18aeb2a..b563a6e 100644
--- a/framework/core/src/concurrency/executor/thread_pool.cc
+++ b/framework/core/src/concurrency/executor/thread_pool.cc
@@ -462,10 +462,11 @@ void ThreadPoolWorker::enqueue_local(std::span<Task> tasks) {
 
 void ThreadPoolWorker::shutdown() {
   assert(!atomic_abort_.load(std::memory_order_relaxed));
-  atomic_abort_.store(true, std::memory_order_relaxed);
 
   {
+    // Together: a worker that stops early must not be restarted.
     std::unique_lock<decltype(lock_)> lock{lock_};
+    atomic_abort_.store(true, std::memory_order_relaxed);
     abort_ = true;
   }
 
-- 
2.43.0


From 7000699c7a6b4790b957db304965594ef615d611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:38 +0000
Subject: [PATCH 04/73] fix: worker thread executor enqueues a local task
 twice, the second time empty

---
 framework/core/src/concurrency/executor/worker_thread.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/concurrency/executor/worker_thread.cc b/framework/core/src/concurrency/executor/worker_thread.cc
index 00f968e..ab418f5 100644
--- a/framework/core/src/concurrency/executor/worker_thread.cc
+++ b/framework/core/src/concurrency/executor/worker_thread.cc
@@ -137,14 +137,14 @@ void WorkerThread::enqueue_foreign(std::span<Task> tasks) {
 
 void WorkerThread::enqueue(Task task) {
   if (detail::s_tl_this_worker == this)
-    enqueue_local(task);
+    return enqueue_local(task);
 
   enqueue_foreign(task);
 }
 
 void WorkerThread::enqueue(std::span<Task> tasks) {
   if (detail::s_tl_this_worker == this)
-    enqueue_local(tasks);
+    return enqueue_local(tasks);
 
   enqueue_foreign(tasks);
 }
-- 
2.43.0


From 6c590ee97c2b05e6897e970c7d4bcdf9ce1727b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:56 +0000
Subject: [PATCH 05/73] fix: thread pool takes a worker of another pool for its
 own and runs tasks there

---
 .../plain/concurrency/executor/thread_pool.h  |  1 +
 .../src/concurrency/executor/thread_pool.cc   | 19 +++++++++++++++----
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/framework/core/include/plain/concurrency/executor/thread_pool.h b/framework/core/include/plain/concurrency/executor/thread_pool.h
index 762682a..7a751cd 100644
--- a/framework/core/include/plain/concurrency/executor/thread_pool.h
+++ b/framework/core/include/plain/concurrency/executor/thread_pool.h
@@ -92,6 +92,7 @@ ThreadPool final : public Derivable<ThreadPool> {
   void find_idle_workers(
     size_t caller_index, std::vector<size_t> &buffer, size_t max_count) noexcept;
   detail::ThreadPoolWorker &worker_at(size_t index) noexcept;
+  detail::ThreadPoolWorker *current_worker() const noexcept;
 
 };
 
diff --git a/framework/core/src/concurrency/executor/thread_pool.cc b/framework/core/src/concurrency/executor/thread_pool.cc
index b563a6e..d42d8e0 100644
--- a/framework/core/src/concurrency/executor/thread_pool.cc
+++ b/framework/core/src/concurrency/executor/thread_pool.cc
@@ -60,6 +60,10 @@ class alignas(kCacheInlineAlignment) ThreadPoolWorker {
 
   bool appears_empty() const noexcept;
 
+  bool belongs_to(const ThreadPool &pool) const noexcept {
+    return &parent_pool_ == &pool;
+  }
+
  private:
   std::deque<Task> private_queue_;
   std::vector<size_t> idle_worker_list_;
@@ -537,9 +541,16 @@ void ThreadPool::mark_worker_active(size_t index) noexcept {
   idle_workers_.set_active(index);
 }
 
+ThreadPoolWorker *ThreadPool::current_worker() const noexcept {
+  // The calling thread may be a worker of another pool.
+  const auto worker = detail::s_tl_thread_pool_data.this_worker;
+  return worker != nullptr && worker->belongs_to(*this) ? worker : nullptr;
+}
+
 void ThreadPool::enqueue(Task task) {
-  const auto this_worker = detail::s_tl_thread_pool_data.this_worker;
-  const auto this_worker_index = detail::s_tl_thread_pool_data.this_thread_index;
+  const auto this_worker = current_worker();
+  const auto this_worker_index = this_worker != nullptr ?
+    detail::s_tl_thread_pool_data.this_thread_index : static_cast<size_t>(-1);
   if (this_worker != nullptr && this_worker->appears_empty()) {
     return this_worker->enqueue_local(task);
   }
@@ -556,8 +567,8 @@ void ThreadPool::enqueue(Task task) {
 }
 
 void ThreadPool::enqueue(std::span<Task> tasks) {
-  if (detail::s_tl_thread_pool_data.this_worker != nullptr) {
-    return detail::s_tl_thread_pool_data.this_worker->enqueue_local(tasks);
+  if (const auto this_worker = current_worker(); this_worker != nullptr) {
+    return this_worker->enqueue_local(tasks);
   }
   if (tasks.size() < workers_.size()) {
     for (auto &task : tasks) {
-- 
2.43.0


From d75b4ee552b3f5e67f72a6ae3d825b21e12ac671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:17 +0000
Subject: [PATCH 06/73] fix: timed waits on results follow wall clock jumps
 instead of elapsed time

---
 framework/core/include/plain/sys/atomic_wait.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework/core/include/plain/sys/atomic_wait.h b/framework/core/include/plain/sys/atomic_wait.h
index 7736180..3b854db 100644
--- a/framework/core/include/plain/sys/atomic_wait.h
+++ b/framework/core/include/plain/sys/atomic_wait.h
@@ -53,14 +53,14 @@ template <typename T>
 AtomicWaitStatus atomic_wait_for(
   std::atomic<T> &atom, T old, std::chrono::milliseconds ms,
   std::memory_order order) noexcept {
-  const auto deadline = std::chrono::system_clock::now() + ms;
+  const auto deadline = std::chrono::steady_clock::now() + ms;
 #if OS_MAC
   size_t polling_cycle = 0;
 #endif
   while (true) {
     if (atom.load(order) != old)
       return AtomicWaitStatus::Success;
-    const auto now = std::chrono::system_clock::now();
+    const auto now = std::chrono::steady_clock::now();
     if (now >= deadline) {
       if (atom.load(order) != old)
         return AtomicWaitStatus::Success;
-- 
2.43.0


From ccc99fda97aeaaeb8fc78baf959f4a628648e5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:46 +0000
Subject: [PATCH 07/73] fix: when_any misses a result that completes while it
 is being registered

---
 framework/core/src/concurrency/result/detail/state.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/concurrency/result/detail/state.cc b/framework/core/src/concurrency/result/detail/state.cc
index 3b4c5e2..a9db746 100644
--- a/framework/core/src/concurrency/result/detail/state.cc
+++ b/framework/core/src/concurrency/result/detail/state.cc
@@ -91,8 +91,10 @@ ProcessStatus StateBasic::when_any(
     ProcessStatus::ConsumerSet,
     std::memory_order_acq_rel,
     std::memory_order_acquire);
-  if (!idle) assert_done();
-  return status;
+  if (idle) return status;
+  assert_done();
+  consumer_.clear();
+  return ProcessStatus::ProducerDone;
 }
 
 void StateBasic::share(
-- 
2.43.0


From e90ae246b09ab95909b5569322fc0bfc898c8049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:05 +0000
Subject: [PATCH 08/73] fix: result state can be used by the producer after the
 consumer freed it

complete_producer publishes ProducerDone and only then copies the registered
when_any/shared context out of the state; a consumer that observes
ProducerDone meanwhile destroys the state under the producer. Let the
consumer wait until the producer is through with the context.
---
 .../concurrency/result/detail/consumer_context.h     |  1 +
 .../include/plain/concurrency/result/detail/state.h  |  8 ++++++++
 .../concurrency/result/detail/consumer_context.cc    |  3 +++
 .../core/src/concurrency/result/detail/state.cc      | 12 +++++++++++-
 4 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/framework/core/include/plain/concurrency/result/detail/consumer_context.h b/framework/core/include/plain/concurrency/result/detail/consumer_context.h
index 9ed92f3..82f4bb2 100644
--- a/framework/core/include/plain/concurrency/result/detail/consumer_context.h
+++ b/framework/core/include/plain/concurrency/result/detail/consumer_context.h
@@ -60,6 +60,7 @@ class PLAIN_API ConsumerContext {
   ~ConsumerContext() noexcept;
 
  public:
+  bool empty() const noexcept { return status_ == ConsumerStatus::Idle; }
   void clear() noexcept;
   void resume_consumer(StateBasic &self) const;
   void set_await_handle(coroutine_handle<void> caller_handle) noexcept;
diff --git a/framework/core/include/plain/concurrency/result/detail/state.h b/framework/core/include/plain/concurrency/result/detail/state.h
index 638c7ae..1c965ab 100644
--- a/framework/core/include/plain/concurrency/result/detail/state.h
+++ b/framework/core/include/plain/concurrency/result/detail/state.h
@@ -35,13 +35,21 @@ class PLAIN_API StateBasic {
 
   void try_rewind_consumer() noexcept;
 
+  // The producer is through with the consumer context, the state may be
+  // destroyed by the consumer from now on.
+  void release_consumer() noexcept {
+    consumer_released_.store(true, std::memory_order_release);
+  }
+
  protected:
   std::atomic<ProcessStatus> process_status_{ProcessStatus::Idle};
   ConsumerContext consumer_;
+  std::atomic_bool consumer_released_{false};
   coroutine_handle<void> done_handle_;
 
  protected:
   void assert_done() const noexcept;
+  void wait_consumer_released() const noexcept;
 
 };
 
diff --git a/framework/core/src/concurrency/result/detail/consumer_context.cc b/framework/core/src/concurrency/result/detail/consumer_context.cc
index 7942b71..90ca113 100644
--- a/framework/core/src/concurrency/result/detail/consumer_context.cc
+++ b/framework/core/src/concurrency/result/detail/consumer_context.cc
@@ -175,14 +175,17 @@ void ConsumerContext::resume_consumer(StateBasic &self) const {
       auto caller_handle = storage_.caller_handle;
       assert(static_cast<bool>(caller_handle));
       assert(!caller_handle.done());
+      self.release_consumer();
       return caller_handle();
     }
     case ConsumerStatus::WhenAny: {
       const auto when_any_ctx = storage_.when_any_ctx;
+      self.release_consumer();
       return when_any_ctx->try_resume(self);
     }
     case ConsumerStatus::Shared: {
       const auto weak_shared_ctx = storage_.shared_ctx;
+      self.release_consumer();
       const auto shared_ctx = weak_shared_ctx.lock();
       if (static_cast<bool>(shared_ctx)) {
         shared_ctx->on_finished();
diff --git a/framework/core/src/concurrency/result/detail/state.cc b/framework/core/src/concurrency/result/detail/state.cc
index a9db746..f2d54ef 100644
--- a/framework/core/src/concurrency/result/detail/state.cc
+++ b/framework/core/src/concurrency/result/detail/state.cc
@@ -1,4 +1,5 @@
 #include "plain/concurrency/result/detail/state.h"
+#include <thread>
 #include "plain/sys/atomic_wait.h"
 #include "plain/concurrency/result/detail/shared_state.h"
 
@@ -113,11 +114,13 @@ void StateBasic::share(
     std::memory_order_acquire);
   if (idle) return;
   assert_done();
+  consumer_.clear();
   shared_result_state->on_finished();
 }
 
 void StateBasic::try_rewind_consumer() noexcept {
   const auto status = process_status_.load(std::memory_order_acquire);
+  if (status == ProcessStatus::ProducerDone) return wait_consumer_released();
   if (status != ProcessStatus::ConsumerSet) return;
   auto expected_status = ProcessStatus::ConsumerSet;
   const auto consumer = process_status_.compare_exchange_strong(
@@ -127,7 +130,14 @@ void StateBasic::try_rewind_consumer() noexcept {
     std::memory_order_acquire);
   if (!consumer) {
     assert_done();
-    return;
+    return wait_consumer_released();
   }
   consumer_.clear();
 }
+
+void StateBasic::wait_consumer_released() const noexcept {
+  // A registered context is still being read by the producer.
+  if (consumer_.empty()) return;
+  while (!consumer_released_.load(std::memory_order_acquire))
+    std::this_thread::yield();
+}
-- 
2.43.0


From 2529a631686504ec973001e3195ab37e56126efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:10 +0000
Subject: [PATCH 09/73] fix: timers follow wall clock jumps instead of elapsed
 time

std::chrono::high_resolution_clock is the system clock with libstdc++, so a
clock step fires timers early or stalls them.
---
 framework/core/include/plain/engine/timer.h | 2 +-
 framework/core/src/engine/timer_queue.cc    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/framework/core/include/plain/engine/timer.h b/framework/core/include/plain/engine/timer.h
index 67e281f..ff586b6 100644
--- a/framework/core/include/plain/engine/timer.h
+++ b/framework/core/include/plain/engine/timer.h
@@ -26,7 +26,7 @@ class PLAIN_API TimerStateBasic :
   public std::enable_shared_from_this<TimerStateBasic> {
 
  public:
-  using clock_type = std::chrono::high_resolution_clock;
+  using clock_type = std::chrono::steady_clock;
   using time_point = std::chrono::time_point<clock_type>;
   using milliseconds = std::chrono::milliseconds;
 
diff --git a/framework/core/src/engine/timer_queue.cc b/framework/core/src/engine/timer_queue.cc
index 698a958..1dc03e7 100644
--- a/framework/core/src/engine/timer_queue.cc
+++ b/framework/core/src/engine/timer_queue.cc
@@ -5,7 +5,7 @@
 #include "plain/sys/thread.h"
 
 using plain::TimerQueue;
-using clock_type = std::chrono::high_resolution_clock;
+using clock_type = std::chrono::steady_clock;
 using time_point_t = std::chrono::time_point<clock_type>;
 using timer_ptr_t = std::shared_ptr<plain::detail::TimerStateBasic>;
 
@@ -41,7 +41,7 @@ class TimerQueueInternal {
   ::time_point_t process_timers(request_queue_t &queue) {
     process_request_queue(queue);
 
-    const auto now = std::chrono::high_resolution_clock::now();
+    const auto now = std::chrono::steady_clock::now();
     while (true) {
       if (timers_.empty()) break;
       timer_set_t temp_set;
-- 
2.43.0


From c97efebf73881e7b3ed3afaf8f44ac7dda22fdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:10 +0000
Subject: [PATCH 10/73] fix: a timer firing while its executor shuts down
 terminates the process

The executor may be shut down between the check and the post, whose exception
then escapes from the timer thread.
---
 framework/core/src/engine/timer.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/framework/core/src/engine/timer.cc b/framework/core/src/engine/timer.cc
index 7f12a7b..abfa249 100644
--- a/framework/core/src/engine/timer.cc
+++ b/framework/core/src/engine/timer.cc
@@ -21,12 +21,16 @@ void TimerStateBasic::fire() {
   deadline_ = make_deadline(milliseconds(frequency));
 
   assert(static_cast<bool>(executor_));
-  // FIXME: share the executor maybe get shutdown before post.
   if (executor_->shutdown_requested()) return;
 
-  executor_->post([self = shared_from_this()]() mutable {
-    self->execute();
-  });
+  try {
+    executor_->post([self = shared_from_this()]() mutable {
+      self->execute();
+    });
+  } catch (const std::runtime_error &) {
+    // The executor was shut down after the check above.
+    if (!executor_->shutdown_requested()) throw;
+  }
 }
 
 Timer::Timer(std::shared_ptr<TimerStateBasic> timer_impl) noexcept :
-- 
2.43.0


From 5ec5340ab061c5691df6aaf42e2430318acf5401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:10 +0000
Subject: [PATCH 11/73] fix: timer queue shutdown destroys pending timers under
 its lock

A pending delay object resumes its coroutine when destroyed; if that cancels
or creates a timer it locks the queue again and deadlocks.
---
 framework/core/src/engine/timer_queue.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/framework/core/src/engine/timer_queue.cc b/framework/core/src/engine/timer_queue.cc
index 1dc03e7..4494c07 100644
--- a/framework/core/src/engine/timer_queue.cc
+++ b/framework/core/src/engine/timer_queue.cc
@@ -304,8 +304,12 @@ void TimerQueue::shutdown() {
   impl_->abort = true;
   if (!impl_->worker.joinable())
     return;
+  // Pending timers may resume coroutines when destroyed, which may use this
+  // queue, so not under the lock.
+  auto request_queue = std::move(impl_->request_queue);
   impl_->request_queue.clear();
   lock.unlock();
+  request_queue.clear();
 
   impl_->condition.notify_all();
   impl_->worker.join();
-- 
2.43.0


From 7584bdb7b68a112bb2a1b2a6a791e25a3b313eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:19 +0000
Subject: [PATCH 12/73] fix: manual executor time-outs follow wall clock jumps
 instead of elapsed time

---
 .../plain/concurrency/executor/manual.h       | 22 +++++++++----------
 .../core/src/concurrency/executor/manual.cc   |  6 ++---
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/framework/core/include/plain/concurrency/executor/manual.h b/framework/core/include/plain/concurrency/executor/manual.h
index 8e4ecbf..3ec00f4 100644
--- a/framework/core/include/plain/concurrency/executor/manual.h
+++ b/framework/core/include/plain/concurrency/executor/manual.h
@@ -47,7 +47,7 @@ Manual final : public Derivable<Manual> {
 
   template <typename Clock, typename Duration = typename Clock::duration>
   bool loop_once_until(std::chrono::time_point<Clock, Duration> timeout_time) {
-    return loop_until_impl(1, to_system_time_point(timeout_time));
+    return loop_until_impl(1, to_steady_time_point(timeout_time));
   }
 
   size_t loop(size_t max_count);
@@ -56,7 +56,7 @@ Manual final : public Derivable<Manual> {
   template <typename Clock, typename Duration = typename Clock::duration>
   size_t loop_until(
     size_t max_count, std::chrono::time_point<Clock, Duration> timeout_time) {
-    return loop_until_impl(max_count, to_system_time_point(timeout_time));
+    return loop_until_impl(max_count, to_steady_time_point(timeout_time));
   }
 
   void wait_for_task();
@@ -65,7 +65,7 @@ Manual final : public Derivable<Manual> {
   template <typename Clock, typename Duration = typename Clock::duration>
   bool wait_for_task_until(
     std::chrono::time_point<Clock, Duration> timeout_time) {
-    return wait_for_tasks_impl(1, to_system_time_point(timeout_time)) == 1;
+    return wait_for_tasks_impl(1, to_steady_time_point(timeout_time)) == 1;
   }
 
   void wait_for_tasks(size_t count);
@@ -75,7 +75,7 @@ Manual final : public Derivable<Manual> {
   template <typename Clock, typename Duration = typename Clock::duration>
   size_t wait_for_tasks_until(
     size_t count, std::chrono::time_point<Clock, Duration> timeout_time) {
-    return wait_for_tasks_impl(count, to_system_time_point(timeout_time));
+    return wait_for_tasks_impl(count, to_steady_time_point(timeout_time));
   }
 
  private:
@@ -87,30 +87,30 @@ Manual final : public Derivable<Manual> {
 
  private:
   template <typename Clock, typename Duration = typename Clock::duration>
-  static std::chrono::system_clock::time_point
-  to_system_time_point(
+  static std::chrono::steady_clock::time_point
+  to_steady_time_point(
     const std::chrono::time_point<Clock, Duration> &time_point)
       noexcept(noexcept(Clock::now())) {
     const auto src_now = Clock::now();
-    const auto dst_now = std::chrono::system_clock::now();
+    const auto dst_now = std::chrono::steady_clock::now();
     return dst_now +
       std::chrono::duration_cast<std::chrono::milliseconds>(
         time_point - src_now);
   }
   
-  static std::chrono::system_clock::time_point
+  static std::chrono::steady_clock::time_point
   time_point_from_now(std::chrono::milliseconds ms) noexcept {
-    return std::chrono::system_clock::now() + ms;
+    return std::chrono::steady_clock::now() + ms;
   }
 
   size_t loop_impl(size_t max_count);
   size_t loop_until_impl(
     size_t max_count,
-    std::chrono::time_point<std::chrono::system_clock> deadline);
+    std::chrono::time_point<std::chrono::steady_clock> deadline);
 
   void wait_for_tasks_impl(size_t count);
   size_t wait_for_tasks_impl(
-    size_t count, std::chrono::time_point<std::chrono::system_clock> deadline);
+    size_t count, std::chrono::time_point<std::chrono::steady_clock> deadline);
 
 };
 
diff --git a/framework/core/src/concurrency/executor/manual.cc b/framework/core/src/concurrency/executor/manual.cc
index e050c04..2671b54 100644
--- a/framework/core/src/concurrency/executor/manual.cc
+++ b/framework/core/src/concurrency/executor/manual.cc
@@ -134,14 +134,14 @@ size_t Manual::loop_impl(size_t max_count) {
 
 size_t Manual::loop_until_impl(
   size_t max_count,
-  std::chrono::time_point<std::chrono::system_clock> deadline) {
+  std::chrono::time_point<std::chrono::steady_clock> deadline) {
   if (max_count == 0) return 0;
   size_t executed{0};
   deadline += std::chrono::milliseconds(1);
   while (true) {
     if (executed == max_count)
       break;
-    const auto now = std::chrono::system_clock::now();
+    const auto now = std::chrono::steady_clock::now();
     if (now >= deadline)
       break;
     std::unique_lock<decltype(lock_)> lock{lock_};
@@ -181,7 +181,7 @@ void Manual::wait_for_tasks_impl(size_t count) {
 }
 
 size_t Manual::wait_for_tasks_impl(
-  size_t count, std::chrono::time_point<std::chrono::system_clock> deadline) {
+  size_t count, std::chrono::time_point<std::chrono::steady_clock> deadline) {
   deadline += std::chrono::milliseconds(1);
   std::unique_lock<decltype(lock_)> lock{lock_};
   condition_.wait_until(lock, deadline, [this, count] {
-- 
2.43.0


From a71992f430c4168f359a928a934ae11c755e8a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:19 +0000
Subject: [PATCH 13/73] fix: timed wait for one task says no when several tasks
 are queued

---
 framework/core/include/plain/concurrency/executor/manual.h | 2 +-
 framework/core/src/concurrency/executor/manual.cc          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework/core/include/plain/concurrency/executor/manual.h b/framework/core/include/plain/concurrency/executor/manual.h
index 3ec00f4..624c70d 100644
--- a/framework/core/include/plain/concurrency/executor/manual.h
+++ b/framework/core/include/plain/concurrency/executor/manual.h
@@ -65,7 +65,7 @@ Manual final : public Derivable<Manual> {
   template <typename Clock, typename Duration = typename Clock::duration>
   bool wait_for_task_until(
     std::chrono::time_point<Clock, Duration> timeout_time) {
-    return wait_for_tasks_impl(1, to_steady_time_point(timeout_time)) == 1;
+    return wait_for_tasks_impl(1, to_steady_time_point(timeout_time)) >= 1;
   }
 
   void wait_for_tasks(size_t count);
diff --git a/framework/core/src/concurrency/executor/manual.cc b/framework/core/src/concurrency/executor/manual.cc
index 2671b54..1a7ff18 100644
--- a/framework/core/src/concurrency/executor/manual.cc
+++ b/framework/core/src/concurrency/executor/manual.cc
@@ -97,7 +97,7 @@ void Manual::wait_for_task() {
 }
 
 bool Manual::wait_for_task_for(std::chrono::milliseconds max_waiting_time) {
-  return wait_for_tasks_impl(1, time_point_from_now(max_waiting_time)) == 1;
+  return wait_for_tasks_impl(1, time_point_from_now(max_waiting_time)) >= 1;
 }
 
 void Manual::wait_for_tasks(size_t count) {
-- 
2.43.0


From 085f6b453d5327cef12056482cbfd5384adb7943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:56 +0000
Subject: [PATCH 14/73] fix: async logger loses lines appended since the last
 swap when it is stopped

stop() ends the writer loop without another swap; stopping before the writer
entered its loop trips an assertion and loses everything.
---
 framework/core/src/basic/async_logger.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/basic/async_logger.cc b/framework/core/src/basic/async_logger.cc
index 0e34b14..4c5ca67 100644
--- a/framework/core/src/basic/async_logger.cc
+++ b/framework/core/src/basic/async_logger.cc
@@ -194,7 +194,6 @@ void AsyncLogger::Impl::append(const std::string_view &log) {
 }
 
 void AsyncLogger::Impl::thread_handle() {
-  assert(true == running_);
   File file(name_, roll_size_, false);
   BufferPtr buffer1{std::make_unique<Buffer>()};
   BufferPtr buffer2{std::make_unique<Buffer>()};
@@ -246,6 +245,16 @@ void AsyncLogger::Impl::thread_handle() {
     write_buffers.clear();
     file.flush();
   }
+  // Write what was appended since the last swap.
+  {
+    std::unique_lock<std::mutex> auto_lock{mutex_};
+    buffers_.emplace_back(std::move(current_buffer_));
+    current_buffer_ = std::move(buffer1);
+    write_buffers.swap(buffers_);
+  }
+  for (const auto& buf : write_buffers) {
+    file.append({buf->peek(), buf->read_avail()});
+  }
   // Thread end flush.
   file.flush();
 }
-- 
2.43.0


From d345ee0a13f68ec03f6f037b3c05db2852e28f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:55 +0000
Subject: [PATCH 15/73] fix: async logger starts a new file every 1024 writes
 instead of once a day

this_period is the number of the current day, so it is never zero; the check
was meant to compare it with the day the file was opened.
---
 framework/core/src/basic/async_logger.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/basic/async_logger.cc b/framework/core/src/basic/async_logger.cc
index 4c5ca67..4aface9 100644
--- a/framework/core/src/basic/async_logger.cc
+++ b/framework/core/src/basic/async_logger.cc
@@ -93,7 +93,7 @@ void File::append_unlocked(const std::string_view &log) {
       count_ = 0;
       auto now = Time::timestamp();
       time_t this_period = now / kRollPerSeconds_ * kRollPerSeconds_;
-      if (this_period) {
+      if (this_period != start_of_period_) {
         roll();
       } else if (now - last_flush_ > flush_interval_) {
         last_flush_ = now;
-- 
2.43.0


From a3983b7ad056ee4c574b4318e58d1e356f6a2237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:14 +0000
Subject: [PATCH 16/73] fix: an interrupted wait fails a connect and ends a
 connection manager's loop

---
 framework/core/src/net/connection/epoll.cc  | 1 +
 framework/core/src/net/connection/select.cc | 5 ++++-
 framework/core/src/net/socket/api.cc        | 8 ++++++--
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/framework/core/src/net/connection/epoll.cc b/framework/core/src/net/connection/epoll.cc
index 7db956a..ccac83b 100644
--- a/framework/core/src/net/connection/epoll.cc
+++ b/framework/core/src/net/connection/epoll.cc
@@ -154,6 +154,7 @@ bool Epoll::work() noexcept {
 #ifdef PLAIN_EPOLL_ENABLE
   poll_wait(impl_->data, -1);
   if (impl_->data.result_event_count < 0) {
+    if (errno == EINTR) return true;
     LOG_ERROR << "error: " << impl_->data.result_event_count;
     return false;
   }
diff --git a/framework/core/src/net/connection/select.cc b/framework/core/src/net/connection/select.cc
index 1e133f4..8c921ae 100644
--- a/framework/core/src/net/connection/select.cc
+++ b/framework/core/src/net/connection/select.cc
@@ -93,7 +93,10 @@ bool Select::prepare() noexcept {
 bool Select::work() noexcept {
   impl_->select();
   bool r{true};
-  if (impl_->select_result < 0) {
+  if (impl_->select_result < 0 &&
+      socket::get_last_error().code() == EINTR) {
+    return true;
+  } else if (impl_->select_result < 0) {
     r = false;
     LOG_ERROR << setting_.name << " error: " << impl_->select_result;
   } else if (impl_->select_result > 0) {
diff --git a/framework/core/src/net/socket/api.cc b/framework/core/src/net/socket/api.cc
index 2e9ef7b..db501e0 100644
--- a/framework/core/src/net/socket/api.cc
+++ b/framework/core/src/net/socket/api.cc
@@ -251,9 +251,13 @@ bool connect(
       static_cast<decltype(tv.tv_sec)>(timeout.count() / 1000),
       static_cast<decltype(tv.tv_usec)>(timeout.count() % 1000 * 1000)
     };
-    e = socket::select(FD_SETSIZE, &read_fds, &write_fds, nullptr, &tv);
+    do { // An interrupted wait goes on with the time left.
+      e = socket::select(FD_SETSIZE, &read_fds, &write_fds, nullptr, &tv);
+    } while (e == kSocketError && s_error.code() == EINTR);
   } else {
-    e = socket::select(FD_SETSIZE, &read_fds, &write_fds, nullptr, nullptr); 
+    do {
+      e = socket::select(FD_SETSIZE, &read_fds, &write_fds, nullptr, nullptr); 
+    } while (e == kSocketError && s_error.code() == EINTR);
   }
   r = (e > 0);
   if (!r) {
-- 
2.43.0


From 38d16fd43fea751b55b4013562543390c0b2280d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:46 +0000
Subject: [PATCH 17/73] fix: growing a wrapped ring buffer scrambles its
 contents

---
 framework/core/include/plain/basic/ring.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/framework/core/include/plain/basic/ring.h b/framework/core/include/plain/basic/ring.h
index e7d3bee..d48532a 100644
--- a/framework/core/include/plain/basic/ring.h
+++ b/framework/core/include/plain/basic/ring.h
@@ -242,6 +242,13 @@ using cookie_func_t = std::function<void()>;
     mask_.store(size - 1, std::memory_order_relaxed);
   }
 
+  // Copy the unread elements to where a buffer of the new size expects them.
+  void relocate(T *buffer, std::size_t size) const {
+    auto head = head_.load(std::memory_order_relaxed);
+    for (auto i = tail_.load(std::memory_order_relaxed); i != head; ++i)
+      buffer[i & (size - 1)] = buffer_[i & mask_];
+  }
+
  private:
   virtual bool resize(size_t) { return false; }
 
@@ -306,8 +313,12 @@ class DynamicRing : public Ring<T, fake_tso> {
     if (size == 0) {
       buffer_.clear();
       size = SIZE;
+      buffer_.resize(size);
+    } else {
+      std::vector<T> buffer(size);
+      this->relocate(buffer.data(), size);
+      buffer_.swap(buffer);
     }
-    buffer_.resize(size);
     this->set_buffer(buffer_.data(), size);
     return true;
   }
-- 
2.43.0


From ec4fb0dea31160b3e204c673531c78fc01b1d467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:48 +0000
Subject: [PATCH 18/73] fix: several executor threads work on one connection at
 the same time

---
 framework/core/src/net/connection/manager.cc | 58 ++++++++++----------
 1 file changed, 30 insertions(+), 28 deletions(-)

diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index dbc5c98..cce84fa 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -57,6 +57,8 @@ struct Manager::Impl {
   std::atomic_uint32_t working_conn_count{0};
   std::deque<connection::id_t> wait_work_conn_id_deque;
   std::set<connection::id_t> wait_work_conn_ids;
+  std::set<connection::id_t> working_conn_ids; // A connection works once at a
+                                               // time.
   int32_t working_conn_max_count{32};
   std::latch latch{1};
 
@@ -155,39 +157,35 @@ void Manager::Impl::work(
   std::shared_ptr<Manager> manager, connection::id_t id) noexcept {
   auto conn = manager->get_conn(id);
   bool r{false};
-  bool enqueue_work{true};
   // Ensure end work try to enqueue working.
-  scoped_executor_t scoped_enqueue([&enqueue_work, manager]() {
-    if (enqueue_work) manager->enqueue(connection::kInvalidId);
-  });
-  {
-    scoped_executor_t scoped_executor([manager]() {
-      auto old_working_conn_count =
-        manager->impl_->working_conn_count.load(std::memory_order_acquire);
-      if (old_working_conn_count > 0) {
-        std::atomic_signal_fence(std::memory_order_release);
-        manager->impl_->working_conn_count.fetch_sub(
-          1, std::memory_order_release);
-      }
-    });
-    if (!conn) return;
-    if (!conn->valid()) return;
-    r = conn->work();
-  }
-  if (!r) {
-    manager->remove(conn);
-  } else {
-    if (!conn->idle()) {
-       manager->enqueue(id);
-       enqueue_work = false;
+  scoped_executor_t scoped_enqueue([&r, conn, manager, id]() {
+    std::unique_lock<decltype(manager->impl_->mutex)>
+      lock{manager->impl_->mutex};
+    auto old_working_conn_count =
+      manager->impl_->working_conn_count.load(std::memory_order_acquire);
+    if (old_working_conn_count > 0) {
+      std::atomic_signal_fence(std::memory_order_release);
+      manager->impl_->working_conn_count.fetch_sub(
+        1, std::memory_order_release);
     }
-  }
+    manager->impl_->working_conn_ids.erase(id);
+    // More work goes behind the connections that wait already.
+    if (r && !conn->idle()) manager->impl_->push_work_id(id);
+    manager->enqueue(connection::kInvalidId);
+  });
+  if (!conn) return;
+  if (!conn->valid()) return;
+  r = conn->work();
+  if (!r) manager->remove(conn);
 }
 
 plain::net::connection::id_t Manager::Impl::pop_work_id() noexcept {
-  if (wait_work_conn_id_deque.empty()) return connection::kInvalidId;
-  auto r = wait_work_conn_id_deque.front();
-  wait_work_conn_id_deque.pop_front();
+  auto first = wait_work_conn_id_deque.begin();
+  while (first != wait_work_conn_id_deque.end() &&
+    working_conn_ids.contains(*first)) ++first;
+  if (first == wait_work_conn_id_deque.end()) return connection::kInvalidId;
+  auto r = *first;
+  wait_work_conn_id_deque.erase(first);
   auto it = wait_work_conn_ids.find(r);
   if (it != wait_work_conn_ids.end())
     wait_work_conn_ids.erase(it);
@@ -596,6 +594,10 @@ void Manager::enqueue(connection::id_t id) noexcept {
       id = impl_->pop_work_id();
     }
     if (id == connection::kInvalidId) return;
+    if (!impl_->working_conn_ids.emplace(id).second) {
+      impl_->push_work_id(id); // Go on when the current work is done.
+      return;
+    }
 		std::atomic_signal_fence(std::memory_order_release);
     impl_->working_conn_count.fetch_add(1, std::memory_order_release);
     impl_->executor->enqueue([m = shared_from_this(), id]() {
-- 
2.43.0


From ef5220ae206c04b8c1409063bb9d7ffa9f651420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:48 +0000
Subject: [PATCH 19/73] fix: input that arrives while a connection ends its
 work is never read

---
 framework/core/src/net/connection/basic.cc | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index a189b57..d106e20 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -94,10 +94,8 @@ Basic::Impl::~Impl() = default;
 
 bool Basic::Impl::process_input(Basic *conn) noexcept {
   if (!has_work_flag(WorkFlag::Input)) return true;
-  scoped_executor_t check_flag([this]{
-    if (socket->avail() == 0)
-      set_work_flag(WorkFlag::Input, false);
-  });
+  // Take the flag before looking: what arrives from now on sets it again.
+  set_work_flag(WorkFlag::Input, false);
   assert(conn);
   if (!socket->valid()) return false;
   auto r = istream->pull();
@@ -109,11 +107,10 @@ bool Basic::Impl::process_input(Basic *conn) noexcept {
   if (m) {
     m->increase_recv_size(r);
   }
-  set_work_flag(WorkFlag::Command, true);
-  /*
-  if (socket->avail() == 0)
-    set_work_flag(WorkFlag::Input, false);
-  */
+  if (r > 0) {
+    set_work_flag(WorkFlag::Command, true);
+    set_work_flag(WorkFlag::Input, true); // Pull until nothing is left.
+  }
   return true;
 }
 
-- 
2.43.0


From 9176436b05480c5d9aae454e0480b2c271f4416a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:48 +0000
Subject: [PATCH 20/73] fix: a packet sent while the output buffer runs empty
 is never pushed

---
 framework/core/src/net/connection/basic.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index d106e20..2b61334 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -129,9 +129,9 @@ bool Basic::Impl::process_output(Basic *conn) noexcept {
     if (r > 0 && m) {
       m->increase_send_size(r);
     }
+    if (ostream->size() == 0) // A send after this sets the flag again.
+      work_flags &= ~(0x1 << std::to_underlying(WorkFlag::Output));
   }
-  if (ostream->size() == 0)
-    set_work_flag(WorkFlag::Output, false);
   return true;
 }
 
-- 
2.43.0


From e0309efb0f81fbd9bcaf23f08c4e499619a59acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:48 +0000
Subject: [PATCH 21/73] fix: a connection whose packets arrive in pieces is
 dropped

---
 framework/core/src/net/connection/basic.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 2b61334..f6d8cf4 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -201,6 +201,7 @@ bool Basic::Impl::process_command(Basic *conn) noexcept {
     }
     auto p = std::get_if<std::shared_ptr<packet::Basic>>(&r);
     if (!p) return false; // impossible.
+    error_times = 0;
     // Handle packet.
     if ((*p)->is_call_request() || (*p)->is_call_notify()) {
       if (!handle_rpc_request(conn, *p)) return false;
@@ -215,7 +216,6 @@ bool Basic::Impl::process_command(Basic *conn) noexcept {
     }
     if (istream->size() == 0) break;
   }
-  error_times = 0;
   return true;
 }
 
-- 
2.43.0


From 3752833620424576ab8e102f379dce1955084684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:25 +0000
Subject: [PATCH 22/73] fix: a manager's worker sleeps through its first
 connection and through stop

---
 framework/core/src/net/connection/manager.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index cce84fa..de16e22 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -68,6 +68,7 @@ struct Manager::Impl {
   void init_connections(uint32_t count);
 #ifndef PLAIN_NET_MANAGER_ENABLE_COROUTINE
   static bool wait_work(std::shared_ptr<Manager> manager) noexcept;
+  void notify_wait_work() noexcept;
 #else
   static void enqueue_work_await(std::shared_ptr<Manager> manager) noexcept;
   static plain::net::detail::Task<bool>
@@ -147,10 +148,17 @@ bool Manager::Impl::wait_work(std::shared_ptr<Manager> manager) noexcept {
         manager->impl_->connection_info.size > 0 || !manager->running();
     });
   }
+  lock.unlock();
   if (!manager->running() || !manager->work()) return false;
   // std::this_thread::sleep_for(1ms); // change to executor thread work.
   return true;
 }
+
+void Manager::Impl::notify_wait_work() noexcept {
+  // A worker that has just looked must be waiting before it is notified.
+  { std::unique_lock<std::mutex> lock{wait_mutex}; }
+  cv.notify_one(); // Just one for wait work.
+}
 #endif
 
 void Manager::Impl::work(
@@ -267,7 +275,7 @@ void Manager::stop() {
     if (conn && conn->valid()) conn->shutdown();
   }
 #ifndef PLAIN_NET_MANAGER_ENABLE_COROUTINE
-  impl_->cv.notify_one(); // Just one for wait work.
+  impl_->notify_wait_work();
 #endif
   send_ctrl_cmd("k"); // Send stop.
 
@@ -361,7 +369,7 @@ std::shared_ptr<plain::net::connection::Basic> Manager::new_conn() noexcept {
   impl_->connection_info.ids->emplace(id);
 
 #ifndef PLAIN_NET_MANAGER_ENABLE_COROUTINE
-  impl_->cv.notify_one(); // Just one for wait work.
+  impl_->notify_wait_work();
 #endif
   return r;
 }
-- 
2.43.0


From 2613a0d0e6d647b47f84f3b9b17b054c92b9023d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:02 +0000
Subject: [PATCH 23/73] fix: stopping a manager while its connections work
 terminates the process

---
 framework/core/src/net/connection/manager.cc | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index de16e22..1fdf9a4 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -271,7 +271,12 @@ void Manager::stop() {
   if (setting_.name != "console") // console is kernel owner
     ENGINE->remove_net(setting_.name);
   off();
-  for (auto conn : impl_->connection_info.list) {
+  decltype(impl_->connection_info.list) list;
+  {
+    std::unique_lock<decltype(impl_->mutex)> auto_lock(impl_->mutex);
+    list = impl_->connection_info.list;
+  }
+  for (auto conn : list) {
     if (conn && conn->valid()) conn->shutdown();
   }
 #ifndef PLAIN_NET_MANAGER_ENABLE_COROUTINE
@@ -608,9 +613,14 @@ void Manager::enqueue(connection::id_t id) noexcept {
     }
 		std::atomic_signal_fence(std::memory_order_release);
     impl_->working_conn_count.fetch_add(1, std::memory_order_release);
-    impl_->executor->enqueue([m = shared_from_this(), id]() {
-      Manager::Impl::work(m, id);
-    });
+    try {
+      impl_->executor->enqueue([m = shared_from_this(), id]() {
+        Manager::Impl::work(m, id);
+      });
+    } catch (...) { // The executor is shut down, stop has overtaken us.
+      impl_->working_conn_count.fetch_sub(1, std::memory_order_release);
+      impl_->working_conn_ids.erase(id);
+    }
   } else if (id != connection::kInvalidId) {
     impl_->push_work_id(id);
   }
-- 
2.43.0


From 5b451be75144ced1abbbd8184eac75036f9eadbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:03 +0000
Subject: [PATCH 24/73] fix: select manager stops when a connection is closed,
 and spins when idle

---
 framework/core/src/net/connection/select.cc | 26 +++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/net/connection/select.cc b/framework/core/src/net/connection/select.cc
index 8c921ae..fb69000 100644
--- a/framework/core/src/net/connection/select.cc
+++ b/framework/core/src/net/connection/select.cc
@@ -1,4 +1,7 @@
 #include "plain/net/connection/select.h"
+#if OS_UNIX || OS_MAC
+#include <fcntl.h>
+#endif
 #include <cassert>
 #include <set>
 #include "plain/basic/logger.h"
@@ -50,6 +53,7 @@ struct Select::Impl {
   }
 
   void select() noexcept;
+  void remove_closed_fds() noexcept;
 };
 
 void Select::Impl::select() noexcept {
@@ -58,6 +62,7 @@ void Select::Impl::select() noexcept {
   // write_fds.use = write_fds.full;
   except_fds.use = except_fds.full;
   if (select_timeout >= 0) {
+    auto timeout = this->timeout; // The call changes it.
     select_result = socket::select(
       max_fd + 1, &read_fds.use, nullptr, &except_fds.use, &timeout);
   } else {
@@ -66,6 +71,20 @@ void Select::Impl::select() noexcept {
   }
 }
 
+void Select::Impl::remove_closed_fds() noexcept {
+#if OS_UNIX || OS_MAC
+  std::unique_lock lock{mutex};
+  for (auto fd : std::set<socket::id_t>{valid_fds}) {
+    if (::fcntl(fd, F_GETFD) != -1 || errno != EBADF) continue;
+    FD_CLR(fd, &read_fds.full);
+    FD_CLR(fd, &write_fds.full);
+    FD_CLR(fd, &except_fds.full);
+    change_vaild_fd(fd, false);
+    --fd_size;
+  }
+#endif
+}
+
 Select::Select(
   const setting_t &setting,
   std::shared_ptr<concurrency::executor::Basic> executor) :
@@ -93,8 +112,10 @@ bool Select::prepare() noexcept {
 bool Select::work() noexcept {
   impl_->select();
   bool r{true};
-  if (impl_->select_result < 0 &&
-      socket::get_last_error().code() == EINTR) {
+  auto error = socket::get_last_error().code();
+  if (impl_->select_result < 0 && (error == EINTR || error == EBADF)) {
+    // EBADF: a connection was closed after the set was copied, or by its user.
+    if (error == EBADF) impl_->remove_closed_fds();
     return true;
   } else if (impl_->select_result < 0) {
     r = false;
@@ -124,6 +145,7 @@ void Select::handle_io() noexcept {
   try {
     foreach([this, listen_fd = listen_fd_](std::shared_ptr<Basic> conn){
       auto id = conn->socket()->id();
+      if (id == socket::kInvalidId) return; // Closed right now.
       if (FD_ISSET(id, &impl_->except_fds.use)) {
         LOG_ERROR << setting_.name << " connection has except: " << conn->id();
         this->remove(conn->id());
-- 
2.43.0


From 8b72c1b45ec1c9beb08e582e92814e9e562bf24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:27 +0000
Subject: [PATCH 25/73] fix: a task that enqueues itself again starves the
 tasks of other threads

---
 .../src/concurrency/executor/thread_pool.cc    | 18 +++++++++++-------
 .../src/concurrency/executor/worker_thread.cc  | 13 ++++++++-----
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/framework/core/src/concurrency/executor/thread_pool.cc b/framework/core/src/concurrency/executor/thread_pool.cc
index d42d8e0..3620a7e 100644
--- a/framework/core/src/concurrency/executor/thread_pool.cc
+++ b/framework/core/src/concurrency/executor/thread_pool.cc
@@ -313,7 +313,9 @@ bool ThreadPoolWorker::wait_for_task(std::unique_lock<std::mutex> &lock) {
 bool ThreadPoolWorker::drain_queue_impl() {
   auto aborted = false;
 
-  while (!private_queue_.empty()) {
+  // Tasks enqueued by these tasks wait behind those of other threads.
+  for (auto count = private_queue_.size();
+    count > 0 && !private_queue_.empty(); --count) {
     balance_work();
     
     if (atomic_abort_.load(std::memory_order_relaxed)) {
@@ -322,8 +324,8 @@ bool ThreadPoolWorker::drain_queue_impl() {
     }
 
     assert(!private_queue_.empty());
-    auto task = std::move(private_queue_.back());
-    private_queue_.pop_back();
+    auto task = std::move(private_queue_.front());
+    private_queue_.pop_front();
     task();
   }
 
@@ -337,10 +339,10 @@ bool ThreadPoolWorker::drain_queue_impl() {
 
 bool ThreadPoolWorker::drain_queue() {
   std::unique_lock<decltype(lock_)> lock{lock_};
-  if (!wait_for_task(lock))
+  if (private_queue_.empty() && !wait_for_task(lock))
     return false;
   assert(lock.owns_lock());
-  assert(!public_queue_.empty() || abort_);
+  assert(!private_queue_.empty() || !public_queue_.empty() || abort_);
 
   task_found_or_abort_.store(false, std::memory_order_relaxed);
 
@@ -348,8 +350,10 @@ bool ThreadPoolWorker::drain_queue() {
     idle_ = true;
     return false;
   }
-  assert(private_queue_.empty());
-  std::swap(private_queue_, public_queue_);
+  private_queue_.insert(
+    private_queue_.end(), std::make_move_iterator(public_queue_.begin()),
+    std::make_move_iterator(public_queue_.end()));
+  public_queue_.clear();
   lock.unlock();
 
   return drain_queue_impl();
diff --git a/framework/core/src/concurrency/executor/worker_thread.cc b/framework/core/src/concurrency/executor/worker_thread.cc
index ab418f5..1619fb5 100644
--- a/framework/core/src/concurrency/executor/worker_thread.cc
+++ b/framework/core/src/concurrency/executor/worker_thread.cc
@@ -35,7 +35,8 @@ void WorkerThread::make_os_worker_thread() {
 }
 
 bool WorkerThread::drain_queue_impl() {
-  while (!private_queue_.empty()) {
+  // Tasks enqueued by these tasks wait behind those of other threads.
+  for (auto count = private_queue_.size(); count > 0; --count) {
     auto task = std::move(private_queue_.front());
     private_queue_.pop_front();
     if (private_atomic_abort_.load(std::memory_order_relaxed)) {
@@ -65,15 +66,17 @@ void WorkerThread::wait_for_task(std::unique_lock<std::mutex> &lock) {
 bool WorkerThread::drain_queue() {
   std::unique_lock<decltype(lock_)> lock(lock_);
   
-  wait_for_task(lock);
+  if (private_queue_.empty()) wait_for_task(lock);
 
   assert(lock.owns_lock());
-  assert(!public_queue_.empty() || abort_);
+  assert(!private_queue_.empty() || !public_queue_.empty() || abort_);
 
   if (abort_) return false;
 
-  assert(private_queue_.empty());
-  std::swap(private_queue_, public_queue_);
+  private_queue_.insert(
+    private_queue_.end(), std::make_move_iterator(public_queue_.begin()),
+    std::make_move_iterator(public_queue_.end()));
+  public_queue_.clear();
   lock.unlock();
 
   return drain_queue_impl();
-- 
2.43.0


From c71415fce4a7ea9423bfc8606fdefacaa80a044a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:27 +0000
Subject: [PATCH 26/73] fix: select manager forgets its listening and control
 sockets when a connection is removed

---
 framework/core/src/net/connection/select.cc | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/framework/core/src/net/connection/select.cc b/framework/core/src/net/connection/select.cc
index fb69000..a62edf1 100644
--- a/framework/core/src/net/connection/select.cc
+++ b/framework/core/src/net/connection/select.cc
@@ -57,18 +57,23 @@ struct Select::Impl {
 };
 
 void Select::Impl::select() noexcept {
+  // Wait on copies, connections are added and removed meanwhile.
+  std::unique_lock lock{mutex};
   if (max_fd == socket::kInvalidId) return;
-  read_fds.use = read_fds.full;
-  // write_fds.use = write_fds.full;
-  except_fds.use = except_fds.full;
+  auto read = read_fds.full;
+  // auto write = write_fds.full;
+  auto except = except_fds.full;
+  auto max = max_fd + 1;
+  lock.unlock();
   if (select_timeout >= 0) {
     auto timeout = this->timeout; // The call changes it.
-    select_result = socket::select(
-      max_fd + 1, &read_fds.use, nullptr, &except_fds.use, &timeout);
+    select_result = socket::select(max, &read, nullptr, &except, &timeout);
   } else {
-    select_result = socket::select(
-      max_fd + 1, &read_fds.use, nullptr, &except_fds.use, nullptr);
+    select_result = socket::select(max, &read, nullptr, &except, nullptr);
   }
+  lock.lock();
+  read_fds.use = read;
+  except_fds.use = except;
 }
 
 void Select::Impl::remove_closed_fds() noexcept {
-- 
2.43.0


From 2a587179a9b2f6fe101128c5a6bf82c06d204ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:44 +0000
Subject: [PATCH 27/73] fix: a connection that ends with a socket error is
 removed while it works, or never

The polling thread looked at the error of a readable socket and removed the
connection, its buffers included, while an executor thread could be dispatching
its packets. And wherever the error was noticed first by valid(), which clears
it, the connection was skipped and stayed in its manager for ever. An error now
ends the connection's own work.
---
 framework/core/src/net/connection/basic.cc   | 3 ++-
 framework/core/src/net/connection/epoll.cc   | 6 +-----
 framework/core/src/net/connection/manager.cc | 4 ++--
 3 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index f6d8cf4..3344203 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -421,7 +421,8 @@ bool Basic::init() noexcept {
 
 bool Basic::idle() const noexcept {
   std::unique_lock<std::mutex> lock{impl_->mutex};
-  return !impl_->socket->valid() || (impl_->work_flags == 0);
+  // Not valid(): asking for the socket's error here would swallow it.
+  return impl_->socket->id() == socket::kInvalidId || impl_->work_flags == 0;
 }
   
 bool Basic::shutdown(int32_t how) noexcept {
diff --git a/framework/core/src/net/connection/epoll.cc b/framework/core/src/net/connection/epoll.cc
index ccac83b..fe5bb5a 100644
--- a/framework/core/src/net/connection/epoll.cc
+++ b/framework/core/src/net/connection/epoll.cc
@@ -229,11 +229,7 @@ void Epoll::handle_input() noexcept {
         remove(conn_id);
         continue;
       }
-      if (conn->socket()->error()) {
-        LOG_ERROR << setting_.name << " socket error: " << conn_id;
-        remove(conn_id);
-        continue;
-      }
+      // A socket error ends the connection's own work, it may be running now.
       conn->enqueue_work(WorkFlag::Input);
     }
   }
diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index 1fdf9a4..beefbc8 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -182,8 +182,8 @@ void Manager::Impl::work(
     manager->enqueue(connection::kInvalidId);
   });
   if (!conn) return;
-  if (!conn->valid()) return;
-  r = conn->work();
+  if (conn->socket()->id() == socket::kInvalidId) return; // Removed already.
+  r = conn->valid() && conn->work();
   if (!r) manager->remove(conn);
 }
 
-- 
2.43.0


From 773860d82c8ef168b7c055889046db543b987e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:50 +0000
Subject: [PATCH 28/73] fix: a connection works before it is announced, and its
 end is reported more than once

A connected socket was handed to the poller before the connect callbacks ran, so
packets and even the disconnect callback could overtake them; work left over from
the previous user of a slot could hit a connection that was still connecting; and
two threads that noticed the end of one connection both removed it, which frees
its slot twice. A connection is now linked after it has been announced, only a
linked one works, and only the remove that unlinks it reports its end.
---
 .../include/plain/net/connection/manager.h    |  2 +
 framework/core/src/net/connection/manager.cc  | 39 ++++++++++++-------
 framework/core/src/net/connector.cc           | 13 +------
 3 files changed, 30 insertions(+), 24 deletions(-)

diff --git a/framework/core/include/plain/net/connection/manager.h b/framework/core/include/plain/net/connection/manager.h
index 11bec3f..7c3007c 100644
--- a/framework/core/include/plain/net/connection/manager.h
+++ b/framework/core/include/plain/net/connection/manager.h
@@ -77,6 +77,8 @@ class PLAIN_API Manager :
     bool sock = true) noexcept;
   void remove(
     connection::id_t conn_id, bool no_event = false, bool sock = true) noexcept;
+  // Announce the connection, then let it work.
+  bool link(Basic *conn) noexcept;
   void foreach(std::function<void(std::shared_ptr<Basic> conn)> func); // valid
   void recv_ctrl_cmd() noexcept;
   void enqueue(connection::id_t conn_id) noexcept;
diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index beefbc8..463ac45 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -26,6 +26,7 @@ namespace {
 struct ConnectionInfo {
   std::vector<std::shared_ptr<plain::net::connection::Basic>> list;
   std::shared_ptr<std::set<id_t>> ids; // The valid ids.
+  std::set<id_t> linked_ids; // The announced ids, those may work.
   std::set<id_t> free_ids;
   size_t size{0};
   id_t max_id{0};
@@ -78,6 +79,7 @@ struct Manager::Impl {
     std::shared_ptr<Manager> manager, connection::id_t conn_id) noexcept;
   connection::id_t pop_work_id() noexcept;
   void push_work_id(connection::id_t id) noexcept;
+  bool is_linked(connection::id_t id) noexcept;
 
 };
 
@@ -181,7 +183,7 @@ void Manager::Impl::work(
     if (r && !conn->idle()) manager->impl_->push_work_id(id);
     manager->enqueue(connection::kInvalidId);
   });
-  if (!conn) return;
+  if (!conn || !manager->impl_->is_linked(id)) return;
   if (conn->socket()->id() == socket::kInvalidId) return; // Removed already.
   r = conn->valid() && conn->work();
   if (!r) manager->remove(conn);
@@ -208,6 +210,11 @@ void Manager::Manager::Impl::push_work_id(connection::id_t id) noexcept {
   wait_work_conn_ids.emplace(id);
 }
 
+bool Manager::Impl::is_linked(connection::id_t id) noexcept {
+  std::unique_lock<decltype(mutex)> lock{mutex};
+  return connection_info.linked_ids.contains(id);
+}
+
 Manager::Manager(
   const setting_t &setting,
   std::shared_ptr<concurrency::executor::Basic> executor) :
@@ -397,6 +404,8 @@ void Manager::remove(
   assert(conn_id != connection::kInvalidId);
   if (conn_id <= 0 || conn_id > impl_->connection_info.max_id)
     return;
+  auto linked = impl_->connection_info.linked_ids.erase(conn_id) > 0;
+  if (!no_event && !linked) return; // Ended already, or not announced.
   auto &conn = impl_->connection_info.list[conn_id - 1];
   if (conn) {
     if (!no_event) {
@@ -419,6 +428,20 @@ void Manager::remove(
   impl_->connection_info.ids->erase(conn_id);
 }
   
+bool Manager::link(Basic *conn) noexcept {
+  conn->on_connect();
+  if (static_cast<bool>(impl_->connect_callback))
+    impl_->connect_callback(conn);
+  std::unique_lock<decltype(impl_->mutex)> auto_lock(impl_->mutex);
+  impl_->connection_info.linked_ids.emplace(conn->id());
+  if (!sock_add(conn->socket()->id(), conn->id())) {
+    remove(conn->id(), false, false);
+    return false;
+  }
+  if (!conn->idle()) enqueue(conn->id()); // Sent by the callbacks.
+  return true;
+}
+
 void Manager::broadcast(std::shared_ptr<packet::Basic> packet) noexcept {
   assert(packet);
   decltype(impl_->connection_info.ids) ids;
@@ -489,15 +512,10 @@ std::shared_ptr<plain::net::connection::Basic> Manager::accept() noexcept {
       socket::get_last_error();
     return {};
   }
-  if (!sock_add(conn->socket()->id(), conn->id())) {
-    remove(conn, true);
+  if (!link(conn.get())) {
     LOG_ERROR << setting_.name << " sock_add error";
     return {};
   }
-  conn->on_connect();
-  if (static_cast<bool>(impl_->connect_callback)) {
-    impl_->connect_callback(conn.get());
-  }
   return conn;
 }
   
@@ -532,15 +550,10 @@ Manager::accept(socket::id_t sock_id) noexcept {
       socket::get_last_error();
     return {};
   }
-  if (!sock_add(conn->socket()->id(), conn->id())) {
-    remove(conn, true);
+  if (!link(conn.get())) {
     LOG_ERROR << setting_.name << " sock_add error";
     return {};
   }
-  conn->on_connect();
-  if (static_cast<bool>(impl_->connect_callback)) {
-    impl_->connect_callback(conn.get());
-  }
   return conn;
 }
 
diff --git a/framework/core/src/net/connector.cc b/framework/core/src/net/connector.cc
index 0a0d3a7..a7b671a 100644
--- a/framework/core/src/net/connector.cc
+++ b/framework/core/src/net/connector.cc
@@ -129,16 +129,11 @@ Connector::connect_impl(
     LOG_ERROR << "set_linger(0) failed: " << socket::get_last_error();
     return {};
   }
-  if (!impl_->manager->sock_add(sock->id(), conn->id())) {
-    impl_->manager->remove(conn, true, false);
+  if (!impl_->manager->link(conn.get())) {
     LOG_ERROR << "sock add failed";
     return {};
   }
   impl_->manager->send_ctrl_cmd("w"); // wakeup to add socket descriptor.
-  conn->on_connect();
-  const auto &callback = impl_->manager->connect_callback();
-  if (static_cast<bool>(callback))
-    callback(conn.get());
   return conn;
 }
   
@@ -194,15 +189,11 @@ bool Connector::connect(
     LOG_ERROR << "set_linger(0) failed: " << socket::get_last_error();
     return false;
   }
-  if (!impl_->manager->sock_add(sock->id(), conn->id())) {
+  if (!impl_->manager->link(conn)) {
     LOG_ERROR << "sock add failed";
     return false;
   }
   impl_->manager->send_ctrl_cmd("w"); // wakeup to add socket descriptor.
-  conn->on_connect();
-  const auto &callback = impl_->manager->connect_callback();
-  if (static_cast<bool>(callback))
-    callback(conn);
   return true;
 }
 
-- 
2.43.0


From ab447e2f25cebc701963568da159fd49da0562ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:50 +0000
Subject: [PATCH 29/73] fix: closing a connection whose socket has an error
 leaks the descriptor

---
 framework/core/src/net/connection/basic.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 3344203..5590407 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -431,7 +431,6 @@ bool Basic::shutdown(int32_t how) noexcept {
 }
   
 bool Basic::close() noexcept {
-  if (!impl_->socket->valid()) return true;
   return impl_->socket->close();
 }
   
-- 
2.43.0


From 583a76b7e8c9848df327c110117466c72cabee9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:38 +0000
Subject: [PATCH 30/73] fix: disconnect callbacks run with the manager's lock
 and can deadlock

A callback that waits for a lock of the application deadlocks with a thread that
holds that lock and sends a packet or looks up a connection.
---
 framework/core/src/net/connection/manager.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index 463ac45..98b047b 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -406,12 +406,15 @@ void Manager::remove(
     return;
   auto linked = impl_->connection_info.linked_ids.erase(conn_id) > 0;
   if (!no_event && !linked) return; // Ended already, or not announced.
-  auto &conn = impl_->connection_info.list[conn_id - 1];
+  auto conn = impl_->connection_info.list[conn_id - 1];
   if (conn) {
     if (!no_event) {
+      // Not with the lock: a callback may wait for a thread that needs it.
+      auto_lock.unlock();
       conn->on_disconnect();
       if (static_cast<bool>(impl_->disconnect_callback))
         impl_->disconnect_callback(conn.get());
+      auto_lock.lock();
     }
     if (sock && conn->socket()->valid()) this->sock_remove(conn->socket()->id());
     conn->shutdown();
@@ -435,6 +438,7 @@ bool Manager::link(Basic *conn) noexcept {
   std::unique_lock<decltype(impl_->mutex)> auto_lock(impl_->mutex);
   impl_->connection_info.linked_ids.emplace(conn->id());
   if (!sock_add(conn->socket()->id(), conn->id())) {
+    auto_lock.unlock();
     remove(conn->id(), false, false);
     return false;
   }
-- 
2.43.0


From 0cea9f0f8f3bede32b2cdbce071449e52ecb0e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:41 +0000
Subject: [PATCH 31/73] fix: a remote call of a function without a result
 crashes the server

---
 framework/core/src/net/connection/basic.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 5590407..61ce23f 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -332,7 +332,7 @@ bool Basic::Impl::handle_rpc_request(
       (*p) << error;
       if (!e) {
         auto temp = std::get_if<std::shared_ptr<rpc::Packer>>(&r);
-        if (temp) (*p) << (*temp)->vector();
+        if (temp && *temp) (*p) << (*temp)->vector(); // None if void.
       }
       p->set_writeable(false);
       conn->send(p);
-- 
2.43.0


From 2c1a3571ff2973db007d03d5d7f3244b7a91fd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:41 +0000
Subject: [PATCH 32/73] fix: the answer of a remote call is read from a packet
 that is already freed

---
 framework/core/include/plain/net/rpc/unpacker.h | 5 +++++
 framework/core/src/net/connection/basic.cc      | 2 +-
 framework/core/src/net/rpc/unpacker.cc          | 6 ++++++
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/framework/core/include/plain/net/rpc/unpacker.h b/framework/core/include/plain/net/rpc/unpacker.h
index 6c414a1..ff55253 100644
--- a/framework/core/include/plain/net/rpc/unpacker.h
+++ b/framework/core/include/plain/net/rpc/unpacker.h
@@ -14,6 +14,7 @@
 
 #include "plain/net/rpc/config.h"
 #include <chrono>
+#include <memory>
 #include "plain/basic/error.h"
 #include "plain/net/rpc/traits.h"
 
@@ -25,6 +26,9 @@ class PLAIN_API Unpacker {
  public:
   Unpacker();
   Unpacker(const uint8_t *data, size_t size);
+  // The owner of the data stays alive as long as the unpacker.
+  Unpacker(
+    const uint8_t *data, size_t size, std::shared_ptr<const void> owner);
   ~Unpacker();
 
  public:
@@ -226,6 +230,7 @@ class PLAIN_API Unpacker {
  private:
   const uint8_t *data_{nullptr};
   const uint8_t *data_end_{nullptr};
+  std::shared_ptr<const void> owner_;
 
 };
 
diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 61ce23f..ead9381 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -368,7 +368,7 @@ bool Basic::Impl::handle_rpc_response(
     auto data = reinterpret_cast<const uint8_t *>(
       packet->data().data() + packet->offset());
     auto size = packet->data().size() - packet->offset();
-    std::get<1>(call).set_value(rpc::Unpacker(data, size));
+    std::get<1>(call).set_value(rpc::Unpacker(data, size, packet));
   } catch(...) {
     std::get<1>(call).set_exception(std::current_exception());
   }
diff --git a/framework/core/src/net/rpc/unpacker.cc b/framework/core/src/net/rpc/unpacker.cc
index 6d3a185..c9d84d6 100644
--- a/framework/core/src/net/rpc/unpacker.cc
+++ b/framework/core/src/net/rpc/unpacker.cc
@@ -11,6 +11,12 @@ Unpacker::Unpacker(const uint8_t *data, size_t size) :
 
 }
 
+Unpacker::Unpacker(
+  const uint8_t *data, size_t size, std::shared_ptr<const void> owner) :
+  data_{data}, data_end_{data + size}, owner_{std::move(owner)} {
+
+}
+
 Unpacker::~Unpacker() = default;
 
 void Unpacker::unpack(int8_t &value) noexcept {
-- 
2.43.0


From 36ab94771ea790215015c264fe12b7eefa5fae7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:41 +0000
Subject: [PATCH 33/73] fix: answers of remote calls are looked up while other
 threads add calls

---
 framework/core/src/net/connection/basic.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index ead9381..929d489 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -355,12 +355,14 @@ bool Basic::Impl::handle_rpc_response(
   (*packet) >> index;
   if (0 == index) return true; // No call(notify?).
   (*packet) >> error;
-  auto it = callings.find(index);
-  if (it == callings.end()) {
+  std::unique_lock<std::mutex> lock{mutex};
+  auto node = callings.extract(index); // A call is answered once.
+  lock.unlock();
+  if (node.empty()) {
     LOG_WARN << "rpc response no calling: " << index << " error: " << error;
     return false;
   }
-  auto &call = it->second;
+  auto &call = node.mapped();
   try {
     if (error != std::to_underlying(ErrorCode::None)) {
       throw std::logic_error("error: " + std::to_string(error));
-- 
2.43.0


From 7000673157825ee755c04e9af4e77d92bb75d978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:39 +0000
Subject: [PATCH 34/73] fix: a remote call on a connection that ends is never
 answered

Neither the end of a connection nor the stop of its manager failed the calls that
wait for an answer, and a call on an ended connection waited for ever. They fail
now.
---
 .../core/include/plain/net/connection/basic.h |  1 +
 framework/core/src/net/connection/basic.cc    | 21 ++++++++++++++++++-
 framework/core/src/net/connection/manager.cc  |  3 +++
 3 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/framework/core/include/plain/net/connection/basic.h b/framework/core/include/plain/net/connection/basic.h
index 5dfb42a..5e1d4c0 100644
--- a/framework/core/include/plain/net/connection/basic.h
+++ b/framework/core/include/plain/net/connection/basic.h
@@ -129,6 +129,7 @@ Basic final : noncopyable {
  private:
   void on_connect() noexcept;
   void on_disconnect() noexcept;
+  void end_calls() noexcept; // Fail the calls without an answer.
 
  private:
   void set_id(id_t id) noexcept;
diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 929d489..d1542ce 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -54,6 +54,7 @@ struct Basic::Impl {
   std::atomic_uint32_t call_index{0};
   std::unordered_map<uint32_t, call_t> callings;
   std::optional<int64_t> timeout{std::nullopt};
+  bool callable{false}; // Between connect and disconnect, the mutex guards it.
 
   bool process_input(Basic *conn) noexcept;
   bool process_output(Basic *conn) noexcept;
@@ -522,6 +523,10 @@ bool Basic::send(const std::shared_ptr<packet::Basic> &packet) noexcept {
 }
 
 void Basic::on_connect() noexcept {
+  {
+    std::unique_lock<std::mutex> lock{impl_->mutex};
+    impl_->callable = true;
+  }
   check_callable(this, "__connect");
 }
   
@@ -529,9 +534,23 @@ void Basic::on_disconnect() noexcept {
   impl_->istream->clear();
   impl_->ostream->clear();
   impl_->working.store(false, std::memory_order_relaxed);
+  end_calls();
   check_callable(this, "__disconnect");
 }
 
+void Basic::end_calls() noexcept {
+  decltype(impl_->callings) callings;
+  {
+    std::unique_lock<std::mutex> lock{impl_->mutex};
+    impl_->callable = false;
+    callings.swap(impl_->callings);
+  }
+  for (auto &[index, call] : callings) {
+    std::get<1>(call).set_exception(std::make_exception_ptr(
+      std::logic_error("call " + std::get<0>(call) + " disconnected")));
+  }
+}
+
 void Basic::set_keep_alive(bool flag) const noexcept {
   impl_->keep_alive.store(flag, std::memory_order_relaxed);
 }
@@ -546,7 +565,7 @@ bool Basic::send_call(
   std::shared_ptr<std::promise<rpc::Unpacker>> promise) {
   std::unique_lock<std::mutex> lock{impl_->mutex};
   packet->set_call_request(true);
-  auto r = impl_->write(packet);
+  auto r = impl_->callable && impl_->write(packet);
   if (r && static_cast<bool>(promise)) {
     impl_->callings.emplace(
       index, std::make_pair(func_name, std::move(*promise)));
diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index 98b047b..27fb4f4 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -300,6 +300,9 @@ void Manager::stop() {
 #endif
   std::this_thread::sleep_for(1ms);
   impl_->executor->shutdown();
+  for (auto conn : list) {
+    if (conn) conn->end_calls();
+  }
 }
 
 bool Manager::running() const noexcept {
-- 
2.43.0


From fdeef16b38ee86fddc89e94a70b81a5057f8fe63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:14 +0000
Subject: [PATCH 35/73] fix: polling and broadcasting swallow the error of a
 connection that is being made

A connect that was refused could report success, and a broadcast was queued on
connections that were not made yet.
---
 framework/core/src/net/connection/manager.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index 27fb4f4..ff0a4b4 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -459,7 +459,7 @@ void Manager::broadcast(std::shared_ptr<packet::Basic> packet) noexcept {
   if (ids.use_count() == 0) return;
   for (auto id : *ids) {
     auto conn = get_conn(id);
-    if (conn && conn->valid()) conn->send(packet);
+    if (conn && impl_->is_linked(id)) conn->send(packet);
   }
 }
 
@@ -472,7 +472,8 @@ void Manager::foreach(std::function<void(std::shared_ptr<Basic> conn)> func) {
   if (ids.use_count() == 0) return;
   for (auto id : *ids) {
     auto conn = get_conn(id);
-    if (conn && conn->valid()) func(conn);
+    // Not valid(): it would swallow the error of a socket that connects.
+    if (conn && impl_->is_linked(id)) func(conn);
   }
 }
 
-- 
2.43.0


From a94ce5e1b7ced6b9eef438e88df45c24aecda2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:36 +0000
Subject: [PATCH 36/73] fix: packing alters arguments and results of remote
 calls

Small unsigned values look like a type, small negative values come back
positive, INT32_MIN becomes 0, values after a uint64 of 32 bits are read
one byte late, and floating point values below 1 or outside of int64
come back as something else.
---
 .../core/include/plain/net/rpc/unpacker.h     |  2 +-
 framework/core/src/net/rpc/packer.cc          | 71 +++++--------------
 framework/core/src/net/rpc/unpacker.cc        | 58 ++++-----------
 3 files changed, 34 insertions(+), 97 deletions(-)

diff --git a/framework/core/include/plain/net/rpc/unpacker.h b/framework/core/include/plain/net/rpc/unpacker.h
index ff55253..340c4fa 100644
--- a/framework/core/include/plain/net/rpc/unpacker.h
+++ b/framework/core/include/plain/net/rpc/unpacker.h
@@ -69,7 +69,7 @@ class PLAIN_API Unpacker {
 
   template <typename T>
   T as() {
-    T r;
+    T r{};
     process(r);
     return r;
   }
diff --git a/framework/core/src/net/rpc/packer.cc b/framework/core/src/net/rpc/packer.cc
index 1d7b68f..b4fea80 100644
--- a/framework/core/src/net/rpc/packer.cc
+++ b/framework/core/src/net/rpc/packer.cc
@@ -1,4 +1,5 @@
 #include "plain/net/rpc/packer.h"
+#include <bit>
 
 using plain::net::rpc::Packer;
 
@@ -27,7 +28,8 @@ void Packer::pack(int16_t value) noexcept {
 }
 
 void Packer::pack(int32_t value) noexcept {
-  if (std::abs(value) < std::abs(std::numeric_limits<int16_t>::min())) {
+  if (value != std::numeric_limits<int32_t>::min() &&
+      std::abs(value) < std::abs(std::numeric_limits<int16_t>::min())) {
     pack(static_cast<int16_t>(value));
   } else {
     serialized_object_.emplace_back(std::to_underlying(Type::Int32));
@@ -56,7 +58,11 @@ void Packer::pack(int64_t value) noexcept {
 }
 
 void Packer::pack(uint8_t value) noexcept {
-  if (value <= 0x7f) {
+  // A bare byte must not look like an unsigned type.
+  if (value <= 0x7f && value != std::to_underlying(Type::Uint8) &&
+      value != std::to_underlying(Type::Uint16) &&
+      value != std::to_underlying(Type::Uint32) &&
+      value != std::to_underlying(Type::Uint64)) {
     serialized_object_.emplace_back(value);
   } else {
     serialized_object_.emplace_back(std::to_underlying(Type::Uint8));
@@ -112,32 +118,12 @@ void Packer::pack(bool value) noexcept {
 }
 
 void Packer::pack(float value) noexcept {
-  double integral_part{.0};
-  auto fractional_remainder = float(std::modf(value, &integral_part));
-
-  if (fractional_remainder == 0) { // Just pack as int
-    pack(int64_t(integral_part));
+  // Just pack as int if it has the same value.
+  if (std::fabs(value) < 0x1p62f && float(int64_t(value)) == value) {
+    pack(int64_t(value));
   } else {
-    static_assert(std::numeric_limits<float>::radix == 2);
-    auto exponent = std::ilogb(value);
-    float full_mantissa = value / float(scalbn(1.0, exponent));
-    auto sign_mask = std::bitset<32>(
-      static_cast<uint32_t>(std::signbit(full_mantissa)) << 31);
-    auto excess_127_exponent_mask =
-      std::bitset<32>(uint32_t(exponent + 127) << 23);
-    auto normalized_mantissa_mask = std::bitset<32>();
-    float implied_mantissa = std::fabs(full_mantissa) - 1.0f;
-    for (auto i = 23U; i > 0; --i) {
-      integral_part = 0;
-      implied_mantissa *= 2;
-      implied_mantissa = float(std::modf(implied_mantissa, &integral_part));
-      if (uint8_t(integral_part) == 1) {
-        normalized_mantissa_mask |= std::bitset<32>(uint32_t(1 << (i - 1)));
-      }
-    }
-
-    uint32_t ieee754_float32 = (sign_mask | excess_127_exponent_mask |
-       normalized_mantissa_mask).to_ulong();
+    static_assert(std::numeric_limits<float>::is_iec559);
+    auto ieee754_float32 = std::bit_cast<uint32_t>(value);
     serialized_object_.emplace_back(std::to_underlying(Type::Float32));
     for (auto i = sizeof(uint32_t); i > 0; --i) {
       serialized_object_.emplace_back(
@@ -147,33 +133,12 @@ void Packer::pack(float value) noexcept {
 }
 
 void Packer::pack(double value) noexcept {
-  double integral_part{.0};
-  double fractional_remainder = std::modf(value, &integral_part);
-
-  if (fractional_remainder == 0) { // Just pack as int
-    pack(int64_t(integral_part));
+  // Just pack as int if it has the same value.
+  if (std::fabs(value) < 0x1p62 && double(int64_t(value)) == value) {
+    pack(int64_t(value));
   } else {
-    static_assert(std::numeric_limits<float>::radix == 2);
-    auto exponent = std::ilogb(value);
-    double full_mantissa = value / std::scalbn(1.0, exponent);
-    auto sign_mask =
-      std::bitset<64>(uint64_t(std::signbit(full_mantissa)) << 63);
-    auto excess_127_exponent_mask =
-      std::bitset<64>(uint64_t(exponent + 1023) << 52);
-    auto normalized_mantissa_mask = std::bitset<64>();
-    double implied_mantissa = std::fabs(full_mantissa) - 1.0f;
-
-    for (auto i = 52U; i > 0; --i) {
-      integral_part = 0;
-      implied_mantissa *= 2;
-      implied_mantissa = modf(implied_mantissa, &integral_part);
-      if (uint8_t(integral_part) == 1) {
-        normalized_mantissa_mask |= std::bitset<64>(uint64_t(1) << (i - 1));
-      }
-    }
-    auto ieee754_float64 = 
-      (sign_mask | excess_127_exponent_mask |
-       normalized_mantissa_mask).to_ullong();
+    static_assert(std::numeric_limits<double>::is_iec559);
+    auto ieee754_float64 = std::bit_cast<uint64_t>(value);
     serialized_object_.emplace_back(std::to_underlying(Type::Float64));
     for (auto i = sizeof(ieee754_float64); i > 0; --i) {
       serialized_object_.emplace_back(
diff --git a/framework/core/src/net/rpc/unpacker.cc b/framework/core/src/net/rpc/unpacker.cc
index c9d84d6..63e49c4 100644
--- a/framework/core/src/net/rpc/unpacker.cc
+++ b/framework/core/src/net/rpc/unpacker.cc
@@ -1,6 +1,6 @@
 #include "plain/net/rpc/unpacker.h"
+#include <bit>
 #include <bitset>
-#include <cmath>
 
 using plain::net::rpc::Unpacker;
 
@@ -48,7 +48,7 @@ void Unpacker::unpack(int16_t &value) noexcept {
     unpack(val);
     value = val;
   } else {
-    value = data();
+    value = static_cast<int8_t>(data());
     increment();
   }
 }
@@ -75,7 +75,7 @@ void Unpacker::unpack(int32_t &value) noexcept {
     unpack(val);
     value = val;
   } else {
-    value = data();
+    value = static_cast<int8_t>(data());
     increment();
   }
 }
@@ -106,7 +106,7 @@ void Unpacker::unpack(int64_t &value) noexcept {
     unpack(val);
     value = val;
   } else {
-    value = data();
+    value = static_cast<int8_t>(data());
     increment();
   }
 }
@@ -123,10 +123,11 @@ void Unpacker::unpack(uint8_t &value) noexcept {
 }
 
 void Unpacker::unpack(uint16_t &value) noexcept {
+  value = 0;
   if (data() == std::to_underlying(Type::Uint16)) {
     increment();
     for (auto i = sizeof(uint16_t); i > 0; --i) {
-      value += data() << 8 * (i - 1);
+      value += uint32_t(data()) << 8 * (i - 1);
       increment();
     }
   } else if (data() == std::to_underlying(Type::Uint8)) {
@@ -140,16 +141,17 @@ void Unpacker::unpack(uint16_t &value) noexcept {
 }
 
 void Unpacker::unpack(uint32_t &value) noexcept {
+  value = 0;
   if (data() == std::to_underlying(Type::Uint32)) {
     increment();
     for (auto i = sizeof(uint32_t); i > 0; --i) {
-      value += data() << 8 * (i - 1);
+      value += uint32_t(data()) << 8 * (i - 1);
       increment();
     }
   } else if (data() == std::to_underlying(Type::Uint16)) {
     increment();
     for (auto i = sizeof(uint16_t); i > 0; --i) {
-      value += data() << 8 * (i - 1);
+      value += uint32_t(data()) << 8 * (i - 1);
       increment();
     }
   } else if (data() == std::to_underlying(Type::Uint8)) {
@@ -163,6 +165,7 @@ void Unpacker::unpack(uint32_t &value) noexcept {
 }
 
 void Unpacker::unpack(uint64_t &value) noexcept {
+  value = 0;
   if (data() == std::to_underlying(Type::Uint64)) {
     increment();
     for (auto i = sizeof(uint64_t); i > 0; --i) {
@@ -175,7 +178,6 @@ void Unpacker::unpack(uint64_t &value) noexcept {
       value += uint64_t(data()) << 8 * (i - 1);
       increment();
     }
-    data_++;
   } else if (data() == std::to_underlying(Type::Uint16)) {
     increment();
     for (auto i = sizeof(uint16_t); i > 0; --i) {
@@ -206,25 +208,10 @@ void Unpacker::unpack(float &value) noexcept {
     increment();
     uint32_t _data = 0;
     for (auto i = sizeof(uint32_t); i > 0; --i) {
-      _data += data() << 8 * (i - 1);
+      _data += uint32_t(data()) << 8 * (i - 1);
       increment();
     }
-    auto bits = std::bitset<32>(_data);
-    auto mantissa = 1.0f;
-    for (auto i = 23U; i > 0; --i) {
-      if (bits[i - 1]) {
-        mantissa += 1.0f / (1 << (24 - i));
-      }
-    }
-    if (bits[31]) {
-      mantissa *= -1;
-    }
-    uint8_t exponent = 0;
-    for (auto i = 0U; i < 8; ++i) {
-      exponent += bits[i + 23] << i;
-    }
-    exponent -= 127;
-    value = std::ldexp(mantissa, exponent);
+    value = std::bit_cast<float>(_data);
   } else {
     if (data() == std::to_underlying(Type::Int8) ||
         data() == std::to_underlying(Type::Int16) ||
@@ -249,22 +236,7 @@ void Unpacker::unpack(double &value) noexcept {
       _data += uint64_t(data()) << 8 * (i - 1);
       increment();
     }
-    auto bits = std::bitset<64>(_data);
-    auto mantissa = 1.0;
-    for (auto i = 52U; i > 0; --i) {
-      if (bits[i - 1]) {
-        mantissa += 1.0 / (uint64_t(1) << (53 - i));
-      }
-    }
-    if (bits[63]) {
-      mantissa *= -1;
-    }
-    uint16_t exponent = 0;
-    for (auto i = 0U; i < 11; ++i) {
-      exponent += bits[i + 52] << i;
-    }
-    exponent -= 1023;
-    value = ldexp(mantissa, exponent);
+    value = std::bit_cast<double>(_data);
   } else {
     if (data() == std::to_underlying(Type::Int8) ||
         data() == std::to_underlying(Type::Int16) ||
@@ -272,11 +244,11 @@ void Unpacker::unpack(double &value) noexcept {
         data() == std::to_underlying(Type::Int64)) {
       int64_t val = 0;
       unpack(val);
-      value = float(val);
+      value = double(val);
     } else {
       uint64_t val = 0;
       unpack(val);
-      value = float(val);
+      value = double(val);
     }
   }
 }
-- 
2.43.0


From 0f1746019babb24f4442fa2febd3543364122cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:28 +0000
Subject: [PATCH 37/73] fix: a remote call with a wrong array size writes
 outside of it or never ends

---
 .../core/include/plain/net/rpc/unpacker.h     | 24 ++++++++++++++-----
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/framework/core/include/plain/net/rpc/unpacker.h b/framework/core/include/plain/net/rpc/unpacker.h
index 340c4fa..a5afda2 100644
--- a/framework/core/include/plain/net/rpc/unpacker.h
+++ b/framework/core/include/plain/net/rpc/unpacker.h
@@ -47,6 +47,14 @@ class PLAIN_API Unpacker {
     data_end_ = data + size;
   }
 
+  // Elements can only follow while there is data.
+  bool left() noexcept {
+    if (data_ < data_end_)
+      return true;
+    error_ = ErrorCode::OutOfRange;
+    return false;
+  }
+
   void increment(int64_t bytes = 1) {
     if (data_end_ - data_ >= bytes) {
       data_ += bytes;
@@ -120,7 +128,7 @@ class PLAIN_API Unpacker {
         increment();
       }
       std::vector<uint32_t> x{};
-      for (auto i = 0U; i < array_size; ++i) {
+      for (auto i = 0U; i < array_size && left(); ++i) {
         ValueType val{};
         unpack(val);
         array.emplace_back(val);
@@ -132,7 +140,7 @@ class PLAIN_API Unpacker {
         array_size += uint16_t(data()) << 8 * (i - 1);
         increment();
       }
-      for (auto i = 0U; i < array_size; ++i) {
+      for (auto i = 0U; i < array_size && left(); ++i) {
         ValueType val{};
         unpack(val);
         array.emplace_back(val);
@@ -140,7 +148,7 @@ class PLAIN_API Unpacker {
     } else {
       std::size_t array_size = data() & 0b00001111;
       increment();
-      for (auto i = 0U; i < array_size; ++i) {
+      for (auto i = 0U; i < array_size && left(); ++i) {
         ValueType val{};
         unpack(val);
         array.emplace_back(val);
@@ -153,6 +161,10 @@ class PLAIN_API Unpacker {
     using ValueType = typename T::value_type;
     auto vec = std::vector<ValueType>{};
     unpack_array(vec);
+    if (vec.size() > array.size()) {
+      error_ = ErrorCode::OutOfRange;
+      vec.resize(array.size());
+    }
     std::copy(vec.begin(), vec.end(), array.begin());
   }
 
@@ -168,7 +180,7 @@ class PLAIN_API Unpacker {
         increment();
       }
       std::vector<uint32_t> x{};
-      for (auto i = 0U; i < map_size; ++i) {
+      for (auto i = 0U; i < map_size && left(); ++i) {
         KeyType key{};
         MappedType value{};
         unpack(key);
@@ -182,7 +194,7 @@ class PLAIN_API Unpacker {
         map_size += uint16_t(data()) << 8 * (i - 1);
         increment();
       }
-      for (auto i = 0U; i < map_size; ++i) {
+      for (auto i = 0U; i < map_size && left(); ++i) {
         KeyType key{};
         MappedType value{};
         unpack(key);
@@ -192,7 +204,7 @@ class PLAIN_API Unpacker {
     } else {
       std::size_t map_size = data() & 0b00001111;
       increment();
-      for (auto i = 0U; i < map_size; ++i) {
+      for (auto i = 0U; i < map_size && left(); ++i) {
         KeyType key{};
         MappedType value{};
         unpack(key);
-- 
2.43.0


From 411f6a95dfa77e4b4ba6316e237f8eb6c2c820b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:44 +0000
Subject: [PATCH 38/73] fix: a connection inherits the unfinished headers of
 the one before it in its slot

---
 framework/core/src/net/connection/basic.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index d1542ce..d4c9263 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -410,6 +410,7 @@ bool Basic::init() noexcept {
   if (!impl_->socket->close()) return false;
   impl_->working.store(false, std::memory_order_relaxed);
   impl_->work_flags = 0;
+  impl_->error_times = 0;
   impl_->istream->clear();
   impl_->ostream->clear();
   impl_->callings.clear();
-- 
2.43.0


From 21a37d95c842f20f346c8e546b78e9bac77800b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:39 +0000
Subject: [PATCH 39/73] fix: a connection inherits dispatcher, codec and call
 time-out of the one before it in its slot

---
 framework/core/src/net/connection/basic.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index d4c9263..73381ba 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -415,6 +415,11 @@ bool Basic::init() noexcept {
   impl_->ostream->clear();
   impl_->callings.clear();
   impl_->call_index = 0;
+  // Nothing is left of the connection that had this slot before.
+  impl_->codec = {};
+  impl_->dispatcher = nullptr;
+  impl_->timeout = std::nullopt;
+  impl_->keep_alive.store(false, std::memory_order_relaxed);
   auto connect_call_key = get_callable_key(this, "__connect");
   s_callables.erase(connect_call_key);
   auto disconnect_call_key = get_callable_key(this, "__disconnect");
-- 
2.43.0


From 5a193d0bb775d4d55ac2a2a7526521ec56927047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:59 +0000
Subject: [PATCH 40/73] fix: callbacks of single connections are looked up
 while other threads set them

---
 framework/core/src/net/connection/basic.cc | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 73381ba..c8fe149 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -15,6 +15,7 @@
 using plain::net::connection::Basic;
 using plain::net::connection::callable_func;
 
+static std::mutex s_callables_mutex; // Of the connections of all managers.
 static std::unordered_map<std::string, callable_func> s_callables;
 static constexpr size_t kOnceHandlePacketCount{12};
 static constexpr size_t kCantPeekMaxCount{60};
@@ -27,9 +28,14 @@ get_callable_key(Basic *p, std::string_view suffix) noexcept {
 
 static void check_callable(Basic *p, std::string_view suffix) noexcept {
   auto key = get_callable_key(p, suffix);
-  auto it = s_callables.find(key);
-  if (it != s_callables.end())
-    it->second(p);
+  callable_func func;
+  {
+    std::unique_lock<std::mutex> lock{s_callables_mutex};
+    auto it = s_callables.find(key);
+    if (it == s_callables.end()) return;
+    func = it->second;
+  }
+  func(p); // It may set other callbacks.
 }
 
 struct Basic::Impl {
@@ -421,8 +427,9 @@ bool Basic::init() noexcept {
   impl_->timeout = std::nullopt;
   impl_->keep_alive.store(false, std::memory_order_relaxed);
   auto connect_call_key = get_callable_key(this, "__connect");
-  s_callables.erase(connect_call_key);
   auto disconnect_call_key = get_callable_key(this, "__disconnect");
+  std::unique_lock<std::mutex> lock{s_callables_mutex};
+  s_callables.erase(connect_call_key);
   s_callables.erase(disconnect_call_key);
   // if (!impl_->socket->create()) return false;
   return true;
@@ -504,11 +511,13 @@ void Basic::set_codec(const stream::codec_t &codec) noexcept {
   
 void Basic::set_connect_callback(callable_func func) noexcept {
   auto key = get_callable_key(this, "__connect");
+  std::unique_lock<std::mutex> lock{s_callables_mutex};
   s_callables[key] = func;
 }
   
 void Basic::set_disconnect_callback(callable_func func) noexcept {
   auto key = get_callable_key(this, "__disconnect");
+  std::unique_lock<std::mutex> lock{s_callables_mutex};
   s_callables[key] = func;
 }
   
-- 
2.43.0


From 41f0d96d599152c48dacec77e38d44cc3dc8cf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:27 +0000
Subject: [PATCH 41/73] fix: a kept connection whose reconnecting failed can
 never be connected again

---
 framework/core/src/net/connector.cc    |  2 ++
 framework/core/src/net/socket/basic.cc | 10 ++++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/net/connector.cc b/framework/core/src/net/connector.cc
index a7b671a..a2acd5d 100644
--- a/framework/core/src/net/connector.cc
+++ b/framework/core/src/net/connector.cc
@@ -182,10 +182,12 @@ bool Connector::connect(
   }
   auto sock = conn->socket();
   if (!sock->set_nonblocking()) {
+    sock->close();
     LOG_ERROR << "set_nonblocking failed: " << socket::get_last_error();
     return false;
   }
   if (!sock->set_linger(0)) {
+    sock->close();
     LOG_ERROR << "set_linger(0) failed: " << socket::get_last_error();
     return false;
   }
diff --git a/framework/core/src/net/socket/basic.cc b/framework/core/src/net/socket/basic.cc
index 1c7ae20..9968d2d 100644
--- a/framework/core/src/net/socket/basic.cc
+++ b/framework/core/src/net/socket/basic.cc
@@ -236,7 +236,8 @@ bool Basic::connect(
   try {
     Address addr{address, false};
     auto socket_type = get_sock_type(sock_type);
-    if (!valid() && (!close() || !create(addr.family(), socket_type, 0)))
+    const auto created = !valid();
+    if (created && (!close() || !create(addr.family(), socket_type, 0)))
       return false;
     const auto data{addr.data()};
 
@@ -245,6 +246,8 @@ bool Basic::connect(
     r = socket::connect(impl_->id, ptr, len, timeout);
     if (r) {
       impl_->type = sock_type;
+    } else if (created) {
+      close(); // Can not connect it again.
     }
   } catch(...) {
     LOG_ERROR << "connect except";
@@ -259,7 +262,8 @@ bool Basic::connect(
   try {
     Address addr{ip, port, false};
     auto socket_type = get_sock_type(sock_type);
-    if (!valid() && (!close() || !create(addr.family(), socket_type, 0)))
+    const auto created = !valid();
+    if (created && (!close() || !create(addr.family(), socket_type, 0)))
       return false;
     const auto data{addr.data()};
     auto ptr = detail::get_sa_pointer(data); // can't use data.data(), memory cut
@@ -267,6 +271,8 @@ bool Basic::connect(
     r = socket::connect(impl_->id, ptr, len, timeout);
     if (r) {
       impl_->type = sock_type;
+    } else if (created) {
+      close(); // Can not connect it again.
     }
   } catch(...) {
     LOG_ERROR << "connect except";
-- 
2.43.0


From b5f8e606618af5b29f0cb38f9d46e1f9682f307f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:43 +0000
Subject: [PATCH 42/73] fix: a failed connection that was to be kept holds its
 slot forever

---
 framework/core/src/net/connection/manager.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index ff0a4b4..54bfbe7 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -422,7 +422,8 @@ void Manager::remove(
     if (sock && conn->socket()->valid()) this->sock_remove(conn->socket()->id());
     conn->shutdown();
     conn->close();
-    if (conn->is_keep_alive()) return; // The connector will keep alive.
+    // The connector will keep alive, not what was never connected.
+    if (!no_event && conn->is_keep_alive()) return;
   }
   impl_->connection_info.free_ids.emplace(conn_id);
   if (impl_->connection_info.size > 0)
-- 
2.43.0


From 46f7ac0694eca1a834caf5d1dab95b5f5895e06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:14 +0000
Subject: [PATCH 43/73] fix: the slot of an ended connection that is no longer
 kept is never freed

---
 .../core/include/plain/net/connection/manager.h   |  1 +
 framework/core/src/net/connection/manager.cc      | 15 ++++++++++++++-
 framework/core/src/net/connector.cc               |  4 ++--
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/framework/core/include/plain/net/connection/manager.h b/framework/core/include/plain/net/connection/manager.h
index 7c3007c..84d93d4 100644
--- a/framework/core/include/plain/net/connection/manager.h
+++ b/framework/core/include/plain/net/connection/manager.h
@@ -79,6 +79,7 @@ class PLAIN_API Manager :
     connection::id_t conn_id, bool no_event = false, bool sock = true) noexcept;
   // Announce the connection, then let it work.
   bool link(Basic *conn) noexcept;
+  void set_keep_alive(Basic *conn, bool flag) noexcept;
   void foreach(std::function<void(std::shared_ptr<Basic> conn)> func); // valid
   void recv_ctrl_cmd() noexcept;
   void enqueue(connection::id_t conn_id) noexcept;
diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index 54bfbe7..300e81d 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -27,6 +27,7 @@ struct ConnectionInfo {
   std::vector<std::shared_ptr<plain::net::connection::Basic>> list;
   std::shared_ptr<std::set<id_t>> ids; // The valid ids.
   std::set<id_t> linked_ids; // The announced ids, those may work.
+  std::set<id_t> kept_ids; // The ended ids, those wait to connect again.
   std::set<id_t> free_ids;
   size_t size{0};
   id_t max_id{0};
@@ -423,7 +424,10 @@ void Manager::remove(
     conn->shutdown();
     conn->close();
     // The connector will keep alive, not what was never connected.
-    if (!no_event && conn->is_keep_alive()) return;
+    if (!no_event && conn->is_keep_alive()) {
+      impl_->connection_info.kept_ids.emplace(conn_id);
+      return;
+    }
   }
   impl_->connection_info.free_ids.emplace(conn_id);
   if (impl_->connection_info.size > 0)
@@ -435,12 +439,21 @@ void Manager::remove(
   impl_->connection_info.ids->erase(conn_id);
 }
   
+void Manager::set_keep_alive(Basic *conn, bool flag) noexcept {
+  std::unique_lock<decltype(impl_->mutex)> auto_lock(impl_->mutex);
+  conn->set_keep_alive(flag);
+  if (flag || impl_->connection_info.kept_ids.erase(conn->id()) == 0) return;
+  auto_lock.unlock();
+  remove(conn->id(), true, false); // Ended already, nobody else frees it.
+}
+  
 bool Manager::link(Basic *conn) noexcept {
   conn->on_connect();
   if (static_cast<bool>(impl_->connect_callback))
     impl_->connect_callback(conn);
   std::unique_lock<decltype(impl_->mutex)> auto_lock(impl_->mutex);
   impl_->connection_info.linked_ids.emplace(conn->id());
+  impl_->connection_info.kept_ids.erase(conn->id());
   if (!sock_add(conn->socket()->id(), conn->id())) {
     auto_lock.unlock();
     remove(conn->id(), false, false);
diff --git a/framework/core/src/net/connector.cc b/framework/core/src/net/connector.cc
index a2acd5d..0e23ef6 100644
--- a/framework/core/src/net/connector.cc
+++ b/framework/core/src/net/connector.cc
@@ -141,7 +141,7 @@ void Connector::set_keep_alive(
 	std::shared_ptr<connection::Basic> conn, bool flag) noexcept {
    auto _conn = get_conn(conn->id());
    if (!_conn || _conn != conn) return;
-   conn->set_keep_alive(flag);
+   impl_->manager->set_keep_alive(conn.get(), flag);
 }
   
 bool Connector::is_keep_alive(
@@ -153,7 +153,7 @@ void Connector::set_keep_alive(connection::Basic *conn, bool flag) noexcept {
   if (!conn) return;
   auto _conn = get_conn(conn->id());
   if (!_conn || _conn.get() != conn) return;
-  conn->set_keep_alive(flag);
+  impl_->manager->set_keep_alive(conn, flag);
 }
   
 bool Connector::is_keep_alive(connection::Basic *conn) const noexcept {
-- 
2.43.0


From 84a49041b8348247320126f380832baf27bce0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:19 +0000
Subject: [PATCH 44/73] fix: the background executor ignores its options and
 takes those of the thread pool

---
 framework/core/src/engine/kernel.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/engine/kernel.cc b/framework/core/src/engine/kernel.cc
index 2c65989..e916489 100644
--- a/framework/core/src/engine/kernel.cc
+++ b/framework/core/src/engine/kernel.cc
@@ -214,8 +214,8 @@ Kernel::Kernel(const engine_option &option) : impl_{std::make_unique<Impl>()} {
   impl_->registered_executors.register_executor(impl_->thread_pool_executor);
 
   impl_->background_executor = std::make_shared<executor::ThreadPool>(
-    "thread background executor", option.max_cpu_threads, 
-    option.max_thread_pool_executor_waiting_time,
+    "thread background executor", option.max_background_threads, 
+    option.max_background_executor_waiting_time,
     option.thread_started_callback,
     option.thread_terminated_callback
   );
-- 
2.43.0


From 605e67157e9911caa22be00a19ee8c338e98255e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:10 +0000
Subject: [PATCH 45/73] fix: destroying the kernel while a task makes an
 executor never ends

---
 framework/core/src/engine/kernel.cc | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/framework/core/src/engine/kernel.cc b/framework/core/src/engine/kernel.cc
index e916489..1e7cb24 100644
--- a/framework/core/src/engine/kernel.cc
+++ b/framework/core/src/engine/kernel.cc
@@ -32,6 +32,7 @@ constexpr auto kDefaultMaxWorkerWaitTime = std::chrono::seconds(60 * 2);
 
 struct executor_collection {
   std::mutex lock;
+  bool closed{false};
   std::vector<std::shared_ptr<concurrency::executor::Basic>> executors;
   void register_executor(
     std::shared_ptr<concurrency::executor::Basic> executor) {
@@ -39,16 +40,26 @@ struct executor_collection {
     std::unique_lock<decltype(lock)> _lock{lock};
     assert(
       std::find(executors.begin(), executors.end(), executor) == executors.end());
-    executors.emplace_back(std::move(executor));
+    if (!closed) {
+      executors.emplace_back(std::move(executor));
+      return;
+    }
+    _lock.unlock();
+    executor->shutdown(); // Made by a task while all are shut down.
   }
   
   void shutdown_all() {
-    std::unique_lock<decltype(lock)> _lock{lock};
-    for (auto &executor : executors) {
+    // Not with the lock: a task that still runs may make an executor.
+    decltype(executors) all;
+    {
+      std::unique_lock<decltype(lock)> _lock{lock};
+      closed = true;
+      all.swap(executors);
+    }
+    for (auto &executor : all) {
       assert(static_cast<bool>(executor));
       executor->shutdown();
     }
-    executors = {};
   }
 };
 
-- 
2.43.0


From 9656c766e453e340c8e8888c07f25572119107d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:27 +0000
Subject: [PATCH 46/73] fix: console handlers are looked up while other threads
 register them

---
 framework/core/src/engine/kernel.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/framework/core/src/engine/kernel.cc b/framework/core/src/engine/kernel.cc
index 1e7cb24..ceb16ac 100644
--- a/framework/core/src/engine/kernel.cc
+++ b/framework/core/src/engine/kernel.cc
@@ -176,6 +176,8 @@ std::string Kernel::Impl::console_cmd_kill(
 
 std::string Kernel::Impl::console_cmd_help(
   const std::vector<std::string> &args) {
+  std::unique_lock<decltype(ENGINE->impl_->mutex)>
+    auto_lock{ENGINE->impl_->mutex};
   std::string r;
   if (args.empty()) {
     for (const auto &it : ENGINE->impl_->console_descs) {
@@ -342,10 +344,16 @@ bool Kernel::enable_console(std::string_view addr) noexcept {
     explode(d, params, " ", true, true);
     if (params.empty()) return true;
     auto cmd = params[0];
-    auto it = ENGINE->impl_->console_handlers.find(cmd);
-    if (it == ENGINE->impl_->console_handlers.end()) return false;
+    console_func func;
+    {
+      std::unique_lock<decltype(ENGINE->impl_->mutex)>
+        auto_lock{ENGINE->impl_->mutex};
+      auto it = ENGINE->impl_->console_handlers.find(cmd);
+      if (it == ENGINE->impl_->console_handlers.end()) return false;
+      func = it->second;
+    }
     params.erase(params.begin());
-    auto r = it->second(params);
+    auto r = func(params);
     if (!r.empty()) {
       auto p = std::make_shared<net::packet::Basic>();
       p->set_writeable(true);
-- 
2.43.0


From 1321103d4af8a581c527e443d040df4ed51ece1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:27 +0000
Subject: [PATCH 47/73] fix: a console handler that is registered again is not
 replaced

---
 framework/core/src/engine/kernel.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/engine/kernel.cc b/framework/core/src/engine/kernel.cc
index ceb16ac..091c018 100644
--- a/framework/core/src/engine/kernel.cc
+++ b/framework/core/src/engine/kernel.cc
@@ -377,7 +377,7 @@ void Kernel::register_console_handler(
   auto it = impl_->console_handlers.find(cmd.data());
   if (it != impl_->console_handlers.end())
     LOG_WARN << "cmd: " << cmd.data() << " handler will replace";
-  impl_->console_handlers.emplace(cmd, func);
+  impl_->console_handlers.insert_or_assign(std::string{cmd}, func);
   if (!desc.empty())
-    impl_->console_descs.emplace(cmd, desc);
+    impl_->console_descs.insert_or_assign(std::string{cmd}, std::string{desc});
 }
-- 
2.43.0


From 6dceee9251f1764cdd49bdea3f55e67808b23be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:27 +0000
Subject: [PATCH 48/73] fix: the console takes clients before its dispatcher
 and codec are set

---
 framework/core/src/engine/kernel.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/framework/core/src/engine/kernel.cc b/framework/core/src/engine/kernel.cc
index 091c018..b40e8a0 100644
--- a/framework/core/src/engine/kernel.cc
+++ b/framework/core/src/engine/kernel.cc
@@ -332,11 +332,6 @@ bool Kernel::enable_console(std::string_view addr) noexcept {
   setting.address = addr;
   setting.name = "console";
   impl_->console_listener = std::make_unique<net::Listener>(setting);
-  if (!impl_->console_listener->start())
-    return false;
-  LOG_INFO << "console listen on " <<
-    impl_->console_listener->address().text();
-  
   impl_->console_listener->set_dispatcher([](
     net::connection::Basic *conn, std::shared_ptr<net::packet::Basic> packet){
     auto d = reinterpret_cast<const char *>(packet->data().data());
@@ -368,6 +363,11 @@ bool Kernel::enable_console(std::string_view addr) noexcept {
   impl_->console_listener->set_codec(
     {.encode = net::stream::line_encode, .decode = net::stream::line_decode});
 
+  if (!impl_->console_listener->start())
+    return false;
+  LOG_INFO << "console listen on " <<
+    impl_->console_listener->address().text();
+  
   return true;
 }
 
-- 
2.43.0


From d641adbd133070ea5dbdaa724bf93519a6251225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:25 +0000
Subject: [PATCH 49/73] fix: the process crashes at exit while its console is
 in use

---
 .../include/plain/net/connection/manager.h    |  1 +
 framework/core/src/engine/kernel.cc           | 77 ++++++++++++-------
 framework/core/src/net/connection/manager.cc  |  4 +-
 3 files changed, 51 insertions(+), 31 deletions(-)

diff --git a/framework/core/include/plain/net/connection/manager.h b/framework/core/include/plain/net/connection/manager.h
index 84d93d4..1d4d6d3 100644
--- a/framework/core/include/plain/net/connection/manager.h
+++ b/framework/core/include/plain/net/connection/manager.h
@@ -102,6 +102,7 @@ class PLAIN_API Manager :
   socket::id_t listen_fd_{socket::kInvalidId};
   std::shared_ptr<socket::Listener> listen_sock_;
   socket::id_t ctrl_read_fd_{socket::kInvalidId};
+  std::function<void()> leave_engine_; // Set by the engine it is added to.
 
  private:
   friend class Basic;
diff --git a/framework/core/src/engine/kernel.cc b/framework/core/src/engine/kernel.cc
index b40e8a0..add3932 100644
--- a/framework/core/src/engine/kernel.cc
+++ b/framework/core/src/engine/kernel.cc
@@ -96,21 +96,27 @@ struct Kernel::Impl {
   uint32_t unnamed_net_count{0};
   std::mutex mutex;
 
-  static std::string console_cmd_list(const std::vector<std::string> &args);
-  static std::string console_cmd_kill(const std::vector<std::string> &args);
-  static std::string console_cmd_help(const std::vector<std::string> &args);
+  // How nets leave, they may outlive the kernel.
+  struct Door {
+    std::mutex mutex;
+    Impl *impl;
+  };
+  std::shared_ptr<Door> door{std::make_shared<Door>()};
+
+  std::string console_cmd_list(const std::vector<std::string> &args);
+  std::string console_cmd_kill(const std::vector<std::string> &args);
+  std::string console_cmd_help(const std::vector<std::string> &args);
 };
 
 std::string Kernel::Impl::console_cmd_list(
   const std::vector<std::string> &args) {
   UNUSED(args);
-  std::unique_lock<decltype(ENGINE->impl_->mutex)>
-    auto_lock{ENGINE->impl_->mutex};
+  std::unique_lock<decltype(mutex)> auto_lock{mutex};
   std::string r;
-  r += "Total: " + std::to_string(ENGINE->impl_->nets.size());
-  if (!ENGINE->impl_->nets.empty()) {
+  r += "Total: " + std::to_string(nets.size());
+  if (!nets.empty()) {
     r += "\r\n";
-    for (auto it : ENGINE->impl_->nets) {
+    for (auto it : nets) {
       auto net = it.second.lock();
       if (net) {
         r += "\t";
@@ -138,11 +144,10 @@ std::string Kernel::Impl::console_cmd_list(
 std::string Kernel::Impl::console_cmd_kill(
   const std::vector<std::string> &args) {
   std::string r{"ok"};
-  decltype(ENGINE->impl_->nets) nets;
+  decltype(this->nets) nets;
   {
-    std::unique_lock<decltype(ENGINE->impl_->mutex)>
-      auto_lock{ENGINE->impl_->mutex};
-    nets = ENGINE->impl_->nets;
+    std::unique_lock<decltype(mutex)> auto_lock{mutex};
+    nets = this->nets;
   }
   if (nets.empty()) return "failed";
   if (args.empty()) {
@@ -162,9 +167,8 @@ std::string Kernel::Impl::console_cmd_kill(
         if (net) {
           net->stop();
         } else { // Clear from list.
-          std::unique_lock<decltype(ENGINE->impl_->mutex)>
-            auto_lock{ENGINE->impl_->mutex};
-          ENGINE->impl_->nets.erase(name);
+          std::unique_lock<decltype(mutex)> auto_lock{mutex};
+          this->nets.erase(name);
         }
       }
     }
@@ -176,11 +180,10 @@ std::string Kernel::Impl::console_cmd_kill(
 
 std::string Kernel::Impl::console_cmd_help(
   const std::vector<std::string> &args) {
-  std::unique_lock<decltype(ENGINE->impl_->mutex)>
-    auto_lock{ENGINE->impl_->mutex};
+  std::unique_lock<decltype(mutex)> auto_lock{mutex};
   std::string r;
   if (args.empty()) {
-    for (const auto &it : ENGINE->impl_->console_descs) {
+    for (const auto &it : console_descs) {
       r += it.first;
       r += "\t";
       r += it.second;
@@ -188,8 +191,8 @@ std::string Kernel::Impl::console_cmd_help(
     }
   } else {
     for (const auto &name : args) {
-      auto it = ENGINE->impl_->console_descs.find(name);
-      if (it != ENGINE->impl_->console_descs.end()) {
+      auto it = console_descs.find(name);
+      if (it != console_descs.end()) {
         r += it->first;
         r += "\t";
         r += it->second;
@@ -238,17 +241,28 @@ Kernel::Kernel(const engine_option &option) : impl_{std::make_unique<Impl>()} {
     option.thread_started_callback, option.thread_terminated_callback);
   impl_->registered_executors.register_executor(impl_->thread_executor);
 
-  register_console_handler("list", Impl::console_cmd_list, "Show net list");
+  // Not by the engine instance: the console works until it is destroyed.
+  auto impl = impl_.get();
+  impl->door->impl = impl;
+  auto list = [impl](const auto &args) { return impl->console_cmd_list(args); };
+  auto kill = [impl](const auto &args) { return impl->console_cmd_kill(args); };
+  auto help = [impl](const auto &args) { return impl->console_cmd_help(args); };
+  register_console_handler("list", list, "Show net list");
   register_console_handler(
-    "kill", Impl::console_cmd_kill, "Kill net from list(kill name1 name2 ...)");
-  register_console_handler("killall", Impl::console_cmd_kill, "Kill all net");
+    "kill", kill, "Kill net from list(kill name1 name2 ...)");
+  register_console_handler("killall", kill, "Kill all net");
   register_console_handler(
-    "help", Impl::console_cmd_help,
+    "help", help,
     "Show help to use commands, help command1 command2 (empty will show all)");
 }
   
 Kernel::~Kernel() noexcept {
   try {
+    impl_->console_listener.reset(); // Its handlers use all the others.
+    {
+      std::unique_lock<std::mutex> lock{impl_->door->mutex};
+      impl_->door->impl = nullptr;
+    }
     impl_->timer_queue->shutdown();
     impl_->registered_executors.shutdown_all();
   } catch (...) {
@@ -312,6 +326,12 @@ void Kernel::add(std::shared_ptr<net::connection::Manager> net) {
   if (it != impl_->nets.end())
     throw std::runtime_error("repeated net: " + name);
   impl_->nets.emplace(name, net);
+  net->leave_engine_ = [door = impl_->door, name] {
+    std::unique_lock<std::mutex> lock{door->mutex};
+    if (is_null(door->impl)) return;
+    std::unique_lock<std::mutex> auto_lock{door->impl->mutex};
+    door->impl->nets.erase(name);
+  };
 }
    
 void Kernel::remove(std::shared_ptr<net::connection::Manager> net) noexcept {
@@ -332,7 +352,7 @@ bool Kernel::enable_console(std::string_view addr) noexcept {
   setting.address = addr;
   setting.name = "console";
   impl_->console_listener = std::make_unique<net::Listener>(setting);
-  impl_->console_listener->set_dispatcher([](
+  impl_->console_listener->set_dispatcher([impl = impl_.get()](
     net::connection::Basic *conn, std::shared_ptr<net::packet::Basic> packet){
     auto d = reinterpret_cast<const char *>(packet->data().data());
     std::vector<std::string> params;
@@ -341,10 +361,9 @@ bool Kernel::enable_console(std::string_view addr) noexcept {
     auto cmd = params[0];
     console_func func;
     {
-      std::unique_lock<decltype(ENGINE->impl_->mutex)>
-        auto_lock{ENGINE->impl_->mutex};
-      auto it = ENGINE->impl_->console_handlers.find(cmd);
-      if (it == ENGINE->impl_->console_handlers.end()) return false;
+      std::unique_lock<decltype(impl->mutex)> auto_lock{impl->mutex};
+      auto it = impl->console_handlers.find(cmd);
+      if (it == impl->console_handlers.end()) return false;
       func = it->second;
     }
     params.erase(params.begin());
diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index 300e81d..126b82e 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -276,8 +276,8 @@ void Manager::stop() {
   // std::cout << "stop: " << this << std::endl;
   auto running = impl_->running.exchange(false, std::memory_order_relaxed);
   if (!running) return;
-  if (setting_.name != "console") // console is kernel owner
-    ENGINE->remove_net(setting_.name);
+  // Not by ENGINE: the kernel may be on its way out.
+  if (leave_engine_) leave_engine_();
   off();
   decltype(impl_->connection_info.list) list;
   {
-- 
2.43.0


From 5cdc9ea87c21eca7229649f060f5664ea2d65dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:30 +0000
Subject: [PATCH 50/73] fix: killing all nets from the console terminates the
 process

---
 framework/core/src/engine/kernel.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/framework/core/src/engine/kernel.cc b/framework/core/src/engine/kernel.cc
index add3932..5d054b0 100644
--- a/framework/core/src/engine/kernel.cc
+++ b/framework/core/src/engine/kernel.cc
@@ -153,6 +153,7 @@ std::string Kernel::Impl::console_cmd_kill(
   if (args.empty()) {
     // killall
     for (auto it : nets) {
+      if (it.first == "console") continue; // It can't stop itself.
       auto net = it.second.lock();
       if (net) net->stop();
     }
-- 
2.43.0


From 8f8e3fa39100cb7c4d813bdf634d1021cccc139a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:02 +0000
Subject: [PATCH 51/73] fix: reading a ring loses what its producer writes
 meanwhile

The consumer moved the producer's index back to zero when it had read
everything, elements written meanwhile were lost or read twice.
---
 framework/core/include/plain/basic/ring.h | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/framework/core/include/plain/basic/ring.h b/framework/core/include/plain/basic/ring.h
index d48532a..a6e3f61 100644
--- a/framework/core/include/plain/basic/ring.h
+++ b/framework/core/include/plain/basic/ring.h
@@ -88,17 +88,13 @@ using cookie_func_t = std::function<void()>;
   }
   std::size_t remove(std::size_t count) {
     std::size_t tmp_tail{tail_.load(std::memory_order_relaxed)};
-    std::size_t avail{head_.load(std::memory_order_relaxed) - tmp_tail};
+    std::size_t avail{head_.load(index_acquire_barrier) - tmp_tail};
 
     count = (count > avail) ? avail : count;
 
 		std::atomic_signal_fence(std::memory_order_release);
-    if (count == avail) {
-      tail_.store(0, index_release_barrier);
-      head_.store(0, index_release_barrier);
-    } else {
-      tail_.store(tmp_tail + count, index_release_barrier);
-    }
+    // Not the head, it belongs to the producer.
+    tail_.store(tmp_tail + count, index_release_barrier);
     return count;
 	}
 
@@ -154,15 +150,9 @@ using cookie_func_t = std::function<void()>;
 			buffer[i] = buffer_[tmp_tail++ & mask_];
 
 		std::atomic_signal_fence(std::memory_order_release);
-    // read only not set the tail_.
-    if (!read_only) {
-      if (to_read == available) {
-        head_.store(0, index_release_barrier);
-        tail_.store(0, index_release_barrier);
-      } else {
-        tail_.store(tmp_tail, index_release_barrier);
-      }
-    }
+    // read only not set the tail_, the head_ belongs to the producer.
+    if (!read_only)
+      tail_.store(tmp_tail, index_release_barrier);
 		return to_read;
   }
 
-- 
2.43.0


From 9e3b871f0e5e9661b1862e66def1c74093653f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:18 +0000
Subject: [PATCH 52/73] fix: the memory pool hands out memory that is in use

A thread that frees could reset a leaf in which others got memory
meanwhile, or wipe the header of a block that was just allocated. A
failed reservation, or a full leaf, took memory out of use for good, and
empty blocks of the system's memory could not be freed.
---
 .../core/include/plain/sys/memory/pool.h      | 77 ++++++++++---------
 1 file changed, 39 insertions(+), 38 deletions(-)

diff --git a/framework/core/include/plain/sys/memory/pool.h b/framework/core/include/plain/sys/memory/pool.h
index e7807cc..692f234 100644
--- a/framework/core/include/plain/sys/memory/pool.h
+++ b/framework/core/include/plain/sys/memory/pool.h
@@ -53,8 +53,7 @@ public:
    */
   void* malloc(std::size_t allocation_size) {
     // Allocation will include a header with service information:
-    const int32_t real_size = static_cast<int32_t>(
-        allocation_size + sizeof(AllocHeader));
+    const std::size_t real_size = allocation_size + sizeof(AllocHeader);
     // Starting leaf for finding the allocation place:
     const int32_t start_leaf = static_cast<int32_t>(
         cur_leaf_.load(std::memory_order_relaxed));
@@ -70,19 +69,17 @@ public:
       functionality will remain operational.
     */
     do {
-      const int32_t available =
-        leaf_array_[leaf_id].available.load(std::memory_order_acquire);
-      // std::cout << "available: " << available << std::endl;
-      if (available <= 0) break;
-      if (available >= real_size) {
+      auto &leaf = leaf_array_[leaf_id].usage;
+      auto usage = leaf.load(std::memory_order_acquire);
+      while (usage.available >= 0 &&
+          static_cast<std::size_t>(usage.available) >= real_size) {
         // we reserve memory 
         // (the buffer is distributed from the end with a bite):
         const int32_t available_after =
-          leaf_array_[leaf_id].available.fetch_sub(
-              real_size, std::memory_order_acq_rel) - real_size;
-        // and if successful, a positive number should have returned,
-        // otherwise we would have broken through the bottom of the buffer:
-        if (available_after >= 0) {
+          usage.available - static_cast<int32_t>(real_size);
+        if (leaf.compare_exchange_weak(
+              usage, usage_t{available_after, usage.deallocated},
+              std::memory_order_acq_rel, std::memory_order_acquire)) {
           // the resulting distribution address is easy to obtain, because it
           // starts immediately after "available", since addressing from &[0]
           // then this is "buf + available":
@@ -97,9 +94,10 @@ public:
               cur_leaf_.store(next_id, std::memory_order_release);
             }
           }
-          break; // finished the search, return the allocation pointer
+          break;
         }
       }
+      if (re) break; // finished the search, return the allocation pointer
       ++leaf_id;
       if (kLeafCount == leaf_id) { leaf_id = 0; }
     } while (leaf_id != start_leaf);
@@ -154,24 +152,25 @@ public:
         && leaf_array_[head->leaf_id].buf) {
       // ok this is my allocation
       const int32_t real_size = head->size + sizeof(AllocHeader);
-      const int32_t deallocated =
-        leaf_array_[head->leaf_id].deallocated.fetch_add(
-            real_size, std::memory_order_acq_rel) + real_size;
-      int32_t available =
-        leaf_array_[head->leaf_id].available.load(std::memory_order_acquire);
-      if (deallocated == (kLeafSizeBytes - available)) {
-        // everything that was allocated is now returned, we will try, carefully, reset the Leaf
-        if (leaf_array_[head->leaf_id].available.compare_exchange_strong(
-              available, kLeafSizeBytes)) {
-          leaf_array_[head->leaf_id].deallocated -= deallocated;
-        }
-      }
+      auto &leaf = leaf_array_[head->leaf_id].usage;
 
-      // Cleanup so that unique TAG_my_alloc will be keep unique in RAM:
+      // Cleanup so that unique TAG_my_alloc will be keep unique in RAM, as
+      // long as nobody else may get this place:
       memset((char *)head, 0, sizeof(AllocHeader));
+
+      auto usage = leaf.load(std::memory_order_acquire);
+      usage_t after;
+      do {
+        after = {usage.available, usage.deallocated + real_size};
+        // everything that was allocated is now returned, reset the Leaf
+        if (after.deallocated == kLeafSizeBytes - after.available)
+          after = {kLeafSizeBytes, 0};
+      } while (!leaf.compare_exchange_weak(
+            usage, after,
+            std::memory_order_acq_rel, std::memory_order_acquire));
     } else if ((uint64_t)kTagOSMalloc == head->tag_this
         && kOSMallocID == head->leaf_id
-        && head->size > 0) {
+        && head->size >= 0) {
       // ok, to OS malloc
       // Cleanup so that unique TAG_my_alloc will be keep unique in RAM:
       memset((char *)head,  0,  sizeof(AllocHeader));
@@ -236,7 +235,7 @@ public:
       } // elseif (!buf
     } else if (kTagOSMalloc == head->tag_this
          && kOSMallocID == head->leaf_id
-         && head->size > 0) {
+         && head->size >= 0) {
       // Let's check whether it has gone beyond the allocation limits:
       char *start = static_cast<char *>(base_alloc_ptr);
       char *end = start + head->size;
@@ -277,14 +276,12 @@ public:
     for (int32_t i = 0; i < kLeafCount; ++i) {
       if (buf_array[i]) {
         leaf_array_[i].buf = static_cast<char *>(buf_array[i]);
-        leaf_array_[i].available.store(
-            kLeafSizeBytes, std::memory_order_relaxed);
-        leaf_array_[i].deallocated.store(0, std::memory_order_relaxed);
+        leaf_array_[i].usage.store(
+            {kLeafSizeBytes, 0}, std::memory_order_relaxed);
       } else {
         leaf_array_[i].buf = nullptr;
-        leaf_array_[i].available.store(0, std::memory_order_relaxed);
-        leaf_array_[i].deallocated.store(
-            kLeafSizeBytes, std::memory_order_relaxed);
+        leaf_array_[i].usage.store(
+            {0, kLeafSizeBytes}, std::memory_order_relaxed);
       }
     }
     std::atomic_thread_fence(std::memory_order_release);
@@ -437,12 +434,16 @@ public:
 
 #endif
 private:
-  struct leaf_t {
-    char *buf;
+  // Changes as a whole, a leaf is not reset while a part of it is in use.
+  struct usage_t {
     // available == offset
-    std::atomic<int32_t> available{ kLeafSizeBytes };
+    int32_t available;
     // control of deallocations:
-    std::atomic<int32_t> deallocated{ 0 };
+    int32_t deallocated;
+  };
+  struct leaf_t {
+    char *buf;
+    std::atomic<usage_t> usage{ usage_t{kLeafSizeBytes, 0} };
   };
 
   /*
-- 
2.43.0


From ca2930ca07eaa6cf42f94f602259753b24f9f68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:04 +0000
Subject: [PATCH 53/73] fix: a looping thread ends with its second call, and a
 stop right after its creation is lost

---
 framework/core/include/plain/sys/thread.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/framework/core/include/plain/sys/thread.h b/framework/core/include/plain/sys/thread.h
index 22af1d0..3d56e84 100644
--- a/framework/core/include/plain/sys/thread.h
+++ b/framework/core/include/plain/sys/thread.h
@@ -186,13 +186,17 @@ thread_t create(const std::string_view &name, F &&f, Args &&... args) {
   auto task = std::make_shared< std::packaged_task<return_type()> >(
     std::bind(std::forward<F>(f), std::forward<Args>(args)...)
   );
-  auto r = thread_t([task, name](){ 
+  auto started = std::make_shared<std::promise<void>>();
+  // The name may not outlive this call.
+  auto r = thread_t([task, name = std::string{name}, started](){ 
     set_name(name);
     start();
+    started->set_value();
     ThreadCollect tc;
-    std::future<return_type> task_res = task->get_future();
     for (;;) {
       if (is_stopping()) break;
+      // Each run has its own result.
+      std::future<return_type> task_res = task->get_future();
       (*task)(); 
       (*task).reset(); //Remeber it, the packaged_task reset then can call again.
       using is_bool_result = std::is_same<bool, return_type>;
@@ -201,9 +205,11 @@ thread_t create(const std::string_view &name, F &&f, Args &&... args) {
 
     if (true == GLOBALS["app.debug"]) {
       auto id_str = get_id();
-      LOG_DEBUG << name.data() << " stopping with " << id_str;
+      LOG_DEBUG << name << " stopping with " << id_str;
     }
   });
+  // Otherwise a stop before the thread has set its status is lost.
+  started->get_future().wait();
 
   if (true == GLOBALS["app.debug"]) {
     std::stringstream id_str;
-- 
2.43.0


From dd16c82d5a0bbfb1ef9a0a363634ff29ce6cc78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:05 +0000
Subject: [PATCH 54/73] fix: threads use the globals at once without a lock

---
 framework/core/include/plain/basic/global.h | 23 ++++++++++++++++++++-
 framework/core/src/basic/global.cc          |  4 ++--
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/framework/core/include/plain/basic/global.h b/framework/core/include/plain/basic/global.h
index 3971805..d2dc56e 100644
--- a/framework/core/include/plain/basic/global.h
+++ b/framework/core/include/plain/basic/global.h
@@ -15,7 +15,28 @@
 
 namespace plain {
 
-PLAIN_API variable_map_t &get_globals();
+// The globals are used by all threads(each log line reads some), so finding
+// and adding one is safe, the variables never move and are safe by themselves.
+class PLAIN_API Globals {
+
+ public:
+  variable_t &operator[](const std::string &key) {
+    std::unique_lock<std::mutex> auto_lock(mutex_);
+    return values_[key];
+  }
+  template <typename T>
+  bool emplace(const std::string &key, T &&value) {
+    std::unique_lock<std::mutex> auto_lock(mutex_);
+    return values_.emplace(key, std::forward<T>(value)).second;
+  }
+
+ private:
+  std::mutex mutex_;
+  variable_map_t values_;
+
+};
+
+PLAIN_API Globals &get_globals();
 
 } // namespace plain
 
diff --git a/framework/core/src/basic/global.cc b/framework/core/src/basic/global.cc
index 6d91902..9832e2d 100644
--- a/framework/core/src/basic/global.cc
+++ b/framework/core/src/basic/global.cc
@@ -45,8 +45,8 @@ void InitGlobal::init() {
 
 InitGlobal g_init_global; // Auto init globals.
 
-variable_map_t &get_globals() {
-  static variable_map_t r;
+Globals &get_globals() {
+  static Globals r;
   return r;
 }
 
-- 
2.43.0


From 74befa67ce9c6bbac93ed4f6de684e8594be44ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:46 +0000
Subject: [PATCH 55/73] fix: the postfix decrement of a variable adds one, and
 its > is <

---
 framework/core/include/plain/basic/type/variable.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework/core/include/plain/basic/type/variable.h b/framework/core/include/plain/basic/type/variable.h
index 9041689..6ce8928 100644
--- a/framework/core/include/plain/basic/type/variable.h
+++ b/framework/core/include/plain/basic/type/variable.h
@@ -162,7 +162,7 @@ struct PLAIN_API variable_struct {
   }
   variable_t &operator--(int32_t) noexcept {
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = to_int64() + 1;
+    value = to_int64() - 1;
     return *this;
   }
   
@@ -180,7 +180,7 @@ struct PLAIN_API variable_struct {
   }
 
   friend bool operator>(const variable_t &lhs, const variable_t &rhs) noexcept {
-    return lhs.value < rhs.value;
+    return lhs.value > rhs.value;
   }
 
   friend auto operator<=>(
-- 
2.43.0


From 97ea824d47acaf654b42b234aec398f904a3fcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:46 +0000
Subject: [PATCH 56/73] fix: a variable that several threads assign, copy or
 compare is torn

---
 .../core/include/plain/basic/type/variable.h  | 47 +++++++++++++++----
 framework/core/src/basic/type/variable.cc     |  3 +-
 2 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/framework/core/include/plain/basic/type/variable.h b/framework/core/include/plain/basic/type/variable.h
index 6ce8928..eb72781 100644
--- a/framework/core/include/plain/basic/type/variable.h
+++ b/framework/core/include/plain/basic/type/variable.h
@@ -32,9 +32,11 @@ struct PLAIN_API variable_struct {
   variable_struct() {}
 
   variable_struct(const variable_t &object) {
+    std::unique_lock<std::mutex> auto_lock(object.mutex);
     value = object.value;
   } 
   variable_struct(variable_t &&object) {
+    std::unique_lock<std::mutex> auto_lock(object.mutex);
     std::swap(value, object.value);
   }
   template <typename T>
@@ -87,18 +89,29 @@ struct PLAIN_API variable_struct {
     return r;
   }
 
+  // The to_int64 with lock.
+  int64_t locked_int64() const noexcept {
+    std::unique_lock<std::mutex> auto_lock(mutex);
+    return to_int64();
+  }
+
   variable_t &operator=(const variable_t &object) {
+    if (this == &object) return *this;
+    std::scoped_lock auto_lock(mutex, object.mutex);
     value = object.value;
     return *this;
   }
   variable_t &operator=(variable_t &&object) {
+    if (this == &object) return *this;
+    std::scoped_lock auto_lock(mutex, object.mutex);
     std::swap(object.value, value);
     return *this;
   }
 
   variable_t &operator+=(const variable_t &object) noexcept {
+    const auto rhs = object.locked_int64();
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = object.to_int64() + to_double();
+    value = rhs + to_double();
     return *this;
   }
   template <typename T>
@@ -109,8 +122,9 @@ struct PLAIN_API variable_struct {
   }
 
   variable_t &operator-=(const variable_t &object) noexcept {
+    const auto rhs = object.locked_int64();
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = to_double() - object.to_int64();
+    value = to_double() - rhs;
     return *this;
   }
   template <typename T>
@@ -121,8 +135,9 @@ struct PLAIN_API variable_struct {
   }
 
   variable_t &operator*=(const variable_t &object) noexcept {
+    const auto rhs = object.locked_int64();
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = to_double() * object.to_int64();
+    value = to_double() * rhs;
     return *this;
   }
   
@@ -134,8 +149,9 @@ struct PLAIN_API variable_struct {
   }
 
   variable_t &operator/=(const variable_t &object) {
+    const auto rhs = object.locked_int64();
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = to_double() / object.to_int64();
+    value = to_double() / rhs;
     return *this;
   }
   template <typename T>
@@ -166,26 +182,39 @@ struct PLAIN_API variable_struct {
     return *this;
   }
   
+  template <typename F>
+  static auto compare(
+      const variable_t &lhs, const variable_t &rhs, F &&f) noexcept {
+    std::unique_lock<std::mutex> lhs_lock(lhs.mutex, std::defer_lock);
+    std::unique_lock<std::mutex> rhs_lock(rhs.mutex, std::defer_lock);
+    if (&lhs == &rhs) {
+      lhs_lock.lock();
+    } else {
+      std::lock(lhs_lock, rhs_lock);
+    }
+    return f(lhs.value, rhs.value);
+  }
+
   friend bool operator==(
       const variable_t &lhs, const variable_t &rhs) noexcept {
-    return lhs.value == rhs.value;
+    return compare(lhs, rhs, [](auto &&a, auto &&b) { return a == b; });
   }
   
   friend bool operator!=(const variable_t &lhs, const variable_t &rhs) noexcept {
-    return lhs.value != rhs.value;
+    return compare(lhs, rhs, [](auto &&a, auto &&b) { return a != b; });
   }
 
   friend bool operator<(const variable_t &lhs, const variable_t &rhs) noexcept {
-    return lhs.value < rhs.value;
+    return compare(lhs, rhs, [](auto &&a, auto &&b) { return a < b; });
   }
 
   friend bool operator>(const variable_t &lhs, const variable_t &rhs) noexcept {
-    return lhs.value > rhs.value;
+    return compare(lhs, rhs, [](auto &&a, auto &&b) { return a > b; });
   }
 
   friend auto operator<=>(
       const variable_t &lhs, const variable_t &rhs) noexcept {
-    return lhs.value <=> rhs.value;
+    return compare(lhs, rhs, [](auto &&a, auto &&b) { return a <=> b; });
   }
 
   explicit operator const char*() {
diff --git a/framework/core/src/basic/type/variable.cc b/framework/core/src/basic/type/variable.cc
index 7d4c140..e92c7db 100644
--- a/framework/core/src/basic/type/variable.cc
+++ b/framework/core/src/basic/type/variable.cc
@@ -4,7 +4,8 @@
 namespace plain {
 
 std::ostream &operator<<(std::ostream &os, const variable_t &object) noexcept {
-  std::visit([&os](auto &&val){ os << val; }, object.value);
+  const variable_t copy{object};
+  std::visit([&os](auto &&val){ os << val; }, copy.value);
   return os;
 }
 
-- 
2.43.0


From 09ebb9715cf4fb8f37d4e8f5e9b69d2f11fc9801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:41 +0000
Subject: [PATCH 57/73] fix: a connection can be named once only, and its name
 goes to the next one with its slot

---
 framework/core/src/net/connection/manager.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index 126b82e..5cbb2c8 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -376,6 +376,7 @@ std::shared_ptr<plain::net::connection::Basic> Manager::new_conn() noexcept {
   if (!r) r = std::make_shared<Basic>();
   r->set_id(id);
   r->init();
+  impl_->conn_names.erase(id); // Of the connection that had this slot before.
   r->set_manager(shared_from_this());
   ++(impl_->connection_info.size);
   if (impl_->connection_info.ids.use_count() > 1) {
@@ -666,7 +667,7 @@ void Manager::set_name(
   auto conn = get_conn(conn_id);
   if (!conn) return;
   std::unique_lock<decltype(impl_->mutex)> lock{impl_->mutex};
-  impl_->conn_names.emplace(conn_id, name.data());
+  impl_->conn_names.insert_or_assign(conn_id, std::string{name});
 }
   
 std::string Manager::get_name(connection::id_t conn_id) const noexcept {
-- 
2.43.0


From 462303e99c88397f79ae8fc42efdbab043455677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:47 +0000
Subject: [PATCH 58/73] fix: an ending connection clears its output under a
 sender's hands

---
 framework/core/src/net/connection/basic.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index c8fe149..7767adb 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -547,7 +547,10 @@ void Basic::on_connect() noexcept {
   
 void Basic::on_disconnect() noexcept {
   impl_->istream->clear();
-  impl_->ostream->clear();
+  {
+    std::unique_lock<std::mutex> lock{impl_->mutex}; // Others may be sending.
+    impl_->ostream->clear();
+  }
   impl_->working.store(false, std::memory_order_relaxed);
   end_calls();
   check_callable(this, "__disconnect");
-- 
2.43.0


From 9345d38d277c51c0c2cd14ec6f6269fce0e37fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:30 +0000
Subject: [PATCH 59/73] fix: a settings file is taken for read when its end was
 not reached

---
 framework/core/src/file/ini.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/framework/core/src/file/ini.cc b/framework/core/src/file/ini.cc
index c92fec6..7077631 100644
--- a/framework/core/src/file/ini.cc
+++ b/framework/core/src/file/ini.cc
@@ -37,8 +37,9 @@ bool Ini::open(const char *filename) noexcept {
     AssertEx(false, msg);
     return false;
   }
-  char buffer[512] = {0};
-  while (fstream_.getline(buffer, 512)) {
+  std::string line;
+  while (std::getline(fstream_, line)) {
+    auto buffer = line.data();
     _trimstring(buffer);
     char *section;
     if(_parsesection(buffer, &section)) {
@@ -60,6 +61,10 @@ bool Ini::open(const char *filename) noexcept {
       continue;
     }
   }
+  if (fstream_.bad()) { // Not read to its end.
+    close();
+    return false;
+  }
   return true;
 }
 
@@ -263,7 +268,7 @@ char *Ini::get_bufferstring(int32_t position) {
 int32_t Ini::_add_bufferstring(char *str) {
   int32_t position = 0;
   size_t size = strlen(str);
-  if (bufferlength_ + static_cast<int32_t>(size + 1) >= bufferlength_max_) 
+  while (bufferlength_ + static_cast<int32_t>(size + 1) >= bufferlength_max_)
     _buffer_resize();
   memcpy(buffer_ + bufferlength_, str, size + 1);
   position = bufferlength_;
-- 
2.43.0


From 0cbe9a7db036b6f588b20d3d0bffa90e254ceb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:30 +0000
Subject: [PATCH 60/73] fix: a comment line of a settings file is trimmed past
 its beginning

---
 framework/core/src/file/ini.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/file/ini.cc b/framework/core/src/file/ini.cc
index 7077631..d5b5535 100644
--- a/framework/core/src/file/ini.cc
+++ b/framework/core/src/file/ini.cc
@@ -223,7 +223,7 @@ void Ini::_trimstring(char *buffer) {
       break;
     }
   }
-  for (i = strlen(buffer) - 1; i > 0; --i) {
+  for (i = strlen(buffer); i-- > 1;) {
     if (' '== buffer[i] || '\t' == buffer[i]) {
       buffer[i] = 0;
     } else {
-- 
2.43.0


From 9a857e110d05224c9a20e53412c57bfa3334c22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:30 +0000
Subject: [PATCH 61/73] fix: a long setting is copied past the end of the
 buffer it is read into

---
 framework/core/src/file/ini.cc | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/framework/core/src/file/ini.cc b/framework/core/src/file/ini.cc
index d5b5535..6e74a63 100644
--- a/framework/core/src/file/ini.cc
+++ b/framework/core/src/file/ini.cc
@@ -199,11 +199,7 @@ bool Ini::_getstring(
     if (it2 == _section->end()) return false;
     int position = it2->second;
     char *value = get_bufferstring(position);
-    size_t valuelength = strlen(value);
-    safecopy(str, value, valuelength + 1);
-    size_t _size = 
-      valuelength > static_cast<size_t>(size - 1) ? size - 1 : valuelength;
-    str[_size] = 0;
+    safecopy(str, value, size);
     return true;
   }
   return false;
-- 
2.43.0


From 967e98921f5d75abf6a9a49a56513d558ff6c7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:30 +0000
Subject: [PATCH 62/73] fix: settings of a repeated section are lost, those of
 none end the process

---
 framework/core/src/file/ini.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/framework/core/src/file/ini.cc b/framework/core/src/file/ini.cc
index 6e74a63..3e03011 100644
--- a/framework/core/src/file/ini.cc
+++ b/framework/core/src/file/ini.cc
@@ -43,9 +43,9 @@ bool Ini::open(const char *filename) noexcept {
     _trimstring(buffer);
     char *section;
     if(_parsesection(buffer, &section)) {
-      current_section_ = new valueset_t;
-      sectiondata_.insert(
-          std::make_pair(std::string(section), current_section_));
+      auto &set = sectiondata_[section];
+      if (is_null(set)) set = new valueset_t; // Else it goes on.
+      current_section_ = set;
       continue;
     }
     char *key = nullptr, *value = nullptr;
@@ -55,6 +55,7 @@ bool Ini::open(const char *filename) noexcept {
         snprintf(
           msg, 128, "[file] format invalid! file: %s, key: %s", filename, key);
         AssertEx(false, msg);
+        continue;
       }
       int position = _add_bufferstring(value);
       current_section_->insert(std::make_pair(std::string(key), position));
-- 
2.43.0


From 7ca4164bbc81dbc093120bc5d6d6f1b376364b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:30 +0000
Subject: [PATCH 63/73] fix: a settings object cannot be opened again

---
 framework/core/src/file/ini.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/framework/core/src/file/ini.cc b/framework/core/src/file/ini.cc
index 3e03011..7f0a9ee 100644
--- a/framework/core/src/file/ini.cc
+++ b/framework/core/src/file/ini.cc
@@ -27,6 +27,7 @@ Ini::~Ini() {
 }
 
 bool Ini::open(const char *filename) noexcept {
+  close();
   buffer_ = new char[INI_VALUE_MAX];
   bufferlength_max_ += INI_VALUE_MAX; 
   strncpy(filename_, filename, FILENAME_MAX - 1);
@@ -70,7 +71,8 @@ bool Ini::open(const char *filename) noexcept {
 }
 
 void Ini::close() noexcept {
-  if (fstream_) fstream_.close();
+  if (fstream_.is_open()) fstream_.close();
+  fstream_.clear();
   safe_delete_array(buffer_);
   sectionset_t::iterator iter = sectiondata_.begin();
   for (; iter != sectiondata_.end(); iter++) {
@@ -78,6 +80,7 @@ void Ini::close() noexcept {
     safe_delete(_section);
   }
   sectiondata_.clear();
+  current_section_ = nullptr;
   bufferlength_ = 0;
   bufferlength_max_ = 0;
   memset(filename_, 0, FILENAME_MAX);
@@ -253,8 +256,10 @@ bool Ini::_parsekey(char *buffer, char **key, char **value) {
 
 void Ini::_buffer_resize() {
   bufferlength_max_ *= 2;
-  buffer_ = (char*)realloc(buffer_, bufferlength_max_);
-  if (is_null(buffer_)) Assert(false);
+  auto buffer = new char[bufferlength_max_];
+  memcpy(buffer, buffer_, bufferlength_);
+  delete[] buffer_;
+  buffer_ = buffer;
 }
 
 char *Ini::get_bufferstring(int32_t position) {
-- 
2.43.0


From 7d72aecd00b058167579934c6ab75d3ade590758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:10 +0000
Subject: [PATCH 64/73] fix: a table file that cannot be read whole is taken
 for a smaller table

---
 framework/core/src/file/tab.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/framework/core/src/file/tab.cc b/framework/core/src/file/tab.cc
index 91ff2c1..cc76c03 100644
--- a/framework/core/src/file/tab.cc
+++ b/framework/core/src/file/tab.cc
@@ -25,14 +25,21 @@ bool Tab::open_from_txt(const char *filename) {
   Assert(filename);
   FILE *fp = fopen(filename, "rb");
   if (nullptr == fp) return false;
-  fseek(fp, 0, SEEK_END);
-  int32_t filesize = ftell(fp);
-  fseek(fp, 0, SEEK_SET);
+  int64_t filesize{-1};
+  if (0 == fseek(fp, 0, SEEK_END)) filesize = ftell(fp);
+  if (filesize < 0 || fseek(fp, 0, SEEK_SET) != 0) {
+    fclose(fp);
+    return false;
+  }
   //read in memory
   char *memory = new char[filesize + 1];
   memset(memory, 0, filesize + 1); //use memset to memory pointer
-  fread(memory, 1, filesize, fp);
+  auto size = fread(memory, 1, filesize, fp);
   fclose(fp);
+  if (size != static_cast<size_t>(filesize)) { // Not a part of it.
+    safe_delete_array(memory);
+    return false;
+  }
   memory[filesize] = '\0';
   bool result = open_from_memory(memory, memory + filesize + 1, filename);
   safe_delete_array(memory);
-- 
2.43.0


From bc2fc1b8c38143e81e3b07a593518f39a41d181b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:11 +0000
Subject: [PATCH 65/73] fix: a table opened again keeps rows of the table
 before

---
 framework/core/src/file/tab.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/framework/core/src/file/tab.cc b/framework/core/src/file/tab.cc
index cc76c03..a4ceca0 100644
--- a/framework/core/src/file/tab.cc
+++ b/framework/core/src/file/tab.cc
@@ -49,6 +49,12 @@ bool Tab::open_from_txt(const char *filename) {
 bool Tab::open_from_memory(
   const char *memory, const char *end, const char *filename) {
   bool result = true;
+  record_number_ = 0;
+  field_number_ = 0;
+  data_buffer_.clear();
+  fieldnames_.clear();
+  hash_index_.clear();
+  safe_delete_array(string_buffer_);
   if (end - memory >= static_cast<int32_t>(sizeof(file_head_t)) && 
       *((uint32_t*)memory) == FILE_DATABASE_INDENTIFY) {
     result = open_from_memory_binary(memory, end, filename);
-- 
2.43.0


From dd3e49269243d33b213ee4b3e6b01348a4258820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:11 +0000
Subject: [PATCH 66/73] fix: the index of a table is of its first column
 whatever column was asked for

---
 framework/core/src/file/tab.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/framework/core/src/file/tab.cc b/framework/core/src/file/tab.cc
index a4ceca0..31cd5bc 100644
--- a/framework/core/src/file/tab.cc
+++ b/framework/core/src/file/tab.cc
@@ -154,25 +154,26 @@ int32_t Tab::get_record_number() const {
 }
 
 void Tab::create_index(int32_t column, const char *filename) {
-  if (column < 0 || column > field_number_ || index_column_ == column) return;
+  if (column < 0 || column >= field_number_) return;
   hash_index_.clear();
   int32_t i;
   for (i = 0; i < record_number_; ++i) {
     field_data* _field_data = &(data_buffer_[i * field_number_]);
-    field_hashmap::iterator it_find = hash_index_.find(_field_data->int_value);
+    auto value = (_field_data + column)->int_value;
+    field_hashmap::iterator it_find = hash_index_.find(value);
     if (it_find != hash_index_.end()) {
       char temp[256];
       memset(temp, '\0', sizeof(temp));
       snprintf(
         temp, sizeof(temp) - 1, "[%s]multi index at line: %d(smae value: %d)", 
-        filename, i + 1, _field_data->int_value);
+        filename ? filename : "", i + 1, value);
 #ifdef _plain_THROW_EXCEPTION_AS_STD_STRING
       throw std::string(temp);
 #else
       AssertEx(false, temp);
 #endif
     }
-    hash_index_.insert(std::make_pair(_field_data->int_value, _field_data));
+    hash_index_.insert(std::make_pair(value, _field_data));
   }
 }
 
-- 
2.43.0


From 0011bb1aa8ca22b5cd4826f70f1e68c4f0b33116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:11 +0000
Subject: [PATCH 67/73] fix: a cell past the end of a table is read

---
 framework/core/src/file/tab.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/file/tab.cc b/framework/core/src/file/tab.cc
index 31cd5bc..437650f 100644
--- a/framework/core/src/file/tab.cc
+++ b/framework/core/src/file/tab.cc
@@ -98,7 +98,8 @@ uint8_t Tab::get_fieldtype(int32_t index) {
 const Tab::field_data *
 Tab::search_position(int32_t line, int32_t column) const {
   int32_t position = line * get_field_number() + column;
-  if (line < 0 || position > static_cast<int32_t>(data_buffer_.size())) {
+  if (line < 0 || column < 0 || column >= field_number_ ||
+    position >= static_cast<int32_t>(data_buffer_.size())) {
     char temp[256];
     memset(temp, '\0', sizeof(temp));
     snprintf(temp, 
@@ -120,7 +121,7 @@ Tab::search_position(int32_t line, int32_t column) const {
 
 const Tab::field_data *
 Tab::search_first_column_equal(int32_t column, const field_data &value) const {
-  if (column < 0 || column > field_number_) return nullptr;
+  if (column < 0 || column >= field_number_) return nullptr;
   field_type_enum type = type_[column];
   int32_t i;
   for (i = 0; i < record_number_; ++i) {
-- 
2.43.0


From e9437eab37f0357596ac0c39afd1afee0c05a002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:11 +0000
Subject: [PATCH 68/73] fix: a saved table has its field names cut and used as
 formats

---
 framework/core/src/file/tab.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/framework/core/src/file/tab.cc b/framework/core/src/file/tab.cc
index 437650f..3bb2dc3 100644
--- a/framework/core/src/file/tab.cc
+++ b/framework/core/src/file/tab.cc
@@ -464,9 +464,7 @@ bool Tab::save_totext(const char *filename) {
   }
 
   for(int i=0; i<static_cast<int>(fieldnames_.size()); ++i){
-    char temp[64] = {0};
-    snprintf(temp, sizeof(temp) - 1, fieldnames_[i].c_str());
-    fwrite(temp, strlen(temp), 1, fp); 
+    fwrite(fieldnames_[i].data(), fieldnames_[i].size(), 1, fp);
     if(i == static_cast<int>(fieldnames_.size()-1)){
       fwrite("\n", 1, 1, fp);
     } else{
-- 
2.43.0


From ce5279754015ccc34cf9d8e20f8492458ba78f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:11 +0000
Subject: [PATCH 69/73] fix: a table is said to be saved when the disk is full

---
 framework/core/src/file/tab.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/file/tab.cc b/framework/core/src/file/tab.cc
index 3bb2dc3..3aaff64 100644
--- a/framework/core/src/file/tab.cc
+++ b/framework/core/src/file/tab.cc
@@ -502,8 +502,9 @@ bool Tab::save_totext(const char *filename) {
     } //for
     fwrite(LF, strlen(LF), 1, fp);
   } //for
-  fclose(fp);
-  return true;
+  bool result = 0 == ferror(fp);
+  if (fclose(fp) != 0) result = false;
+  return result;
 }
 
 const Tab::field_data *Tab::get_fielddata(int32_t line, 
-- 
2.43.0


From 3b8f1ce03324ff874ac425f162884409db2c2bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:11 +0000
Subject: [PATCH 70/73] fix: a table saved as binary cannot be opened

---
 framework/core/src/file/tab.cc | 37 +++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/framework/core/src/file/tab.cc b/framework/core/src/file/tab.cc
index 3aaff64..5779cc3 100644
--- a/framework/core/src/file/tab.cc
+++ b/framework/core/src/file/tab.cc
@@ -357,10 +357,15 @@ bool Tab::open_from_memory_binary(
   memcpy(&file_head, _memory, sizeof(file_head_t));
   if (file_head.identify != FILE_DATABASE_INDENTIFY) return false;
   //check memory size
+  if (file_head.field_number <= 0 || file_head.record_number < 0 ||
+      file_head.string_block_size <= 0) {
+    return false;
+  }
   if (sizeof(file_head) +
-      sizeof(uint32_t) * file_head.field_number +
-      sizeof(field_data) * file_head.record_number * file_head.field_number +
-      + file_head.string_block_size > static_cast<uint64_t>(end - memory)) {
+      sizeof(uint32_t) * static_cast<uint64_t>(file_head.field_number) +
+      sizeof(field_data) * static_cast<uint64_t>(file_head.record_number) *
+      file_head.field_number + file_head.string_block_size >
+      static_cast<uint64_t>(end - memory)) {
     return false;
   }
   _memory += sizeof(file_head);
@@ -376,6 +381,7 @@ bool Tab::open_from_memory_binary(
   std::vector<uint32_t> field_types;
   field_types.resize(field_number_);
   memcpy(&(field_types[0]), _memory, sizeof(uint32_t) * field_number_);
+  _memory += sizeof(uint32_t) * field_number_;
 
   //check it
   type_.resize(field_number_);
@@ -393,6 +399,7 @@ bool Tab::open_from_memory_binary(
           delete[] string_buffer_;
           string_buffer_ = nullptr;
         }
+        record_number_ = field_number_ = 0;
         return false;
       }
     }
@@ -401,7 +408,7 @@ bool Tab::open_from_memory_binary(
   //read all field
   data_buffer_.resize(field_number_ * record_number_);
   memcpy(
-    &(data_buffer_[0]), _memory, 
+    data_buffer_.data(), _memory,
     sizeof(field_data) * field_number_ * record_number_);
   _memory += sizeof(field_data) * field_number_ * record_number_;
   memcpy(string_buffer_, _memory, string_buffer_size_);
@@ -410,11 +417,12 @@ bool Tab::open_from_memory_binary(
   //runtime address
   for (i = 0; i < field_number_; ++i) {
     if (field_types[i] != kTypeString) continue;
-    std::string str;
     int32_t j;
     for (j = 0; j < record_number_; ++j) {
-      data_buffer_[i + field_number_ + j].string_value += 
-        reinterpret_cast<uint64_t>(string_buffer_); 
+      auto &data = data_buffer_[j * field_number_ + i];
+      auto offset = reinterpret_cast<uint64_t>(data.string_value);
+      if (offset >= static_cast<uint64_t>(string_buffer_size_)) offset = 0;
+      data.string_value = string_buffer_ + offset;
     }
   }
   create_index(0, filename);
@@ -430,12 +438,17 @@ bool Tab::save_tobinary(const char *filename) {
     if (nullptr == fp) return false;
     fwrite(&filehead, sizeof(filehead), 1, fp);
     fwrite(&(type_[0]), sizeof(field_type_enum) *filehead.field_number, 1, fp);
-    fwrite(
-      &(data_buffer_[0]), filehead.field_number * filehead.record_number, 
-      1, fp);
+    data_buffer data{data_buffer_};
+    for (size_t i = 0; i < data.size(); ++i) { // The strings by their offsets.
+      if (type_[i % field_number_] != kTypeString) continue;
+      auto offset = data_buffer_[i].string_value - string_buffer_;
+      data[i].string_value = reinterpret_cast<const char *>(offset);
+    }
+    fwrite(data.data(), sizeof(field_data) * data.size(), 1, fp);
     fwrite(string_buffer_, filehead.string_block_size, 1, fp);
-    fclose(fp);
-    return true;
+    bool result = 0 == ferror(fp);
+    if (fclose(fp) != 0) result = false;
+    return result;
 }
 
 bool Tab::save_totext(const char *filename) {
-- 
2.43.0


From bf82c18af6b1c147c4c2c488141315140ad0c8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:11 +0000
Subject: [PATCH 71/73] fix: a table of more than 65535 rows is relocated for
 ever

---
 framework/core/src/file/tab.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/file/tab.cc b/framework/core/src/file/tab.cc
index 5779cc3..35d1e1c 100644
--- a/framework/core/src/file/tab.cc
+++ b/framework/core/src/file/tab.cc
@@ -338,7 +338,7 @@ bool Tab::open_from_memory_text(
   }
 
   //relocate string block
-  uint16_t m, n;
+  int32_t m, n;
   for (m = 0; m < field_number; ++m) {
     if (type_[m] != kTypeString) continue;
     for (n = 0; n < record_number; ++n) {
-- 
2.43.0


From e181ea2da53fd45455958d66db0df2efa96fe7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:11 +0000
Subject: [PATCH 72/73] fix: an empty process id file names an arbitrary
 process

---
 framework/core/src/sys/process.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/sys/process.cc b/framework/core/src/sys/process.cc
index b5c3eae..9687aa3 100644
--- a/framework/core/src/sys/process.cc
+++ b/framework/core/src/sys/process.cc
@@ -36,8 +36,8 @@ void get_filename(char *filename, size_t size) {
 int32_t getid(const char *filename) {
   FILE *fp = fopen(filename, "r");
   if (nullptr == fp) return ID_INVALID;
-  int32_t id;
-  fscanf(fp, "%d", &id);
+  int32_t id{ID_INVALID};
+  if (fscanf(fp, "%d", &id) != 1 || id <= 0) id = ID_INVALID;
   fclose(fp);
   return id;
 }
-- 
2.43.0


From abdc6ec95ab59a86495cba598b65c93ba5d9a075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:11 +0000
Subject: [PATCH 73/73] fix: a process id file written in part names another
 process

---
 framework/core/src/sys/process.cc | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/framework/core/src/sys/process.cc b/framework/core/src/sys/process.cc
index 9687aa3..b143417 100644
--- a/framework/core/src/sys/process.cc
+++ b/framework/core/src/sys/process.cc
@@ -1,4 +1,5 @@
 #include "plain/sys/process.h"
+#include <filesystem>
 #if OS_WIN
 #include <process.h>
 #include <psapi.h>
@@ -44,13 +45,19 @@ int32_t getid(const char *filename) {
 
 bool writeid(const char *filename) {
   int32_t id = getid();
-  FILE *fp = fopen(filename, "w");
+  // Never a part of an id, which would name another process.
+  auto temp = std::string{filename} + ".tmp";
+  FILE *fp = fopen(temp.c_str(), "w");
   if (nullptr == fp) return false;
-  fprintf(fp, "%d", id);
-  fflush(fp);
-  fclose(fp);
-  fp = nullptr;
-  return true;
+  bool r = fprintf(fp, "%d", id) > 0;
+  if (fclose(fp) != 0) r = false;
+  std::error_code error;
+  if (r) std::filesystem::rename(temp, filename, error);
+  if (!r || error) {
+    std::filesystem::remove(temp, error);
+    r = false;
+  }
+  return r;
 }
 
 bool waitexit(const char *filename) {
-- 
2.43.0


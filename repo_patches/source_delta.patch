From e210eaeceedc5eeb57b28265b5041d23d316e2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:14 +0000
Subject: [PATCH 01/22] fix: forget the waiter when the deadlock validator
 rejects its lock request

A thread that was told about a deadlock stayed listed as a waiter, so later
requests of other threads were reported as deadlocks that do not exist, or made
find_closepath() recurse forever.
---
 include/yamc_lock_validator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/yamc_lock_validator.hpp b/include/yamc_lock_validator.hpp
index 008d74e..9c680ba 100644
--- a/include/yamc_lock_validator.hpp
+++ b/include/yamc_lock_validator.hpp
@@ -162,6 +162,8 @@ public:
         << " " << (shared ? "shared-lock" : "lock") << '\n';
       dump_mutexmap(std::cout, table.mutexmap);
       std::cout << "==== DEADLOCK DETECTED ====" << std::endl;
+      // the thread does not wait for the mutex
+      remove_elem(table.mutexmap[mkey].waiters, tid);
       return false;
     }
 #if YAMC_CHECK_VERBOSE
-- 
2.43.0


From bc8cd2f57bf27dded6b7793d95f4b6473d75d815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:14 +0000
Subject: [PATCH 02/22] fix: withdraw the waiting writer when checked shared
 mutex lock() reports a deadlock

With WriterPrefer the rejected writer stayed counted as waiting and blocked all
readers forever.
---
 include/checked_shared_mutex.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/checked_shared_mutex.hpp b/include/checked_shared_mutex.hpp
index 4362520..aa8cbab 100644
--- a/include/checked_shared_mutex.hpp
+++ b/include/checked_shared_mutex.hpp
@@ -117,6 +117,8 @@ protected:
 #if YAMC_CHECKED_CALL_ABORT
         std::abort();
 #else
+        RwLockPolicy::after_wait_wlock(state_);
+        cv_.notify_all();
         throw std::system_error(std::make_error_code(std::errc::resource_deadlock_would_occur), "deadlock");
 #endif
       }
-- 
2.43.0


From 4a262f14ec45500547629af390d75c2fafbd6e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:14 +0000
Subject: [PATCH 03/22] fix: wake up readers when a timed writer gives up on a
 writer-prefer shared mutex

Readers held back only by the timed-out writer stayed blocked while other
readers owned the lock.
---
 include/alternate_shared_mutex.hpp | 1 +
 include/checked_shared_mutex.hpp   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/alternate_shared_mutex.hpp b/include/alternate_shared_mutex.hpp
index 64b79e4..dde0463 100644
--- a/include/alternate_shared_mutex.hpp
+++ b/include/alternate_shared_mutex.hpp
@@ -152,6 +152,7 @@ class basic_shared_timed_mutex : private detail::shared_mutex_base<RwLockPolicy>
         if (!RwLockPolicy::wait_wlock(state_))  // re-check predicate
           break;
         RwLockPolicy::after_wait_wlock(state_);
+        cv_.notify_all();  // readers might wait for this writer
         return false;
       }
     }
diff --git a/include/checked_shared_mutex.hpp b/include/checked_shared_mutex.hpp
index aa8cbab..8a64a99 100644
--- a/include/checked_shared_mutex.hpp
+++ b/include/checked_shared_mutex.hpp
@@ -303,6 +303,7 @@ class basic_shared_timed_mutex : private detail::shared_mutex_base<RwLockPolicy>
         if (!RwLockPolicy::wait_wlock(state_))  // re-check predicate
           break;
         RwLockPolicy::after_wait_wlock(state_);
+        cv_.notify_all();  // readers might wait for this writer
         return false;
       }
     }
-- 
2.43.0


From 5d73322ceedab4190627fa57e9dce19dda871051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:14 +0000
Subject: [PATCH 04/22] fix: barrier::arrive_and_drop lowers the expected count
 for every dropping thread

The count was lowered only if the dropping thread was the last one to arrive;
otherwise all later phases waited for it forever.
---
 include/yamc_barrier.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/yamc_barrier.hpp b/include/yamc_barrier.hpp
index 135d717..3cecff5 100644
--- a/include/yamc_barrier.hpp
+++ b/include/yamc_barrier.hpp
@@ -66,12 +66,9 @@ class barrier {
   mutable std::condition_variable cv_;
   mutable std::mutex mtx_;
 
-  void phase_completion_step(bool drop)
+  void phase_completion_step()
   {
     completion_();
-    if (drop) {
-      --init_count_;
-    }
     counter_ = init_count_;
     ++phase_;
     cv_.notify_all();
@@ -108,7 +105,7 @@ public:
     arrival_token token{phase_};
     counter_ -= update;
     if (counter_ == 0) {
-      phase_completion_step(false);
+      phase_completion_step();
     }
     return token;
   }
@@ -129,7 +126,7 @@ public:
     auto arrival_phase = phase_;
     counter_ -= 1;
     if (counter_ == 0) {
-      phase_completion_step(false);
+      phase_completion_step();
     }
     while (phase_ <= arrival_phase) {
       cv_.wait(lk);
@@ -141,9 +138,10 @@ public:
     std::unique_lock<decltype(mtx_)> lk(mtx_);
     assert(0 < counter_);
     auto arrival_phase = phase_;
+    init_count_ -= 1;
     counter_ -= 1;
     if (counter_ == 0) {
-      phase_completion_step(true);
+      phase_completion_step();
     }
     while (phase_ <= arrival_phase) {
       cv_.wait(lk);
-- 
2.43.0


From ac40c29e6513254efec1f6bd3d10ed844c98baf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:14 +0000
Subject: [PATCH 05/22] fix: barrier waits for the phase to change instead of
 comparing wrapping counters

The phase counter wraps after 2^32 phases; threads of that phase never returned.
---
 include/yamc_barrier.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/yamc_barrier.hpp b/include/yamc_barrier.hpp
index 3cecff5..5a96697 100644
--- a/include/yamc_barrier.hpp
+++ b/include/yamc_barrier.hpp
@@ -113,7 +113,7 @@ public:
   void wait(arrival_token&& arrival) const
   {
     std::unique_lock<decltype(mtx_)> lk(mtx_);
-    while (phase_ <= arrival.phase_) {
+    while (phase_ == arrival.phase_) {
       cv_.wait(lk);
     }
   }
@@ -128,7 +128,7 @@ public:
     if (counter_ == 0) {
       phase_completion_step();
     }
-    while (phase_ <= arrival_phase) {
+    while (phase_ == arrival_phase) {
       cv_.wait(lk);
     }
   }
@@ -143,7 +143,7 @@ public:
     if (counter_ == 0) {
       phase_completion_step();
     }
-    while (phase_ <= arrival_phase) {
+    while (phase_ == arrival_phase) {
       cv_.wait(lk);
     }
   }
-- 
2.43.0


From 2f1db185428c31caba1547b9a4e154a6d21b18ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:14 +0000
Subject: [PATCH 06/22] fix: posix semaphore acquire functions survive signal
 handlers

sem_wait/sem_timedwait fail with EINTR when a signal handler ran; acquire() must
not return or throw for that.
---
 include/posix_semaphore.hpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/posix_semaphore.hpp b/include/posix_semaphore.hpp
index 4775445..63930f0 100644
--- a/include/posix_semaphore.hpp
+++ b/include/posix_semaphore.hpp
@@ -89,12 +89,14 @@ class counting_semaphore {
     abs_timeout.tv_nsec = (long)(duration_cast<nanoseconds>(tp.time_since_epoch()).count() % 1000000000);
 
     errno = 0;
-    if (::sem_timedwait(&sem_, &abs_timeout) == 0) {
-      return true;
-    } else if (errno != ETIMEDOUT) {
-      throw_errno("sem_timedwait");
+    while (::sem_timedwait(&sem_, &abs_timeout) != 0) {
+      if (errno == ETIMEDOUT) {
+        return false;
+      } else if (errno != EINTR) {
+        throw_errno("sem_timedwait");
+      }
     }
-    return false;
+    return true;
   }
 
 public:
@@ -133,8 +135,10 @@ public:
   void acquire()
   {
     errno = 0;
-    if (::sem_wait(&sem_) != 0) {
-      throw_errno("sem_wait");
+    while (::sem_wait(&sem_) != 0) {
+      if (errno != EINTR) {
+        throw_errno("sem_wait");
+      }
     }
   }
 
-- 
2.43.0


From 11107e4a5729429c96a219f3e5e1b41f6a1d6707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:56 +0000
Subject: [PATCH 07/22] fix: posix timed wait with a deadline before the epoch
 is an expired deadline

The fraction of such a time point gave a negative tv_nsec, which the semaphore
and rwlock functions reject with EINVAL: try_acquire_for/until threw and
try_lock(_shared)_for/until failed although the lock was free.
---
 include/posix_native_mutex.hpp | 10 ++++++++++
 include/posix_semaphore.hpp    |  5 +++++
 2 files changed, 15 insertions(+)

diff --git a/include/posix_native_mutex.hpp b/include/posix_native_mutex.hpp
index 83314d7..e54d8ac 100644
--- a/include/posix_native_mutex.hpp
+++ b/include/posix_native_mutex.hpp
@@ -236,6 +236,11 @@ class rwlock {
     struct ::timespec abs_timeout;
     abs_timeout.tv_sec = system_clock::to_time_t(tp);
     abs_timeout.tv_nsec = (long)(duration_cast<nanoseconds>(tp.time_since_epoch()).count() % 1000000000);
+    if (abs_timeout.tv_nsec < 0) {
+      // time point before the epoch
+      abs_timeout.tv_sec -= 1;
+      abs_timeout.tv_nsec += 1000000000;
+    }
     return (::pthread_rwlock_timedwrlock(&rwlock_, &abs_timeout) == 0);
   }
 
@@ -245,6 +250,11 @@ class rwlock {
     struct ::timespec abs_timeout;
     abs_timeout.tv_sec = system_clock::to_time_t(tp);
     abs_timeout.tv_nsec = (long)(duration_cast<nanoseconds>(tp.time_since_epoch()).count() % 1000000000);
+    if (abs_timeout.tv_nsec < 0) {
+      // time point before the epoch
+      abs_timeout.tv_sec -= 1;
+      abs_timeout.tv_nsec += 1000000000;
+    }
     return (::pthread_rwlock_timedrdlock(&rwlock_, &abs_timeout) == 0);
   }
 #endif
diff --git a/include/posix_semaphore.hpp b/include/posix_semaphore.hpp
index 63930f0..fdfa737 100644
--- a/include/posix_semaphore.hpp
+++ b/include/posix_semaphore.hpp
@@ -87,6 +87,11 @@ class counting_semaphore {
     struct ::timespec abs_timeout;
     abs_timeout.tv_sec = system_clock::to_time_t(tp);
     abs_timeout.tv_nsec = (long)(duration_cast<nanoseconds>(tp.time_since_epoch()).count() % 1000000000);
+    if (abs_timeout.tv_nsec < 0) {
+      // time point before the epoch
+      abs_timeout.tv_sec -= 1;
+      abs_timeout.tv_nsec += 1000000000;
+    }
 
     errno = 0;
     while (::sem_timedwait(&sem_, &abs_timeout) != 0) {
-- 
2.43.0


From 25592d18adec087eb1c75520728987e97599ab3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:56 +0000
Subject: [PATCH 08/22] fix: shared_lock::unlock without a mutex throws instead
 of failing an assertion

---
 include/yamc_shared_lock.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/yamc_shared_lock.hpp b/include/yamc_shared_lock.hpp
index 229fd15..77a738e 100644
--- a/include/yamc_shared_lock.hpp
+++ b/include/yamc_shared_lock.hpp
@@ -159,10 +159,10 @@ public:
 
   void unlock()
   {
-    assert(pm_ != nullptr);
     if (!owns_) {
       throw std::system_error(std::make_error_code(std::errc::operation_not_permitted), "shared_lock::unlock");
     }
+    assert(pm_ != nullptr);
     pm_->unlock_shared();
     owns_ = false;
   }
-- 
2.43.0


From 01c321bdc9d83ff86079e405796b8a1d6a116c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:26 +0000
Subject: [PATCH 09/22] fix: woken waiters of a checked shared mutex are no
 longer taken for blocked ones

A waiter that was already notified stayed in the table of the lock validator
until it ran.  A second reader which got the shared lock in the meantime was
refused with a false deadlock when it then waited for a lock of the notified
thread.
---
 include/checked_shared_mutex.hpp | 4 ++++
 include/yamc_lock_validator.hpp  | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/include/checked_shared_mutex.hpp b/include/checked_shared_mutex.hpp
index 8a64a99..85e1484 100644
--- a/include/checked_shared_mutex.hpp
+++ b/include/checked_shared_mutex.hpp
@@ -118,6 +118,7 @@ protected:
         std::abort();
 #else
         RwLockPolicy::after_wait_wlock(state_);
+        validator::wakeup(reinterpret_cast<uintptr_t>(this));
         cv_.notify_all();
         throw std::system_error(std::make_error_code(std::errc::resource_deadlock_would_occur), "deadlock");
 #endif
@@ -166,6 +167,7 @@ protected:
     e_owner_ = {};
     RwLockPolicy::release_wlock(state_);
     validator::unlocked(reinterpret_cast<uintptr_t>(this), tid, false);
+    validator::wakeup(reinterpret_cast<uintptr_t>(this));
     cv_.notify_all();
   }
 
@@ -231,6 +233,7 @@ protected:
 #endif
     }
     if (RwLockPolicy::release_rlock(state_)) {
+      validator::wakeup(reinterpret_cast<uintptr_t>(this));
       cv_.notify_all();
     }
     auto result = std::remove(s_owner_.begin(), s_owner_.end(), tid);
@@ -303,6 +306,7 @@ class basic_shared_timed_mutex : private detail::shared_mutex_base<RwLockPolicy>
         if (!RwLockPolicy::wait_wlock(state_))  // re-check predicate
           break;
         RwLockPolicy::after_wait_wlock(state_);
+        detail::validator::wakeup(reinterpret_cast<uintptr_t>(this));
         cv_.notify_all();  // readers might wait for this writer
         return false;
       }
diff --git a/include/yamc_lock_validator.hpp b/include/yamc_lock_validator.hpp
index 9c680ba..c22cfd7 100644
--- a/include/yamc_lock_validator.hpp
+++ b/include/yamc_lock_validator.hpp
@@ -179,6 +179,13 @@ public:
     auto&& table = global_table();
     remove_elem(table.mutexmap[mkey].waiters, tid);
   }
+
+  static void wakeup(uintptr_t mkey)
+  {
+    // all waiters get notified, a thread which still has to wait calls enqueue() again
+    auto&& table = global_table();
+    table.mutexmap[mkey].waiters.clear();
+  }
 };
 
 
@@ -190,6 +197,7 @@ public:
   static void unlocked(uintptr_t, std::thread::id, bool) {}
   static bool enqueue(uintptr_t, std::thread::id, bool) { return true; }
   static void dequeue(uintptr_t, std::thread::id) {}
+  static void wakeup(uintptr_t) {}
 };
 
 
-- 
2.43.0


From c07c7fff808c74cbec2988b8bc01850b0a71a031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:30 +0000
Subject: [PATCH 10/22] fix: latch and barrier accept an initial count of max()

The constructors document 0 <= expected <= max() but asserted a strict
inequality, so yamc::latch(yamc::latch::max()) aborted in debug builds.
---
 include/yamc_barrier.hpp | 2 +-
 include/yamc_latch.hpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/yamc_barrier.hpp b/include/yamc_barrier.hpp
index 5a96697..3ca7311 100644
--- a/include/yamc_barrier.hpp
+++ b/include/yamc_barrier.hpp
@@ -87,7 +87,7 @@ public:
     , counter_(expected)
     , completion_(std::move(f))
   {
-    assert(0 <= expected && expected < (max()));
+    assert(0 <= expected && expected <= (max)());
   }
 
   ~barrier() = default;
diff --git a/include/yamc_latch.hpp b/include/yamc_latch.hpp
index 5503c20..db6a3c4 100644
--- a/include/yamc_latch.hpp
+++ b/include/yamc_latch.hpp
@@ -54,7 +54,7 @@ public:
   /*constexpr*/ explicit latch(std::ptrdiff_t expected)
     : counter_(expected)
   {
-    assert(0 <= expected && expected < (max)());
+    assert(0 <= expected && expected <= (max)());
   }
 
   ~latch() = default;
-- 
2.43.0


From 6fdba5b25111f3ae52ca2eae405c5521b102672f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:17 +0000
Subject: [PATCH 11/22] fix: deadlock detection explores each mutex once

find_closepath() followed every path through the wait-for graph, so a
lock() took time exponential in the number of shared mutexes when each
is owned by several threads waiting for the next one, while holding the
global lock of the validator.
---
 include/yamc_lock_validator.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/yamc_lock_validator.hpp b/include/yamc_lock_validator.hpp
index c22cfd7..37892cd 100644
--- a/include/yamc_lock_validator.hpp
+++ b/include/yamc_lock_validator.hpp
@@ -33,6 +33,7 @@
 #include <mutex>
 #include <thread>
 #include <unordered_map>
+#include <unordered_set>
 #include <vector>
 
 
@@ -79,15 +80,17 @@ private:
     vec.erase(std::remove(vec.begin(), vec.end(), value), vec.end());
   }
 
-  static bool find_closepath(const mutexmap_type& mutexmap, uintptr_t end_mkey, std::thread::id tid)
+  static bool find_closepath(const mutexmap_type& mutexmap, uintptr_t end_mkey, std::thread::id tid, std::unordered_set<uintptr_t>& visited)
   {
     for (const auto& e : mutexmap) {
       if (std::find(e.second.owners.begin(), e.second.owners.end(), tid) == e.second.owners.end())
         continue;
       if (e.first == end_mkey)
         return true;  // found close path
+      if (!visited.insert(e.first).second)
+        continue;  // already explored by another owner
       for (const auto& next_tid : e.second.waiters) {
-        if (find_closepath(mutexmap, end_mkey, next_tid)) {
+        if (find_closepath(mutexmap, end_mkey, next_tid, visited)) {
           return true;
         }
       }
@@ -156,7 +159,8 @@ public:
   {
     auto&& table = global_table();
     table.mutexmap[mkey].waiters.push_back(tid);
-    if (find_closepath(table.mutexmap, mkey, tid)) {
+    std::unordered_set<uintptr_t> visited;
+    if (find_closepath(table.mutexmap, mkey, tid, visited)) {
       // detect deadlock
       std::cout << "Thread#" << tid << " wait for Mutex#" << table.mutexmap[mkey].mid
         << " " << (shared ? "shared-lock" : "lock") << '\n';
-- 
2.43.0


From 20a91d76adacd642ce6860ba01cda1b8d99c2c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:23 +0000
Subject: [PATCH 12/22] fix: fair_shared_mutex.hpp includes <cassert>

The header uses assert() but did not include it, so it could not be
compiled on its own.
---
 include/fair_shared_mutex.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/fair_shared_mutex.hpp b/include/fair_shared_mutex.hpp
index 857b06c..66d4440 100644
--- a/include/fair_shared_mutex.hpp
+++ b/include/fair_shared_mutex.hpp
@@ -26,6 +26,7 @@
 #ifndef YAMC_FAIR_SHARED_MUTEX_HPP_
 #define YAMC_FAIR_SHARED_MUTEX_HPP_
 
+#include <cassert>
 #include <chrono>
 #include <condition_variable>
 #include <mutex>
-- 
2.43.0


From be9d9305ddea724f69b6ceaaad97ba5c4919ba9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:16 +0000
Subject: [PATCH 13/22] fix: relative timeouts round up and do not overflow

try_lock_for() and try_acquire_for() added the timeout to the current time
in the common type of both. A timeout that this type cannot represent, e.g.
hours::max(), overflowed and the call gave up at once, and the deadline for
a timeout in float was computed in float: up to minutes too early or late.
---
 include/alternate_mutex.hpp        |  5 +-
 include/alternate_shared_mutex.hpp |  5 +-
 include/checked_mutex.hpp          |  5 +-
 include/checked_shared_mutex.hpp   |  5 +-
 include/fair_mutex.hpp             |  5 +-
 include/fair_shared_mutex.hpp      |  5 +-
 include/yamc_deadline.hpp          | 94 ++++++++++++++++++++++++++++++
 include/yamc_semaphore.hpp         |  3 +-
 8 files changed, 114 insertions(+), 13 deletions(-)
 create mode 100644 include/yamc_deadline.hpp

diff --git a/include/alternate_mutex.hpp b/include/alternate_mutex.hpp
index 80e3675..d10e304 100644
--- a/include/alternate_mutex.hpp
+++ b/include/alternate_mutex.hpp
@@ -32,6 +32,7 @@
 #include <condition_variable>
 #include <mutex>
 #include <thread>
+#include "yamc_deadline.hpp"
 
 
 namespace yamc {
@@ -161,7 +162,7 @@ public:
   template<typename Rep, typename Period>
   bool try_lock_for(const std::chrono::duration<Rep, Period>& duration)
   {
-    const auto tp = std::chrono::steady_clock::now() + duration;
+    const auto tp = yamc::detail::deadline_after<std::chrono::steady_clock>(duration);
     return do_try_lockwait(tp);
   }
 
@@ -257,7 +258,7 @@ public:
   template<typename Rep, typename Period>
   bool try_lock_for(const std::chrono::duration<Rep, Period>& duration)
   {
-    const auto tp = std::chrono::steady_clock::now() + duration;
+    const auto tp = yamc::detail::deadline_after<std::chrono::steady_clock>(duration);
     return do_try_lockwait(tp);
   }
 
diff --git a/include/alternate_shared_mutex.hpp b/include/alternate_shared_mutex.hpp
index dde0463..4cd2ec2 100644
--- a/include/alternate_shared_mutex.hpp
+++ b/include/alternate_shared_mutex.hpp
@@ -31,6 +31,7 @@
 #include <condition_variable>
 #include <mutex>
 #include "yamc_rwlock_sched.hpp"
+#include "yamc_deadline.hpp"
 
 
 namespace yamc {
@@ -190,7 +191,7 @@ public:
   template<typename Rep, typename Period>
   bool try_lock_for(const std::chrono::duration<Rep, Period>& duration)
   {
-    const auto tp = std::chrono::steady_clock::now() + duration;
+    const auto tp = yamc::detail::deadline_after<std::chrono::steady_clock>(duration);
     return do_try_lockwait(tp);
   }
 
@@ -207,7 +208,7 @@ public:
   template<typename Rep, typename Period>
   bool try_lock_shared_for(const std::chrono::duration<Rep, Period>& duration)
   {
-    const auto tp = std::chrono::steady_clock::now() + duration;
+    const auto tp = yamc::detail::deadline_after<std::chrono::steady_clock>(duration);
     return do_try_lock_sharedwait(tp);
   }
 
diff --git a/include/checked_mutex.hpp b/include/checked_mutex.hpp
index a95597d..9e908cf 100644
--- a/include/checked_mutex.hpp
+++ b/include/checked_mutex.hpp
@@ -34,6 +34,7 @@
 #include <system_error>
 #include <thread>
 #include "yamc_lock_validator.hpp"
+#include "yamc_deadline.hpp"
 
 
 // call std::abort() when requirements violation
@@ -319,7 +320,7 @@ public:
   template<typename Rep, typename Period>
   bool try_lock_for(const std::chrono::duration<Rep, Period>& duration)
   {
-    const auto tp = std::chrono::steady_clock::now() + duration;
+    const auto tp = yamc::detail::deadline_after<std::chrono::steady_clock>(duration);
     return do_try_lockwait(tp, "recursive try_lock_for");
   }
 
@@ -403,7 +404,7 @@ public:
   template<typename Rep, typename Period>
   bool try_lock_for(const std::chrono::duration<Rep, Period>& duration)
   {
-    const auto tp = std::chrono::steady_clock::now() + duration;
+    const auto tp = yamc::detail::deadline_after<std::chrono::steady_clock>(duration);
     return do_try_lockwait(tp);
   }
 
diff --git a/include/checked_shared_mutex.hpp b/include/checked_shared_mutex.hpp
index 85e1484..11129b1 100644
--- a/include/checked_shared_mutex.hpp
+++ b/include/checked_shared_mutex.hpp
@@ -36,6 +36,7 @@
 #include <vector>
 #include "yamc_rwlock_sched.hpp"
 #include "yamc_lock_validator.hpp"
+#include "yamc_deadline.hpp"
 
 
 // call std::abort() when requirements violation
@@ -367,7 +368,7 @@ public:
   template<typename Rep, typename Period>
   bool try_lock_for(const std::chrono::duration<Rep, Period>& duration)
   {
-    const auto tp = std::chrono::steady_clock::now() + duration;
+    const auto tp = yamc::detail::deadline_after<std::chrono::steady_clock>(duration);
     return do_try_lockwait(tp, "recursive try_lock_for");
   }
 
@@ -384,7 +385,7 @@ public:
   template<typename Rep, typename Period>
   bool try_lock_shared_for(const std::chrono::duration<Rep, Period>& duration)
   {
-    const auto tp = std::chrono::steady_clock::now() + duration;
+    const auto tp = yamc::detail::deadline_after<std::chrono::steady_clock>(duration);
     return do_try_lock_sharedwait(tp, "recursive try_lock_shared_for");
   }
 
diff --git a/include/fair_mutex.hpp b/include/fair_mutex.hpp
index 9433cc3..19744e6 100644
--- a/include/fair_mutex.hpp
+++ b/include/fair_mutex.hpp
@@ -31,6 +31,7 @@
 #include <condition_variable>
 #include <mutex>
 #include <thread>
+#include "yamc_deadline.hpp"
 
 
 namespace yamc {
@@ -293,7 +294,7 @@ public:
   template<typename Rep, typename Period>
   bool try_lock_for(const std::chrono::duration<Rep, Period>& duration)
   {
-    const auto tp = std::chrono::steady_clock::now() + duration;
+    const auto tp = yamc::detail::deadline_after<std::chrono::steady_clock>(duration);
     auto lk = impl_.internal_lock();
     return impl_.impl_try_lockwait(lk, tp);
   }
@@ -362,7 +363,7 @@ public:
   template<typename Rep, typename Period>
   bool try_lock_for(const std::chrono::duration<Rep, Period>& duration)
   {
-    const auto tp = std::chrono::steady_clock::now() + duration;
+    const auto tp = yamc::detail::deadline_after<std::chrono::steady_clock>(duration);
     return try_lock_until(tp);  // delegate
   }
 
diff --git a/include/fair_shared_mutex.hpp b/include/fair_shared_mutex.hpp
index 66d4440..b440bd0 100644
--- a/include/fair_shared_mutex.hpp
+++ b/include/fair_shared_mutex.hpp
@@ -31,6 +31,7 @@
 #include <condition_variable>
 #include <mutex>
 #include <thread>
+#include "yamc_deadline.hpp"
 
 
 /// default shared_mutex rwlock fairness policy
@@ -466,7 +467,7 @@ public:
   template<typename Rep, typename Period>
   bool try_lock_for(const std::chrono::duration<Rep, Period>& duration)
   {
-    const auto tp = std::chrono::steady_clock::now() + duration;
+    const auto tp = yamc::detail::deadline_after<std::chrono::steady_clock>(duration);
     std::unique_lock<decltype(mtx_)> lk(mtx_);
     return base::impl_try_lockwait(lk, tp);
   }
@@ -499,7 +500,7 @@ public:
   template<typename Rep, typename Period>
   bool try_lock_shared_for(const std::chrono::duration<Rep, Period>& duration)
   {
-    const auto tp = std::chrono::steady_clock::now() + duration;
+    const auto tp = yamc::detail::deadline_after<std::chrono::steady_clock>(duration);
     std::unique_lock<decltype(mtx_)> lk(mtx_);
     return base::impl_try_lockwait_shared(lk, tp);
   }
diff --git a/include/yamc_deadline.hpp b/include/yamc_deadline.hpp
new file mode 100644
index 0000000..1a7365f
--- /dev/null
+++ b/include/yamc_deadline.hpp
@@ -0,0 +1,94 @@
+/*
+ * yamc_deadline.hpp
+ *
+ * MIT License
+ *
+ * Copyright (c) 2018 yohhoy
+ *
+ * Permission is hereby granted, free of charge, to any person obtaining a copy
+ * of this software and associated documentation files (the "Software"), to deal
+ * in the Software without restriction, including without limitation the rights
+ * to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
+ * copies of the Software, and to permit persons to whom the Software is
+ * furnished to do so, subject to the following conditions:
+ *
+ * The above copyright notice and this permission notice shall be included in all
+ * copies or substantial portions of the Software.
+ *
+ * THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
+ * IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
+ * FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
+ * AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
+ * LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
+ * OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
+ * SOFTWARE.
+ */
+#ifndef YAMC_DEADLINE_HPP_
+#define YAMC_DEADLINE_HPP_
+
+#include <chrono>
+
+
+namespace yamc {
+
+/*
+ * deadline calculation for relative timeout [internal]
+ *
+ * The deadline has the resolution of Clock and is never earlier than requested.
+ * When Clock can not represent such a time point, it is Clock's last one.
+ * Timeouts that have already expired (zero or negative) give the current time.
+ */
+namespace detail {
+
+// duration in the resolution of To, rounded up; zero if negative, To::max() if To cannot represent it
+template<typename To, typename Rep, typename Period>
+inline
+To
+ceil_timeout(const std::chrono::duration<Rep, Period>& rel_time)
+{
+  using approx = std::chrono::duration<double, typename To::period>;
+
+  if (rel_time <= rel_time.zero()) {
+    return To::zero();
+  }
+  if (!(approx(rel_time) < approx((To::max)()))) {
+    return (To::max)();
+  }
+  auto result = std::chrono::duration_cast<To>(rel_time);
+  if (result < rel_time) {
+    result += To(1);
+  }
+  return result;
+}
+
+// time point when rel_time has elapsed from now; Clock::time_point::max() if it cannot be represented
+template<typename Clock, typename Rep, typename Period>
+inline
+typename Clock::time_point
+deadline_after(const std::chrono::duration<Rep, Period>& rel_time)
+{
+  const auto delta = ceil_timeout<typename Clock::duration>(rel_time);
+  const auto now = Clock::now();
+  if ((Clock::duration::max)() - delta < now.time_since_epoch()) {
+    return (Clock::time_point::max)();
+  }
+  return now + delta;
+}
+
+// time point in the resolution of Clock, rounded up
+template<typename Clock, typename Duration>
+inline
+typename Clock::time_point
+ceil_timepoint(const std::chrono::time_point<Clock, Duration>& tp)
+{
+  auto result = std::chrono::time_point_cast<typename Clock::duration>(tp);
+  if (result < tp) {
+    result += typename Clock::duration(1);
+  }
+  return result;
+}
+
+} // namespace detail
+} // namespace yamc
+
+#endif
diff --git a/include/yamc_semaphore.hpp b/include/yamc_semaphore.hpp
index 3ba2059..0bf01e7 100644
--- a/include/yamc_semaphore.hpp
+++ b/include/yamc_semaphore.hpp
@@ -32,6 +32,7 @@
 #include <condition_variable>
 #include <limits>
 #include <mutex>
+#include "yamc_deadline.hpp"
 
 
 /// default least_max_value of yamc::counting_semaphore
@@ -121,7 +122,7 @@ public:
   template<class Rep, class Period>
   bool try_acquire_for(const std::chrono::duration<Rep, Period>& rel_time)
   {
-    const auto tp = std::chrono::steady_clock::now() + rel_time;
+    const auto tp = yamc::detail::deadline_after<std::chrono::steady_clock>(rel_time);
     return do_try_acquirewait(tp);
   }
 
-- 
2.43.0


From aff52866e6beaab1a160fb79c62e23e99c1390c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:16 +0000
Subject: [PATCH 14/22] fix: timed operations of POSIX wrappers accept any
 timeout

Timeouts or time points in floating point or of clocks coarser than
system_clock did not compile, time points were rounded down, and those
beyond what system_clock can represent overflowed into the past.
---
 include/posix_native_mutex.hpp | 17 +++++++++--------
 include/posix_semaphore.hpp    | 15 ++++++++++-----
 2 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/include/posix_native_mutex.hpp b/include/posix_native_mutex.hpp
index e54d8ac..e54b9b8 100644
--- a/include/posix_native_mutex.hpp
+++ b/include/posix_native_mutex.hpp
@@ -30,6 +30,7 @@
 // POSIX(pthreads) mutex
 #include <pthread.h>
 #include <time.h>
+#include "yamc_deadline.hpp"
 
 
 #if defined(__APPLE__)
@@ -115,7 +116,7 @@ public:
   {
     // C++ Standard says '_for'-suffixed timeout function shall use steady clock,
     // but we use std::chrono::system_clock which may or may not be steady.
-    const auto tp = std::chrono::system_clock::now() + rel_time;
+    const auto tp = yamc::detail::deadline_after<std::chrono::system_clock>(rel_time);
     return do_try_lockwait(tp);
   }
 
@@ -123,7 +124,7 @@ public:
   bool try_lock_until(const std::chrono::time_point<Clock, Duration>& abs_time)
   {
     static_assert(std::is_same<Clock, std::chrono::system_clock>::value, "support only system_clock");
-    return do_try_lockwait(abs_time);
+    return do_try_lockwait(yamc::detail::ceil_timepoint(abs_time));
   }
 #endif
 
@@ -199,7 +200,7 @@ public:
   {
     // C++ Standard says '_for'-suffixed timeout function shall use steady clock,
     // but we use std::chrono::system_clock which may or may not be steady.
-    const auto tp = std::chrono::system_clock::now() + rel_time;
+    const auto tp = yamc::detail::deadline_after<std::chrono::system_clock>(rel_time);
     return do_try_lockwait(tp);
   }
 
@@ -207,7 +208,7 @@ public:
   bool try_lock_until(const std::chrono::time_point<Clock, Duration>& abs_time)
   {
     static_assert(std::is_same<Clock, std::chrono::system_clock>::value, "support only system_clock");
-    return do_try_lockwait(abs_time);
+    return do_try_lockwait(yamc::detail::ceil_timepoint(abs_time));
   }
 #endif // YAMC_POSIX_TIMEOUT_SUPPORTED
 
@@ -305,7 +306,7 @@ public:
   {
     // C++ Standard says '_for'-suffixed timeout function shall use steady clock,
     // but we use std::chrono::system_clock which may or may not be steady.
-    const auto tp = std::chrono::system_clock::now() + rel_time;
+    const auto tp = yamc::detail::deadline_after<std::chrono::system_clock>(rel_time);
     return do_try_lockwait(tp);
   }
 
@@ -313,7 +314,7 @@ public:
   bool try_lock_until(const std::chrono::time_point<Clock, Duration>& abs_time)
   {
     static_assert(std::is_same<Clock, std::chrono::system_clock>::value, "support only system_clock");
-    return do_try_lockwait(abs_time);
+    return do_try_lockwait(yamc::detail::ceil_timepoint(abs_time));
   }
 
   template<typename Rep, typename Period>
@@ -321,7 +322,7 @@ public:
   {
     // C++ Standard says '_for'-suffixed timeout function shall use steady clock,
     // but we use std::chrono::system_clock which may or may not be steady.
-    const auto tp = std::chrono::system_clock::now() + rel_time;
+    const auto tp = yamc::detail::deadline_after<std::chrono::system_clock>(rel_time);
     return do_try_lock_sharedwait(tp);
   }
 
@@ -329,7 +330,7 @@ public:
   bool try_lock_shared_until(const std::chrono::time_point<Clock, Duration>& abs_time)
   {
     static_assert(std::is_same<Clock, std::chrono::system_clock>::value, "support only system_clock");
-    return do_try_lock_sharedwait(abs_time);
+    return do_try_lock_sharedwait(yamc::detail::ceil_timepoint(abs_time));
   }
 #endif // YAMC_POSIX_TIMEOUT_SUPPORTED
 
diff --git a/include/posix_semaphore.hpp b/include/posix_semaphore.hpp
index fdfa737..c729768 100644
--- a/include/posix_semaphore.hpp
+++ b/include/posix_semaphore.hpp
@@ -35,6 +35,7 @@
 #include <limits.h>  // SEM_VALUE_MAX
 #include <semaphore.h>
 #include <time.h>    // timespec struct
+#include "yamc_deadline.hpp"
 
 
 namespace yamc {
@@ -54,18 +55,22 @@ namespace detail {
 
 template<typename Clock, typename Duration>
 inline
-std::chrono::time_point<std::chrono::system_clock, Duration>
+std::chrono::system_clock::time_point
 to_system_timepoint(const std::chrono::time_point<Clock, Duration>& tp)
 {
-  return std::chrono::system_clock::now() + (tp - Clock::now());
+  const auto now = Clock::now();
+  if (tp <= now) {
+    return std::chrono::system_clock::now();
+  }
+  return yamc::detail::deadline_after<std::chrono::system_clock>(tp - now);
 }
 
 template<typename Duration>
 inline
-std::chrono::time_point<std::chrono::system_clock, Duration>
+std::chrono::system_clock::time_point
 to_system_timepoint(const std::chrono::time_point<std::chrono::system_clock, Duration>& tp)
 {
-  return tp;
+  return yamc::detail::ceil_timepoint(tp);
 }
 
 } // namespace detail
@@ -157,7 +162,7 @@ public:
   {
     // C++ Standard says '_for'-suffixed timeout function shall use steady clock,
     // but we use system_clock to convert from time_point to legacy time_t.
-    const auto tp = std::chrono::system_clock::now() + rel_time;
+    const auto tp = yamc::detail::deadline_after<std::chrono::system_clock>(rel_time);
     return do_try_acquirewait(tp);
   }
 
-- 
2.43.0


From c40dbc0177e1603e3ba3759215e243d985d203cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:16 +0000
Subject: [PATCH 15/22] fix: gcd semaphore timeouts at the epoch and beyond
 range

dispatch_walltime() takes the first two nanoseconds of the UNIX epoch as
DISPATCH_TIME_FOREVER, so try_acquire_until(system_clock::time_point{})
blocked forever. Timeouts which nanoseconds cannot represent overflowed.
---
 include/gcd_semaphore.hpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/include/gcd_semaphore.hpp b/include/gcd_semaphore.hpp
index f0b86d7..d38fd7a 100644
--- a/include/gcd_semaphore.hpp
+++ b/include/gcd_semaphore.hpp
@@ -34,6 +34,7 @@
 #include <type_traits>
 // Grand Central Dispatch (GCD)
 #include <dispatch/dispatch.h>
+#include "yamc_deadline.hpp"
 
 
 namespace yamc {
@@ -51,25 +52,28 @@ namespace gcd {
 
 namespace detail {
 
-template<typename Clock, typename Duration>
+template<typename Duration>
 inline
 int64_t
-from_unix_epoch(const std::chrono::time_point<Clock, Duration>& tp)
+from_unix_epoch(const std::chrono::time_point<std::chrono::system_clock, Duration>& tp)
 {
+  // Until C++20, the epoch of std::chrono::system_clock is unspecified,
+  // but most implementation use UNIX epoch (19700101T000000Z).
   using namespace std::chrono;
-  auto rel_time = tp - Clock::now();
-  return duration_cast<nanoseconds>((system_clock::now() + rel_time).time_since_epoch()).count();
+  const int64_t nsec = yamc::detail::ceil_timeout<nanoseconds>(tp.time_since_epoch()).count();
+  // dispatch_walltime() takes the first nanosecond since UNIX epoch as DISPATCH_TIME_FOREVER
+  return (nsec < 2) ? 2 : nsec;
 }
 
-template<typename Duration>
+template<typename Clock, typename Duration>
 inline
 int64_t
-from_unix_epoch(const std::chrono::time_point<std::chrono::system_clock, Duration>& tp)
+from_unix_epoch(const std::chrono::time_point<Clock, Duration>& tp)
 {
-  // Until C++20, the epoch of std::chrono::system_clock is unspecified,
-  // but most implementation use UNIX epoch (19700101T000000Z).
   using namespace std::chrono;
-  return duration_cast<nanoseconds>(tp.time_since_epoch()).count();
+  const auto now = Clock::now();
+  const auto sys_tp = (tp <= now) ? system_clock::now() : yamc::detail::deadline_after<system_clock>(tp - now);
+  return from_unix_epoch(sys_tp);
 }
 
 } // namespace detail
@@ -144,7 +148,7 @@ public:
   {
     using namespace std::chrono;
     validate_native_handle("counting_semaphore::try_acquire_for");
-    int64_t delta = duration_cast<nanoseconds>(rel_time).count();
+    int64_t delta = yamc::detail::ceil_timeout<nanoseconds>(rel_time).count();
     auto timeout = ::dispatch_time(DISPATCH_TIME_NOW, delta);
 
     long result = ::dispatch_semaphore_wait(dsema_, timeout);
-- 
2.43.0


From 7ffbb8650c420b37fcdf794320a69ea63b663b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:16 +0000
Subject: [PATCH 16/22] fix: timeouts of Windows primitives outside the range
 of DWORD

An expired timeout, e.g. try_lock_until() with a past time point, was cast
from negative to DWORD and blocked for weeks; long ones were truncated.
---
 include/win_native_mutex.hpp | 17 ++++++++++++++---
 include/win_semaphore.hpp    | 17 ++++++++++++++---
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/include/win_native_mutex.hpp b/include/win_native_mutex.hpp
index 85d8990..e51f73a 100644
--- a/include/win_native_mutex.hpp
+++ b/include/win_native_mutex.hpp
@@ -30,6 +30,7 @@
 #include <system_error>
 // Windows mutex
 #include <windows.h>
+#include "yamc_deadline.hpp"
 
 
 /// Enable accurate timeout for yamc::win::* primitives
@@ -68,8 +69,17 @@ class native_mutex {
   {
     using namespace std::chrono;
     // round up timeout to milliseconds precision
-    DWORD timeout_in_msec = static_cast<DWORD>(duration_cast<milliseconds>(timeout + nanoseconds{999999}).count());
-    DWORD result = ::WaitForSingleObject(hmtx_, timeout_in_msec);
+    using msec_type = duration<long long, std::milli>;
+    const long long timeout_in_msec = yamc::detail::ceil_timeout<msec_type>(timeout).count();
+    // single wait is limited to INFINITE - 1 milliseconds
+    const long long max_wait = static_cast<long long>(INFINITE) - 1;
+    long long remain = timeout_in_msec;
+    DWORD result;
+    do {
+      const DWORD wait = static_cast<DWORD>(remain < max_wait ? remain : max_wait);
+      result = ::WaitForSingleObject(hmtx_, wait);
+      remain -= wait;
+    } while (result == WAIT_TIMEOUT && 0 < remain);
 #if YAMC_WIN_ACCURATE_TIMEOUT
     if (result == WAIT_TIMEOUT && 0 < timeout_in_msec) {
       // Win32 wait functions will return early than specified timeout interval by design.
@@ -131,7 +141,8 @@ public:
   template<class Clock, class Duration>
   bool try_lock_until(const std::chrono::time_point<Clock, Duration>& abs_time)
   {
-    return do_try_lockwait(abs_time - Clock::now());
+    const auto now = Clock::now();
+    return (abs_time <= now) ? try_lock() : do_try_lockwait(abs_time - now);
   }
 
   void unlock()
diff --git a/include/win_semaphore.hpp b/include/win_semaphore.hpp
index c70550b..b0f0a52 100644
--- a/include/win_semaphore.hpp
+++ b/include/win_semaphore.hpp
@@ -32,6 +32,7 @@
 #include <system_error>
 // Windows semaphore
 #include <windows.h>
+#include "yamc_deadline.hpp"
 
 
 /// Enable acculate timeout for yamc::win::* primitives
@@ -71,8 +72,17 @@ class counting_semaphore {
   {
     using namespace std::chrono;
     // round up timeout to milliseconds precision
-    DWORD timeout_in_msec = static_cast<DWORD>(duration_cast<milliseconds>(timeout + nanoseconds{999999}).count());
-    DWORD result = ::WaitForSingleObject(hsem_, timeout_in_msec);
+    using msec_type = duration<long long, std::milli>;
+    const long long timeout_in_msec = yamc::detail::ceil_timeout<msec_type>(timeout).count();
+    // single wait is limited to INFINITE - 1 milliseconds
+    const long long max_wait = static_cast<long long>(INFINITE) - 1;
+    long long remain = timeout_in_msec;
+    DWORD result;
+    do {
+      const DWORD wait = static_cast<DWORD>(remain < max_wait ? remain : max_wait);
+      result = ::WaitForSingleObject(hsem_, wait);
+      remain -= wait;
+    } while (result == WAIT_TIMEOUT && 0 < remain);
 #if YAMC_WIN_ACCURATE_TIMEOUT
     if (result == WAIT_TIMEOUT && 0 < timeout_in_msec) {
       // Win32 wait functions will return early than specified timeout interval by design.
@@ -156,7 +166,8 @@ public:
   bool try_acquire_until(const std::chrono::time_point<Clock, Duration>& abs_time)
   {
     validate_native_handle("counting_semaphore::try_acquire_until");
-    return do_try_acquirewait(abs_time - Clock::now());
+    const auto now = Clock::now();
+    return (abs_time <= now) ? try_acquire() : do_try_acquirewait(abs_time - now);
   }
 };
 
-- 
2.43.0


From de548b21912a84e4c69e74c21230813b1d7b3264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:16 +0000
Subject: [PATCH 17/22] fix: win::native_mutex::native_handle returns the mutex
 handle

It returned the address of the handle, which is not a valid HANDLE.
---
 include/win_native_mutex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/win_native_mutex.hpp b/include/win_native_mutex.hpp
index e51f73a..a056151 100644
--- a/include/win_native_mutex.hpp
+++ b/include/win_native_mutex.hpp
@@ -153,7 +153,7 @@ public:
   using native_handle_type = ::HANDLE;
   native_handle_type native_handle()
   {
-    return &hmtx_;
+    return hmtx_;
   }
 };
 
-- 
2.43.0


From c5478cc2cefe6f6f860aa56ae7f813f9d6a6a411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:17 +0000
Subject: [PATCH 18/22] fix: win::counting_semaphore accepts release(0)

ReleaseSemaphore() rejects a count of zero, and release() reported that as
an error, though 0 <= update is its precondition.
---
 include/win_semaphore.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/win_semaphore.hpp b/include/win_semaphore.hpp
index b0f0a52..16cf5cb 100644
--- a/include/win_semaphore.hpp
+++ b/include/win_semaphore.hpp
@@ -131,6 +131,10 @@ public:
   void release(std::ptrdiff_t update = 1)
   {
     validate_native_handle("counting_semaphore::release");
+    if (update == 0) {
+      // ReleaseSemaphore() rejects zero
+      return;
+    }
     BOOL result = ::ReleaseSemaphore(hsem_, (LONG)update, NULL);
     if (!result) {
       // [thread.mutex.requirements.mutex]
-- 
2.43.0


From 4c3bd081876f89a6e18d3cf181f14ea1b9792cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:35 +0000
Subject: [PATCH 19/22] fix: expired deadlines of Windows primitives still
 report errors

try_lock_until() and try_acquire_until() with a past deadline went through
try_lock() and try_acquire(), which hide failures of the wait.
---
 include/win_native_mutex.hpp | 3 ++-
 include/win_semaphore.hpp    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/win_native_mutex.hpp b/include/win_native_mutex.hpp
index a056151..d710336 100644
--- a/include/win_native_mutex.hpp
+++ b/include/win_native_mutex.hpp
@@ -142,7 +142,8 @@ public:
   bool try_lock_until(const std::chrono::time_point<Clock, Duration>& abs_time)
   {
     const auto now = Clock::now();
-    return (abs_time <= now) ? try_lock() : do_try_lockwait(abs_time - now);
+    using rel_type = decltype(abs_time - now);
+    return do_try_lockwait((abs_time <= now) ? rel_type::zero() : abs_time - now);
   }
 
   void unlock()
diff --git a/include/win_semaphore.hpp b/include/win_semaphore.hpp
index 16cf5cb..119f67a 100644
--- a/include/win_semaphore.hpp
+++ b/include/win_semaphore.hpp
@@ -171,7 +171,8 @@ public:
   {
     validate_native_handle("counting_semaphore::try_acquire_until");
     const auto now = Clock::now();
-    return (abs_time <= now) ? try_acquire() : do_try_acquirewait(abs_time - now);
+    using rel_type = decltype(abs_time - now);
+    return do_try_acquirewait((abs_time <= now) ? rel_type::zero() : abs_time - now);
   }
 };
 
-- 
2.43.0


From 5b96abbcff4c798cfec263afa5bdd2b209f81b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:44 +0000
Subject: [PATCH 20/22] fix: checked mutexes survive failing memory allocations

A call that ended with bad_alloc left the mutex owned or the thread registered
as waiting. Register with the validator before changing the state of the mutex,
withdraw the waiting writer on every way out.
---
 include/checked_mutex.hpp        | 12 ++++-----
 include/checked_shared_mutex.hpp | 46 +++++++++++++++++++++++---------
 include/yamc_lock_validator.hpp  |  5 ++--
 3 files changed, 43 insertions(+), 20 deletions(-)

diff --git a/include/checked_mutex.hpp b/include/checked_mutex.hpp
index 9e908cf..567db3d 100644
--- a/include/checked_mutex.hpp
+++ b/include/checked_mutex.hpp
@@ -113,8 +113,8 @@ protected:
       cv_.wait(lk);
       validator::dequeue(reinterpret_cast<uintptr_t>(this), tid);
     }
-    owner_ = tid;
     validator::locked(reinterpret_cast<uintptr_t>(this), tid, false);
+    owner_ = tid;
   }
 
   bool try_lock()
@@ -132,8 +132,8 @@ protected:
     if (owner_ != std::thread::id()) {
       return false;
     }
-    owner_ = tid;
     validator::locked(reinterpret_cast<uintptr_t>(this), tid, false);
+    owner_ = tid;
     return true;
   }
 
@@ -198,9 +198,9 @@ protected:
       validator::dequeue(reinterpret_cast<uintptr_t>(this), tid);
     }
     assert(owner_ == std::thread::id());
+    validator::locked(reinterpret_cast<uintptr_t>(this), tid, false);
     ncount_ = 1;
     owner_ = tid;
-    validator::locked(reinterpret_cast<uintptr_t>(this), tid, false);
   }
 
   bool try_lock()
@@ -213,9 +213,9 @@ protected:
     }
     if (ncount_ == 0) {
       assert(owner_ == std::thread::id());
+      validator::locked(reinterpret_cast<uintptr_t>(this), tid, false);
       ncount_ = 1;
       owner_ = tid;
-      validator::locked(reinterpret_cast<uintptr_t>(this), tid, false);
       return true;
     }
     return false;
@@ -293,8 +293,8 @@ class timed_mutex : private detail::mutex_base {
         return false;
       }
     }
-    owner_ = tid;
     detail::validator::locked(reinterpret_cast<uintptr_t>(this), tid, false);
+    owner_ = tid;
     return true;
   }
 
@@ -376,9 +376,9 @@ class recursive_timed_mutex : private detail::recursive_mutex_base {
       }
     }
     assert(owner_ == std::thread::id());
+    detail::validator::locked(reinterpret_cast<uintptr_t>(this), tid, false);
     ncount_ = 1;
     owner_ = tid;
-    detail::validator::locked(reinterpret_cast<uintptr_t>(this), tid, false);
     return true;
   }
 
diff --git a/include/checked_shared_mutex.hpp b/include/checked_shared_mutex.hpp
index 11129b1..d5e43fa 100644
--- a/include/checked_shared_mutex.hpp
+++ b/include/checked_shared_mutex.hpp
@@ -85,6 +85,27 @@ protected:
     return std::find(s_owner_.begin(), s_owner_.end(), tid) != s_owner_.end();
   }
 
+  // withdraw the waiting writer unless the lock was granted
+  class writer_request {
+    shared_mutex_base* base_;
+
+  public:
+    explicit writer_request(shared_mutex_base& base) : base_(&base) {}
+    writer_request(const writer_request&) = delete;
+    writer_request& operator=(const writer_request&) = delete;
+
+    ~writer_request()
+    {
+      if (base_ != nullptr) {
+        RwLockPolicy::after_wait_wlock(base_->state_);
+        validator::wakeup(reinterpret_cast<uintptr_t>(base_));
+        base_->cv_.notify_all();  // readers might wait for this writer
+      }
+    }
+
+    void granted() { base_ = nullptr; }
+  };
+
   void dtor_precondition(const char* emsg)
   {
     std::lock_guard<decltype(mtx_)> lk(mtx_);
@@ -112,25 +133,24 @@ protected:
 #endif
     }
     RwLockPolicy::before_wait_wlock(state_);
+    writer_request request(*this);
     while (RwLockPolicy::wait_wlock(state_)) {
       if (!validator::enqueue(reinterpret_cast<uintptr_t>(this), tid, false)) {
         // deadlock detection
 #if YAMC_CHECKED_CALL_ABORT
         std::abort();
 #else
-        RwLockPolicy::after_wait_wlock(state_);
-        validator::wakeup(reinterpret_cast<uintptr_t>(this));
-        cv_.notify_all();
         throw std::system_error(std::make_error_code(std::errc::resource_deadlock_would_occur), "deadlock");
 #endif
       }
       cv_.wait(lk);
       validator::dequeue(reinterpret_cast<uintptr_t>(this), tid);
     }
+    validator::locked(reinterpret_cast<uintptr_t>(this), tid, false);
+    request.granted();
     RwLockPolicy::after_wait_wlock(state_);
     RwLockPolicy::acquire_wlock(state_);
     e_owner_ = tid;
-    validator::locked(reinterpret_cast<uintptr_t>(this), tid, false);
   }
 
   bool try_lock()
@@ -147,9 +167,9 @@ protected:
     }
     if (RwLockPolicy::wait_wlock(state_))
       return false;
+    validator::locked(reinterpret_cast<uintptr_t>(this), tid, false);
     RwLockPolicy::acquire_wlock(state_);
     e_owner_ = tid;
-    validator::locked(reinterpret_cast<uintptr_t>(this), tid, false);
     return true;
   }
 
@@ -196,9 +216,10 @@ protected:
       cv_.wait(lk);
       validator::dequeue(reinterpret_cast<uintptr_t>(this), tid);
     }
+    s_owner_.reserve(s_owner_.size() + 1);
+    validator::locked(reinterpret_cast<uintptr_t>(this), tid, true);
     RwLockPolicy::acquire_rlock(state_);
     s_owner_.push_back(tid);
-    validator::locked(reinterpret_cast<uintptr_t>(this), tid, true);
   }
 
   bool try_lock_shared()
@@ -215,9 +236,10 @@ protected:
     }
     if (RwLockPolicy::wait_rlock(state_))
       return false;
+    s_owner_.reserve(s_owner_.size() + 1);
+    validator::locked(reinterpret_cast<uintptr_t>(this), tid, true);
     RwLockPolicy::acquire_rlock(state_);
     s_owner_.push_back(tid);
-    validator::locked(reinterpret_cast<uintptr_t>(this), tid, true);
     return true;
   }
 
@@ -302,20 +324,19 @@ class basic_shared_timed_mutex : private detail::shared_mutex_base<RwLockPolicy>
 #endif
     }
     RwLockPolicy::before_wait_wlock(state_);
+    typename base::writer_request request(*this);
     while (RwLockPolicy::wait_wlock(state_)) {
       if (cv_.wait_until(lk, tp) == std::cv_status::timeout) {
         if (!RwLockPolicy::wait_wlock(state_))  // re-check predicate
           break;
-        RwLockPolicy::after_wait_wlock(state_);
-        detail::validator::wakeup(reinterpret_cast<uintptr_t>(this));
-        cv_.notify_all();  // readers might wait for this writer
         return false;
       }
     }
+    detail::validator::locked(reinterpret_cast<uintptr_t>(this), tid, false);
+    request.granted();
     RwLockPolicy::after_wait_wlock(state_);
     RwLockPolicy::acquire_wlock(state_);
     e_owner_ = tid;
-    detail::validator::locked(reinterpret_cast<uintptr_t>(this), tid, false);
     return true;
   }
 
@@ -340,9 +361,10 @@ class basic_shared_timed_mutex : private detail::shared_mutex_base<RwLockPolicy>
         return false;
       }
     }
+    s_owner_.reserve(s_owner_.size() + 1);
+    detail::validator::locked(reinterpret_cast<uintptr_t>(this), tid, true);
     RwLockPolicy::acquire_rlock(state_);
     s_owner_.push_back(tid);
-    detail::validator::locked(reinterpret_cast<uintptr_t>(this), tid, true);
     return true;
   }
 
diff --git a/include/yamc_lock_validator.hpp b/include/yamc_lock_validator.hpp
index 37892cd..d39da54 100644
--- a/include/yamc_lock_validator.hpp
+++ b/include/yamc_lock_validator.hpp
@@ -158,9 +158,10 @@ public:
   static bool enqueue(uintptr_t mkey, std::thread::id tid, bool shared)
   {
     auto&& table = global_table();
-    table.mutexmap[mkey].waiters.push_back(tid);
     std::unordered_set<uintptr_t> visited;
-    if (find_closepath(table.mutexmap, mkey, tid, visited)) {
+    const bool closed = find_closepath(table.mutexmap, mkey, tid, visited);
+    table.mutexmap[mkey].waiters.push_back(tid);
+    if (closed) {
       // detect deadlock
       std::cout << "Thread#" << tid << " wait for Mutex#" << table.mutexmap[mkey].mid
         << " " << (shared ? "shared-lock" : "lock") << '\n';
-- 
2.43.0


From 0665ef46faf9bbb57ce700cf0d8f2284e005ae25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:24 +0000
Subject: [PATCH 21/22] fix: deadlock detection table is never destroyed

---
 include/yamc_lock_validator.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/yamc_lock_validator.hpp b/include/yamc_lock_validator.hpp
index d39da54..e7fa1fa 100644
--- a/include/yamc_lock_validator.hpp
+++ b/include/yamc_lock_validator.hpp
@@ -68,8 +68,9 @@ private:
 
   static table_ref global_table()
   {
-    static std::mutex global_guard;
-    static mutexmap_type global_mutexmap;
+    // never destroyed, checked mutexes may be used until the process ends
+    static std::mutex& global_guard = *new std::mutex();
+    static mutexmap_type& global_mutexmap = *new mutexmap_type();
     static std::size_t global_counter = 0;
     return { std::unique_lock<std::mutex>(global_guard), global_mutexmap, global_counter };
   }
-- 
2.43.0


From 2df709c200990104a1467dd5796c1a6a41d7b59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:56 +0000
Subject: [PATCH 22/22] fix: timed waits leave no trace when the clock throws

An exception out of Clock::now() left the request of a fair mutex in its queue
(a dangling pointer), the waiting writer of an alternate shared mutex counted
for ever, and could lose the notification an alternate timed mutex had sent to
the waiter.
---
 include/alternate_mutex.hpp        | 28 +++++++++++++++++++++++--
 include/alternate_shared_mutex.hpp | 15 +++++++++++++-
 include/fair_mutex.hpp             | 19 ++++++++++++++++-
 include/fair_shared_mutex.hpp      | 33 ++++++++++++++++++++++++++++--
 4 files changed, 89 insertions(+), 6 deletions(-)

diff --git a/include/alternate_mutex.hpp b/include/alternate_mutex.hpp
index d10e304..2cae109 100644
--- a/include/alternate_mutex.hpp
+++ b/include/alternate_mutex.hpp
@@ -108,12 +108,24 @@ class timed_mutex {
   std::condition_variable cv_;
   std::mutex mtx_;
 
+  // pass the notification on to another waiter when operations on Clock exit by an exception
+  template<typename Clock, typename Duration>
+  std::cv_status wait_until(std::unique_lock<std::mutex>& lk, const std::chrono::time_point<Clock, Duration>& tp)
+  {
+    try {
+      return cv_.wait_until(lk, tp);
+    } catch (...) {
+      cv_.notify_one();
+      throw;
+    }
+  }
+
   template<typename Clock, typename Duration>
   bool do_try_lockwait(const std::chrono::time_point<Clock, Duration>& tp)
   {
     std::unique_lock<decltype(mtx_)> lk(mtx_);
     while (state_ != 0) {
-      if (cv_.wait_until(lk, tp) == std::cv_status::timeout) {
+      if (wait_until(lk, tp) == std::cv_status::timeout) {
         if (state_ == 0)  // re-check predicate
           break;
         return false;
@@ -180,6 +192,18 @@ class recursive_timed_mutex {
   std::condition_variable cv_;
   std::mutex mtx_;
 
+  // pass the notification on to another waiter when operations on Clock exit by an exception
+  template<typename Clock, typename Duration>
+  std::cv_status wait_until(std::unique_lock<std::mutex>& lk, const std::chrono::time_point<Clock, Duration>& tp)
+  {
+    try {
+      return cv_.wait_until(lk, tp);
+    } catch (...) {
+      cv_.notify_one();
+      throw;
+    }
+  }
+
   template<typename Clock, typename Duration>
   bool do_try_lockwait(const std::chrono::time_point<Clock, Duration>& tp)
   {
@@ -190,7 +214,7 @@ class recursive_timed_mutex {
       return true;
     }
     while (ncount_ != 0) {
-      if (cv_.wait_until(lk, tp) == std::cv_status::timeout) {
+      if (wait_until(lk, tp) == std::cv_status::timeout) {
         if (ncount_ == 0)  // re-check predicate
           break;
         return false;
diff --git a/include/alternate_shared_mutex.hpp b/include/alternate_shared_mutex.hpp
index 4cd2ec2..9103ed6 100644
--- a/include/alternate_shared_mutex.hpp
+++ b/include/alternate_shared_mutex.hpp
@@ -143,13 +143,26 @@ class basic_shared_timed_mutex : private detail::shared_mutex_base<RwLockPolicy>
   using base::cv_;
   using base::mtx_;
 
+  // withdraw the waiting writer when operations on Clock exit by an exception
+  template<typename Clock, typename Duration>
+  std::cv_status wait_wlock_until(std::unique_lock<std::mutex>& lk, const std::chrono::time_point<Clock, Duration>& tp)
+  {
+    try {
+      return cv_.wait_until(lk, tp);
+    } catch (...) {
+      RwLockPolicy::after_wait_wlock(state_);
+      cv_.notify_all();  // readers might wait for this writer
+      throw;
+    }
+  }
+
   template<typename Clock, typename Duration>
   bool do_try_lockwait(const std::chrono::time_point<Clock, Duration>& tp)
   {
     std::unique_lock<decltype(mtx_)> lk(mtx_);
     RwLockPolicy::before_wait_wlock(state_);
     while (RwLockPolicy::wait_wlock(state_)) {
-      if (cv_.wait_until(lk, tp) == std::cv_status::timeout) {
+      if (wait_wlock_until(lk, tp) == std::cv_status::timeout) {
         if (!RwLockPolicy::wait_wlock(state_))  // re-check predicate
           break;
         RwLockPolicy::after_wait_wlock(state_);
diff --git a/include/fair_mutex.hpp b/include/fair_mutex.hpp
index 19744e6..c66bf61 100644
--- a/include/fair_mutex.hpp
+++ b/include/fair_mutex.hpp
@@ -222,6 +222,23 @@ public:
     }
   }
 
+  // withdraw the request when operations on Clock exit by an exception
+  template<typename Clock, typename Duration>
+  std::cv_status wait_request(std::unique_lock<std::mutex>& lk, const std::chrono::time_point<Clock, Duration>& tp, node* request)
+  {
+    try {
+      return cv_.wait_until(lk, tp);
+    } catch (...) {
+      if (queue_.next == request) {
+        wq_pop_front();
+        cv_.notify_all();  // next request might be waiting for this turn
+      } else {
+        wq_erase(request);
+      }
+      throw;
+    }
+  }
+
   bool impl_try_lock()
   {
     if (!wq_empty()) {
@@ -245,7 +262,7 @@ public:
       node request;
       wq_push_back(&request);
       while (queue_.next != &request) {
-        if (cv_.wait_until(lk, tp) == std::cv_status::timeout) {
+        if (wait_request(lk, tp, &request) == std::cv_status::timeout) {
           if (queue_.next == &request)  // re-check predicate
             break;
           wq_erase(&request);
diff --git a/include/fair_shared_mutex.hpp b/include/fair_shared_mutex.hpp
index b440bd0..ef7fadb 100644
--- a/include/fair_shared_mutex.hpp
+++ b/include/fair_shared_mutex.hpp
@@ -195,6 +195,35 @@ private:
     locked_.next = locked_.prev = nullptr;
   }
 
+  // withdraw the request when operations on Clock exit by an exception
+  template<typename Clock, typename Duration>
+  std::cv_status wait_request(std::unique_lock<std::mutex>& lk, const std::chrono::time_point<Clock, Duration>& tp, node* request)
+  {
+    try {
+      return cv_.wait_until(lk, tp);
+    } catch (...) {
+      const bool granted = (request->status == 3 || (request->status == 0 && queue_.next == request));
+      const bool unblock = (!granted && request->status == 0 && (request->prev->status & node_status_mask) == 3);
+      wq_erase(request);
+      if (granted) {
+        // release the lock at once
+        wq_push_locknode(request->status & 1);
+        if (request->status & 1) {
+          impl_unlock_shared();
+        } else {
+          impl_unlock();
+        }
+      } else if (unblock) {
+        // mark directly subsequent shared-lock nodes group as 'lockable'
+        for (node* p = request->next; p != &queue_ && (p->status & node_status_mask) == 1; p = p->next) {
+          p->status |= 2;
+        }
+        cv_.notify_all();
+      }
+      throw;
+    }
+  }
+
 protected:
   shared_mutex_base()
     : queue_{0, &queue_, &queue_} {}
@@ -282,7 +311,7 @@ protected:
       wq_push_back(&request);
       YAMC_DEBUG_DUMPQ("  try_lockwait/wait", &request, +1);
       while (queue_.next != &request) {
-        if (cv_.wait_until(lk, tp) == std::cv_status::timeout) {
+        if (wait_request(lk, tp, &request) == std::cv_status::timeout) {
           if (queue_.next == &request)  // re-check predicate
             break;
           if ((request.prev->status & node_status_mask) == 3) {
@@ -362,7 +391,7 @@ protected:
       wq_push_back(&request);
       YAMC_DEBUG_DUMPQ("  try_lockwait_shared/wait", &request, +1);
       while (request.status != 3) {
-        if (cv_.wait_until(lk, tp) == std::cv_status::timeout) {
+        if (wait_request(lk, tp, &request) == std::cv_status::timeout) {
           if (request.status == 3)  // re-check predicate
             break;
           YAMC_DEBUG_DUMPQ("<<try_lockwait_shared/timeout", &request, -1);
-- 
2.43.0


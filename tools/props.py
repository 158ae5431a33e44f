#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept here as readable source)."""
import json, os
I = "include/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over.split(), "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": [I + f for f in files], "state": [dict(name=a, meaning=b, where=I + c) for a, b, c in state],
                  "mechanism": [dict(name=a, where=I + b) for a, b in mech], "observe_at": list(observe), "hook_needed": None}})

ALLM = ["naive_spin_mutex.hpp", "ttas_spin_mutex.hpp", "alternate_mutex.hpp", "alternate_shared_mutex.hpp", "fair_mutex.hpp", "fair_shared_mutex.hpp", "checked_mutex.hpp", "checked_shared_mutex.hpp", "posix_native_mutex.hpp"]
RW = ["alternate_shared_mutex.hpp", "fair_shared_mutex.hpp", "checked_shared_mutex.hpp", "yamc_rwlock_sched.hpp", "posix_native_mutex.hpp"]
TIMED = ["alternate_mutex.hpp", "alternate_shared_mutex.hpp", "fair_mutex.hpp", "fair_shared_mutex.hpp", "checked_mutex.hpp", "checked_shared_mutex.hpp", "posix_native_mutex.hpp"]
OPS = ("return of lock/try_lock*/unlock and their shared forms",)

p("C01", "Exclusive ownership is exclusive",
  "For every mutex type, at any moment at most one thread owns it exclusively, whichever mix of lock, try_lock, try_lock_for/until and unlock calls the threads use. A thread that was told it acquired the mutex owns it until it unlocks (a recursive mutex: until as many unlocks as locks).",
  "schedules histories", "all interleavings of any number of threads, all operation histories, including spurious wakeups, timeouts racing with unlocks and weak-CAS failures",
  "The tests run a few threads under whatever schedule the OS gives, mostly with phasing that removes contention; a window of a few instructions is never hit.",
  ALLM, [("spin flag exchange/compare_exchange", "naive_spin_mutex.hpp"), ("owner/count state under an internal mutex and condvar predicate loops", "alternate_mutex.hpp"), ("ticket/wait-queue hand-off", "fair_mutex.hpp")],
  [("locked_/owner_/ncount_/queue", "who owns the mutex", "alternate_mutex.hpp")], OPS)
p("C02", "Readers and a writer never overlap; readers share",
  "For every shared mutex type, while a thread holds the exclusive lock no other thread holds it exclusively or shared, and while any thread holds a shared lock nobody holds the exclusive one. Any number of threads can hold shared locks at the same time, and the lock becomes free exactly when the last of them has released it.",
  "schedules histories", "all interleavings and histories of exclusive/shared/timed operations, any number of readers",
  "Tests use a handful of readers and one writer in fixed phases; reader-count bookkeeping errors and races on the last release need particular interleavings or many readers.",
  RW, [("policy state (reader count / writer flag)", "yamc_rwlock_sched.hpp"), ("per-lock wait queue with status count", "fair_shared_mutex.hpp")],
  [("rw_state_", "reader count, writer flag and waiting writers", "alternate_shared_mutex.hpp")], OPS)
p("C03", "Synchronisation orders memory: no data races",
  "Everything a thread did before releasing a mutex (exclusive or shared), releasing a semaphore, counting down a latch or arriving at a barrier happens-before what a thread does after the acquisition, wait or barrier phase that the release made possible. Programs whose plain data is protected by these objects are free of data races, and so are the library's own internals.",
  "schedules histories", "all interleavings and all hardware reorderings the C++ memory model allows",
  "x86 tests never see missing acquire/release ordering, and an unprotected internal access is only visible to a race detector watching the right schedule.",
  ALLM + ["yamc_semaphore.hpp", "posix_semaphore.hpp", "yamc_latch.hpp", "yamc_barrier.hpp", "yamc_lock_validator.hpp"],
  [("memory_order arguments of the spin flag operations", "naive_spin_mutex.hpp"), ("memory_order arguments of the test-and-test-and-set loop", "ttas_spin_mutex.hpp"), ("all other state only under internal mutexes", "alternate_mutex.hpp")],
  [], ("plain accesses of client data in critical sections", "every atomic/plain access inside the library"))
p("C04", "try_lock never blocks and tells the truth",
  "try_lock and try_lock_shared return without waiting for other owners. They return true exactly when the caller now owns the lock in the requested mode; they return false only when the lock was held (or reserved for earlier or preferred waiters) in a conflicting way at that time, except that types built on a weak compare-exchange may fail spuriously. A failed attempt changes nothing for anybody else.",
  "schedules histories", "all states of the lock at the call (free, owned by self/others, waiters queued, waiters just timed out) and all interleavings",
  "Tests only try uncontended and plainly held locks; leftovers of earlier timeouts or failed attempts, queue states and races are not sampled.",
  ALLM, [("try paths of each type", "alternate_shared_mutex.hpp"), ("queue-empty test in the try path", "fair_mutex.hpp")], [], OPS)
p("C05", "Timed acquisitions honour their deadline",
  "try_lock_for/until and their shared forms give up no earlier than their deadline on the clock it was given for, return promptly once it has passed whatever clock adjustments or spurious wakeups happen, and return true exactly when the caller owns the lock. They do not report a timeout when the lock was available to the caller, for any duration or time point type including zero, negative and already passed ones.",
  "schedules inputs histories", "all durations/time points (signs, representations, clocks), clock jumps, and all races between timeout, grant and spurious wakeup",
  "Tests use one or two fixed timeouts with real sleeping and generous margins; past deadlines, other clocks, clock jumps and timeout-versus-grant races are not reached.",
  TIMED, [("do_try_lockwait predicate re-check after wait_until timeout", "alternate_mutex.hpp"), ("dequeue of a timed-out waiter", "fair_mutex.hpp"), ("timespec conversion", "posix_native_mutex.hpp")],
  [], ("return value and virtual time of every timed call",))
p("C06", "A released lock is passed on: no lost wakeups",
  "Whenever a lock becomes available to a blocked thread, some eligible blocked thread acquires it without any further call by others; unlock itself never waits. In particular a waiter that gives up (timeout, deadlock report) never leaves other eligible threads blocked.",
  "schedules histories", "all interleavings of waiters arriving, timing out and being woken, any wakeup choice by the condition variables",
  "A lost wakeup is a hang that needs a particular order of waiting, notification and timeout; tests use one waiter at a time and would only time out.",
  TIMED + ["naive_spin_mutex.hpp", "ttas_spin_mutex.hpp"], [("notify on unlock", "alternate_mutex.hpp"), ("wait_wlock/release_wlock accounting with notify", "alternate_shared_mutex.hpp"), ("queue hand-off", "fair_shared_mutex.hpp")],
  [], ("threads still blocked when the system is quiescent",))
p("C07", "Recursive mutexes count ownership",
  "The owner of a recursive mutex can acquire it again by lock, try_lock or a timed try at any depth without blocking, whoever else is waiting. The mutex is released to others exactly at the matching outermost unlock, not before and not later.",
  "schedules inputs histories", "all nesting depths, mixes of acquisition calls, and interleavings with competing threads",
  "Tests nest to a depth of a few with no contention; counter width, timed/try paths of the owner and waiters queued during nesting are not covered.",
  ["alternate_mutex.hpp", "fair_mutex.hpp", "checked_mutex.hpp", "posix_native_mutex.hpp"], [("owner thread id and nesting count", "alternate_mutex.hpp"), ("owner and count", "fair_mutex.hpp")],
  [("ncount_/owner_", "nesting depth and owner", "alternate_mutex.hpp")], OPS)
p("C08", "Reader- and writer-preference are honoured",
  "A reader-preferring shared mutex admits a reader (blocking, try or timed) whenever no writer holds it, even if writers wait. A writer-preferring one admits no new reader while a writer is waiting, and admits readers again as soon as no writer holds or waits (including when the waiting writer timed out or was refused); the policy chosen as template argument or configuration macro is the one in effect.",
  "schedules histories configurations", "all states of holders and waiters (including waiters that gave up), both policies, all types that take the policy",
  "Tests check one state per policy; residue of timed-out or failed writers and mixes of try/timed readers are not explored.",
  ["yamc_rwlock_sched.hpp", "alternate_shared_mutex.hpp", "checked_shared_mutex.hpp"], [("ReaderPrefer/WriterPrefer predicates", "yamc_rwlock_sched.hpp"), ("before_wait_wlock/after_wait_wlock pairing", "alternate_shared_mutex.hpp")],
  [], OPS)
p("C09", "Fair mutexes are first-come first-served",
  "The fair mutexes (plain, recursive, timed) grant the lock to blocked threads in the order in which they started waiting; a waiter that times out just leaves the line without disturbing the others. A thread that releases the mutex and immediately locks again, and a try_lock, cannot overtake threads already waiting.",
  "schedules histories", "all orders of arrival, timeouts inside the line, barging attempts and interleavings",
  "FIFO order is a statement about every arrival order and every schedule; tests check two or three queued threads with sleeps.",
  ["fair_mutex.hpp"], [("wait queue / ticket order", "fair_mutex.hpp"), ("removal of a timed-out node", "fair_mutex.hpp")], [], OPS)
p("C10", "Task-fair shared mutexes admit in arrival order",
  "A shared mutex with task fairness admits waiting readers and writers strictly in order of arrival: a reader never overtakes an earlier waiting writer nor a writer an earlier waiting reader, and consecutive waiting readers at the head of the line are admitted together. Waiters that time out leave the line without disturbing or blocking the others.",
  "schedules histories", "all arrival orders of readers/writers, timeouts inside the line, interleavings",
  "Tests fix one arrival pattern; queue surgery on timeout and admission after each kind of release need many patterns.",
  ["fair_shared_mutex.hpp"], [("TaskFairness wait queue and wq_push_locknode", "fair_shared_mutex.hpp")], [], OPS)
p("C11", "Phase-fair shared mutexes alternate reader and writer phases",
  "A shared mutex with phase fairness admits waiters in order of arrival except that, when a writer releases the lock and a reader is next in line, all readers waiting at that time are admitted together, also those behind waiting writers. Newly arriving readers do not overtake a waiting writer, so neither side starves, and waiters that time out leave the line without disturbing or blocking the others.",
  "schedules histories", "all arrival orders of readers/writers, timeouts inside the line, interleavings",
  "Tests fix one arrival pattern; the re-ordering at the end of a writer phase and its combination with timeouts is not explored.",
  ["fair_shared_mutex.hpp"], [("PhaseFairness re-ordering of the wait queue on unlock", "fair_shared_mutex.hpp")], [], OPS)
p("C12", "Checked mutexes report misuse by exception and stay intact",
  "On the checked mutexes, unlocking a lock the caller does not own (in that mode) throws system_error operation_not_permitted, re-acquiring one it already owns (non-recursive, or mixed modes on a shared mutex) throws resource_deadlock_would_occur, and destroying an owned mutex throws. Such a call never blocks and leaves the mutex and other threads' ownership unchanged; no correct call is ever reported.",
  "histories schedules", "all histories of correct and incorrect calls by any thread, any ownership state, any interleaving",
  "Tests check each misuse once on a fresh mutex in one state; they do not check that the object is unharmed afterwards or that correct histories stay silent.",
  ["checked_mutex.hpp", "checked_shared_mutex.hpp", "yamc_lock_validator.hpp"], [("owner checks before state changes", "checked_mutex.hpp"), ("owner table of the validator", "yamc_lock_validator.hpp")],
  [], ("outcome of every call including thrown error codes",))
p("C13", "Checked mutexes in abort mode stop the process exactly on misuse",
  "When the checked mutexes are configured to abort, every misuse or detected deadlock terminates the process by std::abort instead of returning or throwing, and no correct program is ever aborted.",
  "histories schedules configurations", "all histories of correct and incorrect calls under the abort configuration",
  "The test suite only builds the exception configuration.",
  ["checked_mutex.hpp", "checked_shared_mutex.hpp", "yamc_lock_validator.hpp"], [("YAMC_CHECKED_CALL_ABORT branches", "checked_mutex.hpp")], [], ("termination status of the process",))
p("C14", "Every deadlock among checked mutexes is reported",
  "When threads blocked in lock() or lock_shared() of checked mutexes form a cycle in which each waits for a lock owned by the next, whatever the mix of exclusive, shared and recursive checked mutexes and the number of threads, at least one of them gets resource_deadlock_would_occur instead of the group blocking forever. The others continue normally once the reported thread gives up its locks.",
  "schedules histories", "all cycle shapes, lengths and orders of arrival, with any other waiting and owning around them",
  "Tests build one two-thread cycle per type; longer cycles, shared owners, leftovers of earlier waits and racing waiters are not covered.",
  ["yamc_lock_validator.hpp", "checked_mutex.hpp", "checked_shared_mutex.hpp"], [("owner/waiter tables and find_closepath search", "yamc_lock_validator.hpp")],
  [("lock table", "owners and waiters of every checked mutex", "yamc_lock_validator.hpp")], OPS)
p("C15", "No deadlock is reported where there is none",
  "A checked mutex reports a deadlock to a lock() or lock_shared() call only if the calling thread really is part of a cycle of threads each waiting for a lock owned by the next; try and timed acquisitions neither get nor cause such reports. After a report the mutexes involved behave as if the refused call had not been made.",
  "schedules histories", "all wait-for graphs without a cycle, all leftovers of earlier waits, timeouts, reports and destroyed mutexes",
  "Tests contain a single false-positive scenario; stale owner or waiter records need histories with several threads and mutexes.",
  ["yamc_lock_validator.hpp", "checked_mutex.hpp", "checked_shared_mutex.hpp"], [("owner/waiter table maintenance", "yamc_lock_validator.hpp")], [], OPS)
p("C16", "Semaphores conserve permits",
  "For both semaphore implementations, the number of completed acquisitions never exceeds the initial count plus the released permits, and no permit is lost: whenever permits are available no acquirer stays blocked, and try_acquire fails only when the count is zero at that time. This holds for any release size and any count the type supports.",
  "schedules histories inputs", "all interleavings of acquire/try/timed/release, release sizes and initial counts including very large ones",
  "Tests use one releaser and one or two acquirers; several blocked acquirers with one bulk release, and timeouts racing with releases are not explored.",
  ["yamc_semaphore.hpp", "posix_semaphore.hpp"], [("counter and notify in release", "yamc_semaphore.hpp"), ("sem_post loop", "posix_semaphore.hpp")], [("counter_", "available permits", "yamc_semaphore.hpp")], ("return of acquire/try_acquire*/release",))
p("C17", "Timed semaphore waits honour deadlines and survive signals",
  "try_acquire_for/until return false only at or after their deadline with no permit available, return promptly after it, and otherwise take exactly one permit, for any duration or time point including past ones and for any clock. Blocking and timed waits are unaffected by spurious wakeups and by signal handlers interrupting the thread.",
  "schedules inputs fault_sequences", "all deadlines and clocks, clock jumps, signal interruptions at any moment",
  "Tests never deliver a signal and use fixed positive timeouts.",
  ["yamc_semaphore.hpp", "posix_semaphore.hpp"], [("predicate re-check after timeout", "yamc_semaphore.hpp"), ("errno handling and timespec conversion", "posix_semaphore.hpp")], [], ("return value and virtual time of every timed call",))
p("C18", "A latch opens exactly at zero and stays open",
  "wait and arrive_and_wait return only after the latch's count has reached zero, and then all present and future waiters return and try_wait is true for ever; before that try_wait is false. Any mix of count_down and arrive_and_wait amounts summing to the initial count opens it, including an initial count of zero.",
  "schedules histories inputs", "all splits of the count into calls, all interleavings, any number of waiters",
  "Tests use one pattern of equal threads.",
  ["yamc_latch.hpp"], [("counter with notify_all at zero", "yamc_latch.hpp")], [("counter_", "remaining count", "yamc_latch.hpp")], ("return of wait/try_wait/arrive_and_wait",))
p("C19", "Barrier phases complete once, in order, with everyone accounted for",
  "A barrier phase completes exactly when the expected number of arrivals has been made; the completion function then runs exactly once, before any thread waiting for that phase is released, and after all of that phase's arrivals. Every waiter of the phase is released even if others already run ahead into later phases, and this stays true for any number of phases and for tokens of the current and previous phase.",
  "schedules histories", "all interleavings of arrive/wait/arrive_and_wait over many phases",
  "Tests run a few phases with lock-step threads; fast threads re-arriving before slow waiters wake and phase-counter wrap-around are not reached.",
  ["yamc_barrier.hpp"], [("phase number compared by waiters", "yamc_barrier.hpp"), ("phase_completion_step", "yamc_barrier.hpp")], [("phase_/counter_", "current phase and outstanding arrivals", "yamc_barrier.hpp")], ("completion function calls", "return of wait/arrive_and_wait"))
p("C20", "Dropping out of a barrier lowers later phases only",
  "arrive_and_drop counts as an arrival for the current phase and reduces the number of arrivals expected in every later phase by one, for each dropping thread, however many drop in the same or different phases.",
  "schedules histories", "all numbers and orders of dropping and staying participants over several phases",
  "The test drops one participant at a time in one order.",
  ["yamc_barrier.hpp"], [("initial expected count adjustment", "yamc_barrier.hpp")], [("init_count_", "expected arrivals of later phases", "yamc_barrier.hpp")], ("phase completion after drops",))
p("C21", "shared_lock owns what it says and releases exactly once",
  "Through any sequence of construction, lock/try/timed calls, unlock, move, swap and release, a shared_lock calls the mutex's shared operations exactly as std::shared_lock would: ownership is released exactly once, owns_lock()/mutex() reflect the state, errors are reported as the same system_error codes, and an exception thrown by the mutex leaves it consistent.",
  "histories fault_sequences", "all operation sequences over several lock objects and mutexes, with failing and throwing mutex operations",
  "Tests check each operation once from one state.",
  ["yamc_shared_lock.hpp"], [("pm_/owns_ updates after the mutex call", "yamc_shared_lock.hpp")], [], ("sequence of calls reaching the mutex", "owns_lock/mutex"))
p("C22", "scoped_lock holds all its mutexes, without deadlock",
  "While a scoped_lock exists its thread owns every mutex passed to it and on destruction each is released exactly once (adopting takes them as already locked); threads locking the same mutexes in different orders never deadlock. If acquiring fails by an exception none of them stays locked.",
  "schedules inputs fault_sequences", "all numbers and orders of mutexes, all yamc mutex types, all interleavings, failing acquisitions",
  "Tests check single-threaded use with two mutexes.",
  ["yamc_scoped_lock.hpp"], [("std::lock in the constructor, unlock over the tuple in the destructor", "yamc_scoped_lock.hpp")], [], ("mutex calls during construction/destruction",))
p("C23", "Objects may be destroyed after their last use is logically over",
  "A mutex may be destroyed as soon as no thread owns or waits for it, a semaphore, latch or barrier as soon as the waits it was created for have returned, even if the thread whose unlock, release, count_down or arrival made that happen has not yet returned from the call: that call no longer touches the object.",
  "schedules", "all interleavings of the last release with the destruction by the thread it let through",
  "The window between making the release visible and returning is a few instructions; tests keep objects alive until all threads are joined.",
  ALLM + ["yamc_semaphore.hpp", "yamc_latch.hpp", "yamc_barrier.hpp", "posix_semaphore.hpp"], [("notification while the internal mutex is held; internal mutex release is the last access", "yamc_semaphore.hpp"), ("single atomic store as the last access", "ttas_spin_mutex.hpp")],
  [], ("every memory access of the library to the object's storage",))
p("C24", "No undefined behaviour in correct use",
  "Correct use of any type, at any scale, in any thread pattern, performs no out-of-bounds or use-after-free access, leak, uninitialised read, signed overflow, failed internal assertion, misuse of the underlying pthread objects or crash.",
  "schedules inputs histories", "all correct programs, including large depths, counts, numbers of threads and extreme time values",
  "The test suite is not run under sanitizers and does not approach limits.",
  ALLM + ["yamc_semaphore.hpp", "yamc_latch.hpp", "yamc_barrier.hpp", "posix_semaphore.hpp", "yamc_lock_validator.hpp", "yamc_shared_lock.hpp", "yamc_scoped_lock.hpp"],
  [("intrusive wait queue nodes on waiters' stacks", "fair_shared_mutex.hpp"), ("validator table", "yamc_lock_validator.hpp")], [], ("sanitizer reports", "pthread return codes and misuse monitor"))
p("C25", "POSIX wrappers and their native handles agree",
  "The native mutex, recursive mutex, rwlock and spinlock wrappers are exactly the pthread object returned by native_handle: locking through either side is seen by the other, the recursive wrapper is recursive and the others are not, and construction/destruction initialise and destroy that object once. The platform alias types behave the same.",
  "histories schedules", "all interleavings of wrapper calls with direct pthread calls on the handle",
  "Tests only check that native_handle compiles/returns.",
  ["posix_native_mutex.hpp"], [("native_handle", "posix_native_mutex.hpp"), ("attribute set-up of the recursive mutex", "posix_native_mutex.hpp")], [], ("pthread calls reaching the handle",))
p("C26", "Contended spin mutexes follow their backoff policy",
  "While a spin mutex cannot be acquired, the yield policy yields the processor on every failed attempt, the exponential policy yields with intervals that start at its initial count and shrink until it yields on (nearly) every attempt, and the busy policy never yields; the policy selected by template argument or macro is the one used, and an acquisition that succeeds at once does not yield. Backoff state is per acquisition.",
  "schedules configurations", "all contention lengths, policies, initial counts and spin mutex types",
  "Tests check that spinning eventually succeeds, not how it waits.",
  ["yamc_backoff_spin.hpp", "naive_spin_mutex.hpp", "ttas_spin_mutex.hpp"], [("backoff policy wait()", "yamc_backoff_spin.hpp"), ("call in the acquisition loop", "ttas_spin_mutex.hpp")], [], ("sched_yield calls between attempts",))
p("C27", "Objects are independent and start fresh",
  "Operations on one object never block, fail or change the outcome of operations on another, even with many objects used at once or objects created and destroyed by other threads meanwhile. An object created where an earlier one was destroyed, or used by a thread that took over from a finished one, behaves like a new object.",
  "histories schedules", "all sets of objects, creation/destruction orders and address reuse",
  "Tests use one object at a time; the checked mutexes share global tables keyed by address that tests never reuse.",
  ["yamc_lock_validator.hpp", "checked_mutex.hpp", "checked_shared_mutex.hpp", "fair_shared_mutex.hpp", "alternate_mutex.hpp"], [("registration/unregistration in the validator table", "yamc_lock_validator.hpp")], [], OPS)
p("C28", "Configuration macros select documented behaviour",
  "Each documented configuration macro has exactly its documented effect: default reader/writer policy, default fairness, default backoff and initial count, the least maximum count of the default semaphore, ending the process instead of throwing on misuse and detected deadlock, printing diagnostics without changing any result, disabling deadlock detection (misuse still reported, but a cycle of waiting threads simply blocks and is never reported). Without macros the documented defaults apply.",
  "configurations histories", "all documented macro settings, over the same workloads as the types they configure",
  "The test suite builds only the default configuration.",
  ["yamc_rwlock_sched.hpp", "fair_shared_mutex.hpp", "yamc_backoff_spin.hpp", "yamc_lock_validator.hpp", "checked_mutex.hpp", "checked_shared_mutex.hpp"], [("default macros", "alternate_shared_mutex.hpp"), ("null validator when detection is off", "yamc_lock_validator.hpp")], [], OPS)
p("C29", "Windows and macOS wrappers keep the promises of their kind",
  "Given native primitives that behave as documented, the Windows and macOS types (win::native_mutex, critical_section, slim_rwlock and their aliases, win and gcd semaphores, apple::unfair_lock) behave as mutexes, recursive mutexes, shared mutexes and semaphores should: exclusion, readers sharing, recursion where documented, permits conserved and waiters woken, timed calls that give up neither before nor long after their deadline for any duration, clock or time point, even though native waits may end a tick early. native_handle designates the very object the wrapper uses. A failing native call is reported by an exception (false from the plain try functions), never taken for success, and every native object created is destroyed exactly once.",
  "schedules histories inputs fault_sequences", "all interleavings, histories, deadlines and clocks, and failures of any native call",
  "The test suite builds these headers only on their own platforms, never with failing calls or extreme timeouts, and not at all here.",
  ["win_native_mutex.hpp", "win_semaphore.hpp", "gcd_semaphore.hpp", "apple_native_mutex.hpp"],
  [("timeout conversion to milliseconds", "win_native_mutex.hpp"), ("result codes of WaitForSingleObject/ReleaseSemaphore", "win_semaphore.hpp"), ("conversion to dispatch_time/walltime", "gcd_semaphore.hpp")],
  [("native object", "the lock or permit count itself", "win_native_mutex.hpp")], OPS + ("calls reaching the native API",))
p("C30", "A call that fails for lack of memory has no effect",
  "The checked mutexes keep their bookkeeping on the heap. When an allocation fails inside lock, try_lock, try_lock_for/until or their shared forms, the call throws std::bad_alloc and has no effect: the caller owns nothing it did not own before, nobody else is held back or left waiting, and neither the mutex nor deadlock detection remembers the attempt. Every later call behaves as if the failed one had never been made. unlock and unlock_shared never fail for lack of memory.",
  "fault_sequences schedules histories", "an allocation failure at any allocation of any call, in all histories and interleavings",
  "The tests never run out of memory, and what a failed call leaves behind shows only in later calls of other threads.",
  ["checked_mutex.hpp", "checked_shared_mutex.hpp", "yamc_lock_validator.hpp"],
  [("registration before the state changes", "checked_mutex.hpp"), ("writer_request withdraws a waiting writer", "checked_shared_mutex.hpp"), ("owner and waiter lists", "yamc_lock_validator.hpp")],
  [("s_owner_", "shared owners of the mutex", "checked_shared_mutex.hpp"), ("mutexmap", "owners and waiters known to deadlock detection", "yamc_lock_validator.hpp")], OPS)
p("C31", "How the library is compiled does not change its promises",
  "Every type keeps all its promises whatever the library is compiled with: internal assertions on or off (NDEBUG), any optimisation level, any supported compiler and language standard, and the library's own diagnostic output (YAMC_CHECK_VERBOSE, YAMC_DEBUG_TRACING) on or off. Assertions and diagnostics only observe: they change neither state, nor results, nor who waits for whom.",
  "configurations schedules histories", "all build modes, over the workloads of the other properties",
  "The test suite is built once, in one mode, without diagnostics; a side effect inside an assertion or a dump routine shows in another mode only.",
  ALLM + ["yamc_semaphore.hpp", "yamc_latch.hpp", "yamc_barrier.hpp", "yamc_lock_validator.hpp"], [("assert() in every type", "fair_shared_mutex.hpp"), ("wq_dump and trace macros", "fair_shared_mutex.hpp"), ("dump_mutexmap", "yamc_lock_validator.hpp")], [], OPS)
p("C32", "Objects work from before main until the process has ended",
  "Every type may have static, thread-local, automatic or dynamic storage duration and keeps its promises throughout its lifetime: in constructors of globals before main, in destructors of globals and of thread-local objects, in exit handlers, in background threads which still run while the process exits, in any order of construction and destruction, also when the object is never destroyed. Using yamc objects then never touches anything of the library that has already been destroyed.",
  "histories configurations", "all orders of construction, first use and destruction, of any number of objects and threads",
  "Every test creates and destroys its objects inside one test function while main is running.",
  ["yamc_lock_validator.hpp"] + ALLM + ["yamc_semaphore.hpp", "yamc_latch.hpp", "yamc_barrier.hpp"], [("function-local static table of the deadlock detection", "yamc_lock_validator.hpp"), ("constructors of the types", "posix_native_mutex.hpp")],
  [("global_table", "owners and waiters of all checked mutexes of the process", "yamc_lock_validator.hpp")], OPS)
p("C33", "The types work under the standard library's algorithms",
  "Every mutex type meets the requirements of the standard for its kind (Lockable, SharedLockable, TimedLockable ...), so the standard facilities built on those requirements keep their promises with it: std::lock over any set of mutexes, in any order, in any number of threads ends with all of them owned and never deadlocks (also with deadlock detection on, without a false report); std::try_lock owns all or none; unique_lock, lock_guard and shared_lock (std's and yamc's) own exactly what they say; and a std::condition_variable_any waiting on any of the types, exclusively or shared, releases it while waiting, owns it again afterwards (also after a timeout), and loses neither notifications nor updates.",
  "schedules inputs histories", "all schedules, subsets and orders of mutexes of mixed types, spurious wakeups and timeouts",
  "The tests use the mutexes one at a time with lock_guard-like calls; std::lock and condition_variable_any appear in no concurrent test.",
  ALLM, [("lock/try_lock/unlock of every type", "fair_shared_mutex.hpp"), ("checked mutexes under std::lock", "checked_mutex.hpp")], [], OPS)
p("C34", "Waiting threads sleep",
  "A thread that has to wait in any type other than the spin mutexes - for a mutex, in any mode, a semaphore, latch or barrier - is suspended and consumes no processor time: it neither polls nor yields nor wakes up periodically. While nothing happens to the object, a blocking call stays asleep for ever and a timed call until its deadline, however far away; a waiter that was woken in vain goes back to sleep.",
  "schedules inputs histories", "all waits of all calls, any number of waiters, spurious wakeups, any deadline",
  "A polling implementation returns the same results; the tests look at results only.",
  [h for h in ALLM if "spin" not in h] + ["yamc_semaphore.hpp", "yamc_latch.hpp", "yamc_barrier.hpp", "posix_semaphore.hpp"], [("condition waits of every type", "fair_shared_mutex.hpp"), ("timed waits", "alternate_shared_mutex.hpp"), ("wait loops", "yamc_barrier.hpp")], [], OPS)
p("C35", "A timed call whose clock fails has no effect",
  "The clock of a deadline may be the user's, and reading it may throw. A timed acquisition (of any timed mutex, exclusively or shared, or semaphore) during which that happens may end only by that very exception, or with the result it would have had anyway: it never turns the failure into a false 'timed out' or 'acquired', and never terminates the program. A call that ends by the exception is as if it had not been made: the caller does not own the lock, nothing stays registered on its behalf, readers it held back may enter, the waiters behind it keep their place, and no wakeup or permit that was meant for it is lost to the others; the object remains usable.",
  "inputs schedules histories", "any reading of the clock failing, while waiting, before, or when the lock was just handed over; all other calls going on",
  "No test uses a clock of its own, let alone one that fails.",
  [h for h in ALLM if "spin" not in h] + ["yamc_semaphore.hpp", "posix_semaphore.hpp"], [("queued requests of timed waits", "fair_shared_mutex.hpp"), ("waiting writers", "alternate_shared_mutex.hpp"), ("timed waits and notifications", "alternate_mutex.hpp"), ("timed acquisitions", "yamc_semaphore.hpp")], [], OPS)
p("C36", "Separately compiled parts of a program share one library",
  "The headers may be included, in any order, by any number of source files and shared libraries of one program, built with any visibility settings; the result links, and objects may be created, used and destroyed from all parts alike: every type keeps all its promises when the calls on one object come from different parts. In particular the deadlock detection of the checked mutexes sees the acquisitions and waits made by every part, so a deadlock between threads running in different parts is reported, and nothing else is.",
  "configurations schedules histories", "all ways to spread the calls on shared objects over parts, over the workloads of the other properties",
  "Every test is one source file.",
  ALLM + ["yamc_semaphore.hpp", "yamc_latch.hpp", "yamc_barrier.hpp", "yamc_lock_validator.hpp", "posix_semaphore.hpp"], [("process-wide table of the deadlock detection", "yamc_lock_validator.hpp"), ("functions defined in headers", "fair_shared_mutex.hpp")],
  [("global_table", "owners and waiters of all checked mutexes of the process", "yamc_lock_validator.hpp")], OPS)
if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
        for x in P: f.write(json.dumps(x) + "\n")

// POSIX wrappers on the real pthread library: every step is one call, through the wrapper or on native_handle(),
// made by one of three real threads on command; results are compared with an owner/reader model. The pthread
// initialisation and destruction calls on the handle are counted.
#include "../h/common.h"
#include <atomic>
#include <cerrno>
#include <condition_variable>
#include <dlfcn.h>
#include <functional>
#include <mutex>
#include <thread>
#include <unistd.h>
#include <new>
#include <type_traits>
#include <pthread.h>
#include "posix_native_mutex.hpp"
#include "posix_semaphore.hpp"
#include "rstub.h"
namespace p = yamc::posix;
static std::atomic<const void*> watch_lo{nullptr}; static std::atomic<size_t> watch_n{0};
static std::atomic<int> inits{0}, destroys{0}, attr_i{0}, attr_d{0}; static const void* last_init; static const void* last_destroy; static int last_shared;
static bool watched(const void* q) { const char* l = (const char*)watch_lo.load(); return l && (const char*)q >= l && (const char*)q < l + watch_n.load(); }
template <class F> static F nxt(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
static void on_init(const void* o) { if (watched(o)) { inits++; last_init = o; } }
static void on_destroy(const void* o) { if (watched(o)) { destroys++; last_destroy = o; } }
extern "C" {
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { static auto f = nxt<int (*)(pthread_mutex_t*, const pthread_mutexattr_t*)>("pthread_mutex_init"); on_init(m); return f(m, a); }
int pthread_mutex_destroy(pthread_mutex_t* m) { static auto f = nxt<int (*)(pthread_mutex_t*)>("pthread_mutex_destroy"); on_destroy(m); return f(m); }
int pthread_rwlock_init(pthread_rwlock_t* m, const pthread_rwlockattr_t* a) { static auto f = nxt<int (*)(pthread_rwlock_t*, const pthread_rwlockattr_t*)>("pthread_rwlock_init"); on_init(m); return f(m, a); }
int pthread_rwlock_destroy(pthread_rwlock_t* m) { static auto f = nxt<int (*)(pthread_rwlock_t*)>("pthread_rwlock_destroy"); on_destroy(m); return f(m); }
int pthread_spin_init(pthread_spinlock_t* m, int a) { static auto f = nxt<int (*)(pthread_spinlock_t*, int)>("pthread_spin_init"); on_init((const void*)m); last_shared = a; return f(m, a); }
int pthread_spin_destroy(pthread_spinlock_t* m) { static auto f = nxt<int (*)(pthread_spinlock_t*)>("pthread_spin_destroy"); on_destroy((const void*)m); return f(m); }
int pthread_mutexattr_init(pthread_mutexattr_t* a) { static auto f = nxt<int (*)(pthread_mutexattr_t*)>("pthread_mutexattr_init"); attr_i++; return f(a); }
int pthread_mutexattr_destroy(pthread_mutexattr_t* a) { static auto f = nxt<int (*)(pthread_mutexattr_t*)>("pthread_mutexattr_destroy"); attr_d++; return f(a); }
}
// Fault injection: the next conditional acquisition of the watched object by this thread fails with this code.
static thread_local int t_inject = 0, t_granted = 0;
static std::atomic<uint64_t> injected{0};
static int ret(int r) { if (r == 0) t_granted++; return r; }
#define COND(name, args, call, obj) \
  extern "C" int name args noexcept(noexcept(name call)) { static auto f = nxt<int (*) args>(#name); if (t_inject && watched((const void*)obj)) { int e = t_inject; t_inject = 0; injected++; return e; } return ret(f call); }
COND(pthread_mutex_trylock, (pthread_mutex_t* m), (m), m)
COND(pthread_mutex_timedlock, (pthread_mutex_t* m, const struct timespec* t), (m, t), m)
COND(pthread_rwlock_tryrdlock, (pthread_rwlock_t* m), (m), m)
COND(pthread_rwlock_trywrlock, (pthread_rwlock_t* m), (m), m)
COND(pthread_rwlock_timedrdlock, (pthread_rwlock_t* m, const struct timespec* t), (m, t), m)
COND(pthread_rwlock_timedwrlock, (pthread_rwlock_t* m, const struct timespec* t), (m, t), m)
COND(pthread_spin_trylock, (pthread_spinlock_t* m), (m), m)
using vs::Rng;
static std::string tname;
static std::string hist;
[[noreturn]] static void fail(const std::string& d) { vs::violation("native-handle", tname + ": " + d + "\nhistory: " + hist + "\n"); }

// three threads that carry out single calls
struct Worker { std::mutex m; std::condition_variable cv; std::function<int()> job; bool has = false, done = true; int res = 0; std::thread th; };
static Worker W[3];
static void worker(int t) {
  vs::set_self(t, 1);
  Worker& w = W[t];
  std::unique_lock<std::mutex> l(w.m);
  for (;;) { w.cv.wait(l, [&] { return w.has; }); auto j = w.job; l.unlock(); int r = j(); l.lock(); w.res = r; w.has = false; w.done = true; w.cv.notify_all(); }
}
static void start(int t, std::function<int()> f) { Worker& w = W[t]; std::lock_guard<std::mutex> l(w.m); w.job = std::move(f); w.has = true; w.done = false; w.cv.notify_all(); }
static bool finished(int t, int ms) { Worker& w = W[t]; std::unique_lock<std::mutex> l(w.m); return w.cv.wait_for(l, std::chrono::milliseconds(ms), [&] { return w.done; }); }
static struct timespec in(int64_t ns) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); int64_t v = ts.tv_sec * 1000000000ll + ts.tv_nsec + ns; ts.tv_sec = v / 1000000000; ts.tv_nsec = v % 1000000000; return ts; }

enum { MU, RW, SP };
template <class M, int K, bool REC> static void run_type(Rng& R, const char* name) {
  tname = name; hist.clear();
  alignas(64) static char mem[256];
  memset(mem, 0xA5, sizeof mem);
  inits = destroys = attr_i = attr_d = 0; last_init = last_destroy = nullptr;
  watch_n = sizeof(M); watch_lo = mem;
  M* m = new (mem) M();
  auto h = m->native_handle();
  using H = typename std::remove_pointer<decltype(h)>::type;
  static_assert(std::is_pointer<typename M::native_handle_type>::value && std::is_same<decltype(h), typename M::native_handle_type>::value, "native_handle_type");
  static_assert(!std::is_copy_constructible<M>::value && !std::is_copy_assignable<M>::value, "copyable");
  if ((const char*)h < mem || (const char*)h + sizeof(H) > mem + sizeof(M)) fail("native_handle() does not point into the wrapper");
  if (inits > 1) fail(strf("construction initialised the object %d times", inits.load()));
  if (inits == 1 && last_init != (const void*)h) fail("construction initialised something else than native_handle()");
  if (attr_i != attr_d) fail("mutex attributes initialised but not destroyed");
  int owner = -1, cnt = 0; int rd[3] = {0, 0, 0};
  uint64_t hh = 1;
  int pending = -1; bool psh = false;
  auto nread = [&] { return rd[0] + rd[1] + rd[2]; };
  int steps = 6 + (int)R.below(30);
  for (int k = 0; k < steps; k++) {
    if (m->native_handle() != h) fail("native_handle() changed");
    int t = (int)R.below(3); bool raw = R.below(2), sh = K == RW && R.below(2);
    if (t == pending) continue;
    bool mine = owner == t, mer = rd[t] > 0;
    int op;   // 0 release 1 try 2 timed(0) 3 timed(2ms) 4 lock that blocks or is free
    if ((mine || mer) && R.chance(600)) op = 0; else op = 1 + (int)R.below(4);
    if (K == SP && (op == 2 || op == 3)) op = 1;
    if (mine && !REC && op >= 2) op = 1;               // blocking again on an own lock would be undefined
    if (mine && sh) continue;
    if (mer && op) { if (pending >= 0) continue; if (!sh && op >= 2) op = 1; if (sh && op == 4) op = 1; }
    if (mer && !sh && op == 0 && K == RW) sh = true;
    if (op == 0 && mer) sh = true;
    bool free_for = sh ? owner < 0 : (owner < 0 && nread() == 0) || (owner == t && REC);
    if (sh && pending >= 0 && !psh) continue;           // implementation-defined preference
    if (op == 4 && !free_for && (pending >= 0 || (mer && !sh))) continue;
    if (op == 3 && !free_for && R.chance(700)) op = 2;
    hh = hh * 1099511628211ull + (uint64_t)(t * 32 + op * 4 + raw * 2 + sh);
    hist += strf(" T%d:%s%s%s", t, raw ? "handle." : "wrapper.", op == 0 ? "unlock" : op == 1 ? "try" : op == 4 ? "lock" : "timed", sh ? "_shared" : "");
    auto doit = [=]() -> int {
      if constexpr (K == SP) { if (raw) return op == 0 ? pthread_spin_unlock(h) == 0 : op == 1 ? pthread_spin_trylock(h) == 0 : pthread_spin_lock(h) == 0; if (op == 0) m->unlock(); else if (op == 1) return m->try_lock(); else m->lock(); return 1; }
      else {
        int64_t ns = op == 3 ? 2000000 : 0;
        struct timespec ts = in(ns);
        auto tp = std::chrono::system_clock::now() + std::chrono::nanoseconds(ns);
        bool until = (hh >> 7) & 1;
        if constexpr (K == MU) {
          if (raw) switch (op) { case 0: return pthread_mutex_unlock(h) == 0; case 1: return pthread_mutex_trylock(h) == 0; case 4: return pthread_mutex_lock(h) == 0; default: return pthread_mutex_timedlock(h, &ts) == 0; }
          switch (op) { case 0: m->unlock(); return 1; case 1: return m->try_lock(); case 4: m->lock(); return 1; default: return until ? m->try_lock_until(tp) : m->try_lock_for(std::chrono::nanoseconds(ns)); }
        } else {
          if (raw) switch (op) {
            case 0: return pthread_rwlock_unlock(h) == 0;
            case 1: return (sh ? pthread_rwlock_tryrdlock(h) : pthread_rwlock_trywrlock(h)) == 0;
            case 4: return (sh ? pthread_rwlock_rdlock(h) : pthread_rwlock_wrlock(h)) == 0;
            default: return (sh ? pthread_rwlock_timedrdlock(h, &ts) : pthread_rwlock_timedwrlock(h, &ts)) == 0; }
          switch (op) {
            case 0: if (sh) m->unlock_shared(); else m->unlock(); return 1;
            case 1: return sh ? m->try_lock_shared() : m->try_lock();
            case 4: if (sh) m->lock_shared(); else m->lock(); return 1;
            default: return until ? (sh ? m->try_lock_shared_until(tp) : m->try_lock_until(tp)) : (sh ? m->try_lock_shared_for(std::chrono::nanoseconds(ns)) : m->try_lock_for(std::chrono::nanoseconds(ns))); }
        }
      }
    };
    auto took = [&](int who, bool s) { if (s) rd[who]++; else { owner = who; cnt++; } };
    if (op == 0) {
      start(t, doit);
      if (!finished(t, 20000)) fail("unlock blocks");
      if (!W[t].res) fail("unlock of an owned lock failed");
      if (sh) rd[t]--; else if (--cnt == 0) owner = -1;
      if (pending >= 0 && (psh ? owner < 0 : (owner < 0 && nread() == 0))) {
        if (!finished(pending, 20000)) fail(strf("T%d stays blocked although the lock is free", pending));
        if (!W[pending].res) fail("blocking lock failed");
        took(pending, psh); pending = -1; cov.add("handoffs");
      }
    } else if (op == 4 && !free_for) {
      start(t, doit); pending = t; psh = sh;
      if (finished(t, R.chance(200) ? 3 : 0)) fail(strf("lock() by T%d returned although the lock is held", t));
      cov.add("blocked_locks");
    } else if (!raw && op != 4 && free_for && R.chance(80)) {   // the pthread call reports an error: nothing was acquired
      static const int codes[] = {EAGAIN, EDEADLK, EINVAL, ENOMEM, EPERM};
      int code = codes[R.below(5)];
      hist += strf("[%s]", strerror(code));
      start(t, [=]() -> int { t_inject = code; t_granted = 0; int r = doit(); t_inject = 0; return r * 2 + (t_granted != 0); });
      if (!finished(t, 20000)) fail("try blocks");
      int x = W[t].res;
      if ((x >> 1) != (x & 1)) fail(strf("T%d got %d although the pthread call %s", t, x >> 1, x & 1 ? "succeeded" : "failed with an error"));
      if (x & 1) took(t, sh);
      cov.add("injected_errors");
    } else {
      start(t, doit);
      if (!finished(t, 20000)) fail(op == 4 ? "lock of a free lock blocks" : "try blocks");
      if ((bool)W[t].res != free_for) fail(strf("T%d got %d, expected %d", t, W[t].res, free_for));
      if (free_for) took(t, sh);
      cov.add(free_for ? "acquired" : "refused");
    }
    if (pending >= 0 && finished(pending, 0)) fail(strf("lock() by T%d returned although the lock is held", pending));
    unsigned char st[8] = {(unsigned char)(owner + 1), (unsigned char)cnt, (unsigned char)rd[0], (unsigned char)rd[1], (unsigned char)rd[2], (unsigned char)(pending + 1), (unsigned char)K, (unsigned char)REC};
    cov.states.insert(fnv(st, 8));
  }
  for (int guard = 0; guard < 200 && (owner >= 0 || nread() || pending >= 0); guard++) {
    int t = owner; bool sh = false;
    if (t < 0) { sh = true; for (t = 0; t < 2 && !rd[t]; t++) {} }
    start(t, [=]() -> int { if constexpr (K == RW) { if (sh) m->unlock_shared(); else m->unlock(); } else m->unlock(); return 1; });
    if (!finished(t, 20000)) fail("unlock blocks");
    if (sh) rd[t]--; else if (--cnt == 0) owner = -1;
    if (pending >= 0 && (psh ? owner < 0 : (owner < 0 && nread() == 0))) {
      if (!finished(pending, 20000)) fail(strf("T%d stays blocked although the lock is free", pending));
      if (psh) rd[pending]++; else { owner = pending; cnt++; }
      pending = -1;
    }
  }
  if (destroys) fail("the handle was destroyed during use");
  int i0 = inits;
  m->~M();
  if (inits != i0) fail("initialised again");
  if (destroys > 1) fail(strf("destruction destroyed the object %d times", destroys.load()));
  if (destroys == 0) fail("destruction did not destroy the object behind native_handle()");
  if (last_destroy != (const void*)h) fail("destruction destroyed something else than native_handle()");
  watch_lo = nullptr;
  cov.scheds.insert(hh ^ fnv(name, strlen(name)));
  cov.add(std::string("execs.") + name);
  if (cov.samples.size() < 3) cov.samples.push_back(tname + hist);
}
int main(int argc, char** argv) {
  Args a(argc, argv);
  Shard sh; shard_begin(a, sh);
  for (int t = 0; t < 3; t++) { W[t].th = std::thread(worker, t); W[t].th.detach(); }
  for (long e = sh.start; e < sh.execs; e++) {
    if (!exec_begin(sh, e)) break;
    alarm(120);
    Rng r = exec_rng(sh, e);
    switch (e % 10) {
      case 0: run_type<p::native_mutex, MU, false>(r, "native_mutex"); break;
      case 1: run_type<p::native_recursive_mutex, MU, true>(r, "native_recursive_mutex"); break;
      case 2: case 9: run_type<p::rwlock, RW, false>(r, "rwlock"); break;
      case 3: run_type<p::spinlock, SP, false>(r, "spinlock"); break;
      case 4: run_type<p::mutex, MU, false>(r, "posix::mutex"); break;
      case 5: run_type<p::timed_mutex, MU, false>(r, "posix::timed_mutex"); break;
      case 6: run_type<p::recursive_mutex, MU, true>(r, "posix::recursive_mutex"); break;
      case 7: run_type<p::recursive_timed_mutex, MU, true>(r, "posix::recursive_timed_mutex"); break;
      default: if (r.below(2)) run_type<p::shared_mutex, RW, false>(r, "posix::shared_mutex"); else run_type<p::shared_timed_mutex, RW, false>(r, "posix::shared_timed_mutex");
    }
    cov.add("execs");
  }
  shard_end(a);
}

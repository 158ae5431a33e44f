// POSIX wrappers driven through both sides: each call goes either through the wrapper or straight to the pthread
// object behind native_handle() (TimeArg.via says which).
#include "lk_impl.h"
#include "posix_native_mutex.hpp"
#include <ctime>
#include <pthread.h>
namespace p = yamc::posix;
static struct timespec abs_of(int64_t ns) {
  if (ns == NEVER) ns = 0;
  struct timespec ts; int64_t s = ns / 1000000000, r = ns % 1000000000; if (r < 0) { r += 1000000000; s--; } ts.tv_sec = s; ts.tv_nsec = r; return ts; }
static int64_t sysnow() { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); return ts.tv_sec * 1000000000ll + ts.tv_nsec; }
template <class M, bool TIMED, bool SHARED> struct NatLock : LockImpl<M, TIMED, SHARED, true> {
  using B = LockImpl<M, TIMED, SHARED, true>;
  using B::B;
  static int raw(pthread_mutex_t* h, Op op, const TimeArg& a) {
    struct timespec ts;
    switch (op) {
      case LOCK: return pthread_mutex_lock(h);
      case TRY: return pthread_mutex_trylock(h);
      case TRYFOR: ts = abs_of(a.ns == FOREVER || a.ns == NEVER ? a.ns : sysnow() + a.ns); return pthread_mutex_timedlock(h, &ts);
      case TRYUNTIL: ts = abs_of(a.ns); return pthread_mutex_timedlock(h, &ts);
      default: return pthread_mutex_unlock(h);
    }
  }
  static int raw(pthread_rwlock_t* h, Op op, const TimeArg& a) {
    struct timespec ts;
    switch (op) {
      case LOCK: return pthread_rwlock_wrlock(h);
      case TRY: return pthread_rwlock_trywrlock(h);
      case TRYFOR: ts = abs_of(a.ns == FOREVER || a.ns == NEVER ? a.ns : sysnow() + a.ns); return pthread_rwlock_timedwrlock(h, &ts);
      case TRYUNTIL: ts = abs_of(a.ns); return pthread_rwlock_timedwrlock(h, &ts);
      case SLOCK: return pthread_rwlock_rdlock(h);
      case STRY: return pthread_rwlock_tryrdlock(h);
      case STRYFOR: ts = abs_of(a.ns == FOREVER || a.ns == NEVER ? a.ns : sysnow() + a.ns); return pthread_rwlock_timedrdlock(h, &ts);
      case STRYUNTIL: ts = abs_of(a.ns); return pthread_rwlock_timedrdlock(h, &ts);
      default: return pthread_rwlock_unlock(h);
    }
  }
  static int raw(pthread_spinlock_t* h, Op op, const TimeArg&) { return op == LOCK ? pthread_spin_lock(h) : op == TRY ? pthread_spin_trylock(h) : pthread_spin_unlock(h); }
  int exec(void* m, Op op, const TimeArg& a, long* pay) const override {
    if (!a.via) return B::exec(m, op, a, pay);
    int r = raw(static_cast<M*>(m)->native_handle(), op, a);
    bool ok = r == 0;
    if (r && (op == LOCK || op == SLOCK || op == UNLOCK || op == SUNLOCK)) return RES_EXC + r;
    if (ok && pay) { if (op <= TRYUNTIL) pay_write(pay); else if (op >= SLOCK && op <= STRYUNTIL) { long v = pay_read(pay); asm volatile("" ::"r"(v)); } }
    return ok;
  }
};
template <class M, bool T, bool S> static void add(const char* n, bool rec) {
  Caps c; c.name = n; c.family = "native"; c.recursive = rec; c.interop = true;
  lock_registry().push_back(new NatLock<M, T, S>(c));
}
static int reg = [] {
  add<p::native_mutex, true, false>("posix::native_mutex+handle", false);
  add<p::native_recursive_mutex, true, false>("posix::native_recursive_mutex+handle", true);
  add<p::rwlock, true, true>("posix::rwlock+handle", false);
  add<p::spinlock, false, false>("posix::spinlock+handle", false);
  add<p::mutex, true, false>("posix::mutex+handle", false);
  add<p::timed_mutex, true, false>("posix::timed_mutex+handle", false);
  add<p::recursive_mutex, true, false>("posix::recursive_mutex+handle", true);
  add<p::recursive_timed_mutex, true, false>("posix::recursive_timed_mutex+handle", true);
  add<p::shared_mutex, true, true>("posix::shared_mutex+handle", false);
  add<p::shared_timed_mutex, true, true>("posix::shared_timed_mutex+handle", false);
  return 0;
}();

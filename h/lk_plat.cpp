// Windows and macOS wrappers over the stand-ins of ../shim, through the wrapper and through native_handle().
#include "lk_impl.h"
#include "win_native_mutex.hpp"
#include "apple_native_mutex.hpp"
template <class M, bool TIMED, bool SHARED> struct PlatLock : LockImpl<M, TIMED, SHARED, false> {
  using B = LockImpl<M, TIMED, SHARED, false>;
  PlatLock(const Caps& c) : B(c) { this->caps.conv = c.conv; }
  static int wait(HANDLE h, int64_t ns) {
    DWORD ms = ns <= 0 ? 0 : ns > 4000000000000000ll ? INFINITE : (DWORD)((ns + 999999) / 1000000);
    DWORD r = WaitForSingleObject(h, ms);
    return r == WAIT_OBJECT_0 ? 1 : r == WAIT_TIMEOUT ? 0 : RES_EXC_OTHER;
  }
  static int raw(HANDLE h, Op op, const TimeArg&) {
    switch (op) {
      case LOCK: return wait(h, INT64_MAX);
      case TRY: return wait(h, 0);
      case UNLOCK: return ReleaseMutex(h) ? 1 : RES_EXC_OTHER;
      default: return RES_EXC_OTHER;
    }
  }
  static int raw(CRITICAL_SECTION* h, Op op, const TimeArg&) {
    switch (op) {
      case LOCK: EnterCriticalSection(h); return 1;
      case TRY: return TryEnterCriticalSection(h) != 0;
      case UNLOCK: LeaveCriticalSection(h); return 1;
      default: return RES_EXC_OTHER;
    }
  }
  static int raw(SRWLOCK* h, Op op, const TimeArg&) {
    switch (op) {
      case LOCK: AcquireSRWLockExclusive(h); return 1;
      case TRY: return TryAcquireSRWLockExclusive(h) != 0;
      case UNLOCK: ReleaseSRWLockExclusive(h); return 1;
      case SLOCK: AcquireSRWLockShared(h); return 1;
      case STRY: return TryAcquireSRWLockShared(h) != 0;
      case SUNLOCK: ReleaseSRWLockShared(h); return 1;
      default: return RES_EXC_OTHER;
    }
  }
  static int raw(os_unfair_lock_t h, Op op, const TimeArg&) {
    switch (op) {
      case LOCK: os_unfair_lock_lock(h); return 1;
      case TRY: return os_unfair_lock_trylock(h);
      case UNLOCK: os_unfair_lock_unlock(h); return 1;
      default: return RES_EXC_OTHER;
    }
  }
  int exec(void* m, Op op, const TimeArg& a, long* pay) const override {
    bool timed = op == TRYFOR || op == TRYUNTIL;
    if (!a.via || timed) return B::exec(m, op, a, pay);
    int r = raw(static_cast<M*>(m)->native_handle(), op, a);
    if (r == RES_TRUE && pay) { if (op <= TRYUNTIL) pay_write(pay); else if (op >= SLOCK && op <= STRYUNTIL) { long v = pay_read(pay); asm volatile("" ::"r"(v)); } }
    return r;
  }
};
template <class M, bool T, bool S> static void add(const char* n, bool rec, bool handle, Conv cv = U_OWN) {
  Caps c; c.name = n; c.family = handle ? "plathandle" : "plat"; c.recursive = rec; c.interop = handle; c.conv = cv;
  lock_registry().push_back(new PlatLock<M, T, S>(c));
}
namespace w = yamc::win;
static int reg = [] {
  for (int h = 0; h < 2; h++) {
#define N(x) (h ? x "+handle" : x)
    add<w::native_mutex, true, false>(N("win::native_mutex"), true, h, U_MONO);
    add<w::critical_section, false, false>(N("win::critical_section"), true, h);
    add<w::slim_rwlock, false, true>(N("win::slim_rwlock"), false, h);
    add<w::mutex, false, false>(N("win::mutex"), true, h);
    add<w::timed_mutex, true, false>(N("win::timed_mutex"), true, h, U_MONO);
    add<w::recursive_mutex, false, false>(N("win::recursive_mutex"), true, h);
    add<w::recursive_timed_mutex, true, false>(N("win::recursive_timed_mutex"), true, h, U_MONO);
    add<w::shared_mutex, false, true>(N("win::shared_mutex"), false, h);
    add<yamc::apple::unfair_lock, false, false>(N("apple::unfair_lock"), false, h);
  }
  return 0;
}();

// The stand-ins for Win32 and macOS primitives, all built from one monitor over pthreads.
#include "windows.h"
#include "os/lock.h"
#include "dispatch/dispatch.h"
#undef free
#include "platform.h"
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unordered_map>
PlatStats plat_stats; int plat_fail; uint32_t plat_fail_code = WAIT_FAILED; int64_t plat_tick;
namespace {
enum Kind { K_MUTEX, K_SEMA, K_CS, K_SRW, K_UNFAIR, K_GCD };
struct Mon {
  Kind kind; bool dead = false;
  pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER; pthread_cond_t c = PTHREAD_COND_INITIALIZER;
  pthread_t owner{}; long depth = 0;     // mutexes: owner and recursion depth; SRW: depth -1 is exclusive
  long readers = 0, cnt = 0, max = 0;
  uint32_t id = 0;
};
int glk;   // guards the tables; never held across a scheduling point of the controlled runtime
struct G { G() { while (__atomic_exchange_n(&glk, 1, __ATOMIC_ACQUIRE)) ; } ~G() { __atomic_store_n(&glk, 0, __ATOMIC_RELEASE); } };
Mon* table[1 << 16]; uint32_t ntable = 1;
uint32_t fifo[1 << 16]; uint32_t fin, fout;   // ids to use again, oldest first, not before 64 others were given back
Mon* make0(Kind k) {
  Mon* x;
  if (fin - fout > 64) x = table[fifo[fout++ & 0xffff]];
  else { if (ntable >= 1 << 16) { fprintf(stderr, "stand-in: too many objects\n"); abort(); } x = new Mon; x->id = ntable; table[ntable] = x; __atomic_store_n(&ntable, ntable + 1, __ATOMIC_RELEASE); }
  x->depth = x->readers = x->cnt = x->max = 0; x->kind = k; x->dead = false; return x;
}
Mon* make(Kind k) { G g; return make0(k); }
uint32_t known() { return __atomic_load_n(&ntable, __ATOMIC_ACQUIRE); }
[[noreturn]] void bad(const char* w) { plat_stats.bad_use++; fprintf(stderr, "platform misuse: %s\n", w); abort(); }
Mon* get(uint32_t id, Kind k, const char* w) { if (id == 0 || id >= known()) bad(w); Mon* x = table[id]; if (x->dead || x->kind != k) bad(w); return x; }
struct L { Mon* x; explicit L(Mon* y) : x(y) { pthread_mutex_lock(&x->m); } ~L() { pthread_mutex_unlock(&x->m); } };
int64_t now(clockid_t c) { timespec t; clock_gettime(c, &t); return t.tv_sec * 1000000000ll + t.tv_nsec; }
enum Mode { TRY, BLOCK, TIMED };
// waits until can() holds; true if it does. The caller holds the monitor.
template <class F> bool await(Mon* x, Mode mode, clockid_t clk, int64_t dl, F can) {
  for (;;) {
    if (can()) return true;
    if (mode == TRY) return false;
    if (mode == BLOCK) { pthread_cond_wait(&x->c, &x->m); continue; }
    timespec ts; ts.tv_sec = dl / 1000000000; ts.tv_nsec = dl % 1000000000;
    if (dl <= 0) { ts.tv_sec = 0; ts.tv_nsec = 0; }
    if (pthread_cond_clockwait(&x->c, &x->m, clk, &ts) == ETIMEDOUT) return can();
  }
}
bool own_lock(Mon* x, Mode mode, int64_t dl, bool recursive, const char* w) {
  L l(x); pthread_t me = pthread_self();
  if (x->depth > 0 && pthread_equal(x->owner, me)) { if (!recursive) { if (mode == TRY) return false; bad(w); } x->depth++; return true; }
  if (!await(x, mode, CLOCK_MONOTONIC, dl, [&] { return x->depth == 0; })) return false;
  x->owner = me; x->depth = 1; return true;
}
bool own_unlock(Mon* x) {
  L l(x);
  if (x->depth == 0 || !pthread_equal(x->owner, pthread_self())) return false;
  if (--x->depth == 0) pthread_cond_broadcast(&x->c);
  return true;
}
thread_local DWORD last_error;
bool injected(int k) { if (plat_fail != k) return false; plat_fail = PF_NONE; return true; }
uint32_t id_of(void* p) { return (uint32_t)(uintptr_t)p; }
HANDLE handle(Mon* x) { return (HANDLE)((uintptr_t)0x57000000000ull | x->id); }
Mon* from(HANDLE h, const char* w) {
  if (((uintptr_t)h >> 32) != 0x570) bad(w);
  uint32_t id = id_of(h); if (id == 0 || id >= known()) bad(w);
  Mon* x = table[id]; if (x->dead) bad(w); return x;
}
void dispose(Mon* x) { G g; x->dead = true; plat_stats.destroyed++; fifo[fin++ & 0xffff] = x->id; }
// where a wait or sleep that began at t0 and should end at dl really ends
int64_t tick_end(int64_t t0, int64_t dl) { if (plat_tick <= 0) return dl; int64_t e = dl / plat_tick * plat_tick; return e > t0 ? e : (t0 / plat_tick + 1) * plat_tick; }
}
extern "C" {
DWORD GetLastError(void) { return last_error; }
void SetLastError(DWORD e) { last_error = e; }
static HANDLE mk_mutex(BOOL own) {
  if (injected(PF_CREATE)) { last_error = 8; return 0; }
  Mon* x = make(K_MUTEX); plat_stats.created++; if (own) { x->owner = pthread_self(); x->depth = 1; } return handle(x);
}
HANDLE CreateMutexA(LPSECURITY_ATTRIBUTES, BOOL o, LPCSTR) { return mk_mutex(o); }
HANDLE CreateMutexW(LPSECURITY_ATTRIBUTES, BOOL o, LPCWSTR) { return mk_mutex(o); }
HANDLE CreateMutexExA(LPSECURITY_ATTRIBUTES, LPCSTR, DWORD f, DWORD) { return mk_mutex(f & 1); }
HANDLE CreateMutexExW(LPSECURITY_ATTRIBUTES, LPCWSTR, DWORD f, DWORD) { return mk_mutex(f & 1); }
BOOL ReleaseMutex(HANDLE h) {
  Mon* x = from(h, "ReleaseMutex on something that is no handle"); if (x->kind != K_MUTEX) { last_error = ERROR_INVALID_HANDLE; return FALSE; }
  if (!own_unlock(x)) { last_error = ERROR_NOT_OWNER; return FALSE; }
  return TRUE;
}
static HANDLE mk_sem(LONG i, LONG m) {
  if (injected(PF_CREATE)) { last_error = 8; return 0; }
  if (m <= 0 || i < 0 || i > m) { last_error = ERROR_INVALID_PARAMETER; return 0; }
  Mon* x = make(K_SEMA); x->cnt = i; x->max = m; plat_stats.created++; return handle(x);
}
HANDLE CreateSemaphoreA(LPSECURITY_ATTRIBUTES, LONG i, LONG m, LPCSTR) { return mk_sem(i, m); }
HANDLE CreateSemaphoreW(LPSECURITY_ATTRIBUTES, LONG i, LONG m, LPCWSTR) { return mk_sem(i, m); }
HANDLE CreateSemaphoreExA(LPSECURITY_ATTRIBUTES, LONG i, LONG m, LPCSTR, DWORD, DWORD) { return mk_sem(i, m); }
HANDLE CreateSemaphoreExW(LPSECURITY_ATTRIBUTES, LONG i, LONG m, LPCWSTR, DWORD, DWORD) { return mk_sem(i, m); }
BOOL ReleaseSemaphore(HANDLE h, LONG n, LPLONG prev) {
  Mon* x = from(h, "ReleaseSemaphore on something that is no handle");
  if (x->kind != K_SEMA) { last_error = ERROR_INVALID_HANDLE; return FALSE; }
  if (injected(PF_RELEASE)) { last_error = ERROR_TOO_MANY_POSTS; return FALSE; }
  L l(x);
  if (n <= 0) { last_error = ERROR_INVALID_PARAMETER; return FALSE; }
  if (n > x->max - x->cnt) { last_error = ERROR_TOO_MANY_POSTS; return FALSE; }
  if (prev) *prev = (LONG)x->cnt;
  x->cnt += n; pthread_cond_broadcast(&x->c); return TRUE;
}
BOOL CloseHandle(HANDLE h) { Mon* x = from(h, "CloseHandle on something that is no (open) handle"); dispose(x); return TRUE; }
DWORD WaitForSingleObject(HANDLE h, DWORD ms) {
  if (injected(PF_WAIT)) { last_error = ERROR_INVALID_HANDLE; return plat_fail_code; }
  Mon* x = from(h, "WaitForSingleObject on something that is no handle");
  Mode mode = ms == 0 ? TRY : ms == INFINITE ? BLOCK : TIMED; int64_t dl = 0;
  if (mode == TIMED) { int64_t t0 = now(CLOCK_MONOTONIC); dl = tick_end(t0, t0 + (int64_t)ms * 1000000); }
  if (x->kind == K_MUTEX) return own_lock(x, mode, dl, true, "") ? WAIT_OBJECT_0 : WAIT_TIMEOUT;
  if (x->kind != K_SEMA) bad("WaitForSingleObject on something that is no handle");
  L l(x);
  if (!await(x, mode, CLOCK_MONOTONIC, dl, [&] { return x->cnt > 0; })) return WAIT_TIMEOUT;
  x->cnt--; return WAIT_OBJECT_0;
}
DWORD WaitForSingleObjectEx(HANDLE h, DWORD ms, BOOL) { return WaitForSingleObject(h, ms); }
// Without ticks no wait ends early, and a sleep need not take (virtual) time
void Sleep(DWORD ms) {
  if (plat_tick <= 0 || ms == 0) { sched_yield(); return; }
  int64_t t0 = now(CLOCK_MONOTONIC), d = tick_end(t0, t0 + (int64_t)ms * 1000000) - t0; timespec ts{d / 1000000000, d % 1000000000}; nanosleep(&ts, nullptr);
}
DWORD SleepEx(DWORD ms, BOOL) { Sleep(ms); return 0; }
BOOL SwitchToThread(void) { sched_yield(); return TRUE; }
void YieldProcessor_shim(void) { sched_yield(); }
ULONGLONG GetTickCount64(void) { return (ULONGLONG)now(CLOCK_MONOTONIC) / 1000000; }
DWORD GetTickCount(void) { return (DWORD)GetTickCount64(); }
BOOL QueryPerformanceCounter(LARGE_INTEGER* v) { v->QuadPart = now(CLOCK_MONOTONIC) / 100; return TRUE; }
BOOL QueryPerformanceFrequency(LARGE_INTEGER* v) { v->QuadPart = 10000000; return TRUE; }
DWORD GetCurrentThreadId(void) { return (DWORD)((uintptr_t)pthread_self() >> 6); }

void InitializeCriticalSection(LPCRITICAL_SECTION s) { Mon* x = make(K_CS); plat_stats.created++; s->DebugInfo = s; s->LockSemaphore = (HANDLE)(uintptr_t)x->id; s->LockCount = -1; s->RecursionCount = 0; s->OwningThread = 0; s->SpinCount = 0; }
BOOL InitializeCriticalSectionAndSpinCount(LPCRITICAL_SECTION s, DWORD) { InitializeCriticalSection(s); return TRUE; }
BOOL InitializeCriticalSectionEx(LPCRITICAL_SECTION s, DWORD, DWORD) { InitializeCriticalSection(s); return TRUE; }
DWORD SetCriticalSectionSpinCount(LPCRITICAL_SECTION, DWORD) { return 0; }
static Mon* cs(LPCRITICAL_SECTION s, const char* w) { if (s->DebugInfo != s) bad(w); return get(id_of(s->LockSemaphore), K_CS, w); }
void DeleteCriticalSection(LPCRITICAL_SECTION s) { Mon* x = cs(s, "DeleteCriticalSection: not initialised"); dispose(x); s->DebugInfo = 0; s->LockSemaphore = 0; }
void EnterCriticalSection(LPCRITICAL_SECTION s) { own_lock(cs(s, "EnterCriticalSection: not initialised"), BLOCK, 0, true, ""); }
BOOL TryEnterCriticalSection(LPCRITICAL_SECTION s) { return own_lock(cs(s, "TryEnterCriticalSection: not initialised"), TRY, 0, true, ""); }
void LeaveCriticalSection(LPCRITICAL_SECTION s) { if (!own_unlock(cs(s, "LeaveCriticalSection: not initialised"))) bad("LeaveCriticalSection by a thread that is not inside"); }

// static initialisation, no destruction: found by the word in the object, which is zero in a fresh one
static std::unordered_map<void*, Mon*>* lazy_map = new std::unordered_map<void*, Mon*>;   // no function-local static: its guard is a scheduling point
static Mon* lazy_get(void* p, uint32_t word, Kind k, uint32_t* out) {
  if (word) { *out = word; return get(word, k, "a lock word that was overwritten"); }
  G g; auto& m = *lazy_map;
  uint32_t w2 = k == K_SRW ? (uint32_t)(uintptr_t)__atomic_load_n((void**)p, __ATOMIC_ACQUIRE) : __atomic_load_n((uint32_t*)p, __ATOMIC_ACQUIRE);
  if (w2) { *out = w2; return get(w2, k, "a lock word that was overwritten"); }
  auto i = m.find(p);
  if (i != m.end()) { Mon* o = i->second; o->dead = true; m.erase(i); fifo[fin++ & 0xffff] = o->id; }   // an earlier object lived here
  Mon* x = make0(k); m[p] = x;
  if (k == K_SRW) __atomic_store_n((void**)p, (void*)(uintptr_t)x->id, __ATOMIC_RELEASE); else __atomic_store_n((uint32_t*)p, x->id, __ATOMIC_RELEASE);
  *out = x->id; return x;
}
static Mon* srw(PSRWLOCK s) { uint32_t o; return lazy_get(s, id_of(__atomic_load_n(&s->Ptr, __ATOMIC_ACQUIRE)), K_SRW, &o); }
void InitializeSRWLock(PSRWLOCK s) { s->Ptr = 0; }
static bool srw_ex(PSRWLOCK s, Mode m) { Mon* x = srw(s); L l(x); if (!await(x, m, CLOCK_MONOTONIC, 0, [&] { return x->depth == 0 && x->readers == 0; })) return false; x->depth = 1; x->owner = pthread_self(); return true; }
static bool srw_sh(PSRWLOCK s, Mode m) { Mon* x = srw(s); L l(x); if (!await(x, m, CLOCK_MONOTONIC, 0, [&] { return x->depth == 0; })) return false; x->readers++; return true; }
void AcquireSRWLockExclusive(PSRWLOCK s) { srw_ex(s, BLOCK); }
BOOLEAN TryAcquireSRWLockExclusive(PSRWLOCK s) { return srw_ex(s, TRY); }
void ReleaseSRWLockExclusive(PSRWLOCK s) { Mon* x = srw(s); L l(x); if (x->depth != 1) bad("ReleaseSRWLockExclusive: not held exclusively"); x->depth = 0; pthread_cond_broadcast(&x->c); }
void AcquireSRWLockShared(PSRWLOCK s) { srw_sh(s, BLOCK); }
BOOLEAN TryAcquireSRWLockShared(PSRWLOCK s) { return srw_sh(s, TRY); }
void ReleaseSRWLockShared(PSRWLOCK s) { Mon* x = srw(s); L l(x); if (x->readers < 1) bad("ReleaseSRWLockShared: not held shared"); if (--x->readers == 0) pthread_cond_broadcast(&x->c); }

static Mon* unf(os_unfair_lock_t s) { uint32_t o; return lazy_get(s, __atomic_load_n(&s->_os_unfair_lock_opaque, __ATOMIC_ACQUIRE), K_UNFAIR, &o); }
void os_unfair_lock_lock(os_unfair_lock_t s) { own_lock(unf(s), BLOCK, 0, false, "os_unfair_lock_lock by the owner"); }
bool os_unfair_lock_trylock(os_unfair_lock_t s) { return own_lock(unf(s), TRY, 0, false, ""); }
void os_unfair_lock_unlock(os_unfair_lock_t s) { if (!own_unlock(unf(s))) bad("os_unfair_lock_unlock by a thread that is not the owner"); }
void os_unfair_lock_assert_owner(const os_unfair_lock*) {}
void os_unfair_lock_assert_not_owner(const os_unfair_lock*) {}

struct dispatch_semaphore_s { uint32_t id, magic; };
static Mon* ds(dispatch_semaphore_t s, const char* w) { if (!s || s->magic != 0x6c6c) bad(w); return get(s->id, K_GCD, w); }
dispatch_time_t dispatch_time(dispatch_time_t when, int64_t delta) {
  if (when == DISPATCH_TIME_FOREVER) return when;
  if ((int64_t)when < 0) { int64_t r; if (__builtin_add_overflow(-(int64_t)when, delta, &r)) return delta > 0 ? DISPATCH_TIME_FOREVER : (dispatch_time_t)-2ll; return r <= 1 ? (dispatch_time_t)-2ll : (dispatch_time_t)-r; }
  int64_t b = when == DISPATCH_TIME_NOW ? now(CLOCK_MONOTONIC) : (int64_t)when, r;
  if (__builtin_add_overflow(b, delta, &r)) return delta > 0 ? DISPATCH_TIME_FOREVER : 1;
  return r < 1 ? 1 : (dispatch_time_t)r;
}
dispatch_time_t dispatch_walltime(const struct timespec* w, int64_t delta) {
  int64_t n = w ? w->tv_sec * 1000000000ll + w->tv_nsec : now(CLOCK_REALTIME), r;
  if (__builtin_add_overflow(n, delta, &r)) return delta > 0 ? DISPATCH_TIME_FOREVER : (dispatch_time_t)-2ll;
  if (r <= 1) return delta >= 0 ? DISPATCH_TIME_FOREVER : (dispatch_time_t)-2ll;    // as libdispatch does
  return (dispatch_time_t)-r;
}
dispatch_semaphore_t dispatch_semaphore_create(intptr_t v) {
  if (v < 0 || injected(PF_CREATE)) return 0;
  Mon* x = make(K_GCD); x->cnt = v; auto* s = (dispatch_semaphore_t)malloc(sizeof(dispatch_semaphore_s)); s->id = x->id; s->magic = 0x6c6c; plat_stats.created++; return s;
}
intptr_t dispatch_semaphore_wait(dispatch_semaphore_t s, dispatch_time_t t) {
  Mon* x = ds(s, "dispatch_semaphore_wait: no semaphore");
  if (injected(PF_WAIT)) return (intptr_t)(int32_t)plat_fail_code;
  L l(x); Mode m = t == DISPATCH_TIME_NOW ? TRY : t == DISPATCH_TIME_FOREVER ? BLOCK : TIMED;
  bool wall = (int64_t)t < 0;
  if (!await(x, m, wall ? CLOCK_REALTIME : CLOCK_MONOTONIC, wall ? -(int64_t)t : (int64_t)t, [&] { return x->cnt > 0; })) return KERN_OPERATION_TIMED_OUT;
  x->cnt--; return KERN_SUCCESS;
}
intptr_t dispatch_semaphore_signal(dispatch_semaphore_t s) { Mon* x = ds(s, "dispatch_semaphore_signal: no semaphore"); L l(x); x->cnt++; pthread_cond_broadcast(&x->c); return 0; }
void dispatch_release(dispatch_semaphore_t s) { Mon* x = ds(s, "dispatch_release: no semaphore"); dispose(x); s->magic = 0; free(s); }
void yamc_shim_free(void* p) { if (p && ((dispatch_semaphore_t)p)->magic == 0x6c6c) dispatch_release((dispatch_semaphore_t)p); else free(p); }
}

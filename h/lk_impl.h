// Instrumented wrappers: every call the workloads make on a lock goes through here.
#pragma once
#include "ops.h"
#include "../rt/vs.h"
#include <chrono>
#include <new>
#include <system_error>
#include <type_traits>
#include <utility>

// compiled several times into one program (UNIT=0, 1): the wrappers stay apart, the library's types do not
#ifdef UNIT
#define UNIT_CAT_(n) unit##n
#define UNIT_CAT(n) UNIT_CAT_(n)
#define UNIT_BEGIN inline namespace UNIT_CAT(UNIT) {
#define UNIT_END }
#else
#define UNIT_BEGIN
#define UNIT_END
#endif

struct clock_failure {};
inline void clock_read() { if (vs::fail_clock_in > 0 && --vs::fail_clock_in == 0) throw clock_failure(); }
struct custom_clock {  // user-defined clocks: a reading may fail
  using duration = std::chrono::nanoseconds;
  using rep = duration::rep; using period = duration::period;
  using time_point = std::chrono::time_point<custom_clock>;
  static constexpr bool is_steady = true;
  static time_point now() { clock_read(); return time_point(duration(std::chrono::steady_clock::now().time_since_epoch().count() + CUSTOM_OFF)); }
};
struct slow_clock {  // runs at half speed
  using duration = std::chrono::nanoseconds;
  using rep = duration::rep; using period = duration::period;
  using time_point = std::chrono::time_point<slow_clock>;
  static constexpr bool is_steady = true;
  static time_point now() { clock_read(); return time_point(duration((std::chrono::steady_clock::now().time_since_epoch().count() - VBASE) / 2)); }
};

struct coarse_clock {  // ticks every millisecond
  using duration = std::chrono::milliseconds;
  using rep = duration::rep; using period = duration::period;
  using time_point = std::chrono::time_point<coarse_clock>;
  static constexpr bool is_steady = true;
  static time_point now() { clock_read(); return time_point(duration((std::chrono::steady_clock::now().time_since_epoch().count() - VBASE) / 1000000)); }
};

template <class F> inline int guarded(F&& f) {
  try { return f(); }
  catch (const std::system_error& e) {
    if (e.code() == std::errc::operation_not_permitted) return RES_EXC + EPERM;
    if (e.code() == std::errc::resource_deadlock_would_occur) return RES_EXC + EDEADLK;
    return RES_EXC + (e.code().value() & 0xfff);
  }
  catch (const std::bad_alloc&) { return RES_EXC_ALLOC; }
  catch (const clock_failure&) { return RES_EXC_CLOCK; }
  catch (...) { return RES_EXC_OTHER; }
}

__attribute__((noinline)) static void pay_write(long* p) { if (p) { p[0] = p[0] + 1; p[1] = p[0]; } }
__attribute__((noinline)) static long pay_read(long* p) { return p ? p[0] + p[1] : 0; }


template <class F> inline bool with_dur(const TimeArg& a, F&& f) {
  using namespace std::chrono;
  auto g = [&](auto d) { using D = decltype(d); return f(a.ns == FOREVER ? (D::max)() : a.ns == NEVER ? (D::min)() : d); };
  switch (a.rep) {
    case R_MS: return g(milliseconds(a.ns / 1000000));
    case R_SEC: return g(seconds(a.ns / 1000000000));
    case R_MIN: return g(duration<int64_t, std::ratio<60>>(a.ns / 60000000000ll));
    case R_DBL: return g(duration<double>((double)a.ns * 1e-9));
    case R_FMS: return g(duration<float, std::milli>((float)(a.ns / 1000000)));
    case R_FRAME: return g(duration<int, std::ratio<1, 60>>((int)(a.ns / 50000000 * 3)));
    case R_USI: return g(duration<int, std::micro>((int)(a.ns / 1000)));
    default: return f(nanoseconds(a.ns));
  }
}
template <class F> inline bool with_sys(const TimeArg& a, F&& f) {
  using namespace std::chrono;
  using C = system_clock;
  if (a.ns == FOREVER) return f((C::time_point::max)());
  if (a.ns == NEVER) return f((C::time_point::min)());
  if (a.rep == R_MS) return f(time_point<C, milliseconds>(milliseconds(a.ns / 1000000)));
  if (a.rep == R_SEC) return f(time_point<C, seconds>(seconds(a.ns / 1000000000)));
  if (a.rep == R_DBL) return f(time_point<C, duration<double>>(duration<double>((double)a.ns * 1e-9)));
  return f(C::time_point(duration_cast<C::duration>(nanoseconds(a.ns))));
}
template <class F> inline bool with_tp(const TimeArg& a, F&& f) {
  using namespace std::chrono;
  switch (a.clk) {
    case C_SYSTEM: return with_sys(a, f);
    case C_CUSTOM:
      if (a.rep == R_MS) return f(time_point<custom_clock, milliseconds>(milliseconds(a.ns / 1000000)));
      return f(custom_clock::time_point(nanoseconds(a.ns)));
    case C_SLOW:
      if (a.rep == R_SEC) return f(time_point<slow_clock, seconds>(seconds(a.ns / 1000000000)));
      return f(slow_clock::time_point(nanoseconds(a.ns)));
    case C_COARSE: return f(coarse_clock::time_point(milliseconds(a.ns / 1000000)));
    default:
      if (a.rep == R_SEC) return f(time_point<steady_clock, seconds>(seconds(a.ns / 1000000000)));
      if (a.rep == R_DBL) return f(time_point<steady_clock, duration<double>>(duration<double>((double)a.ns * 1e-9)));
      return f(steady_clock::time_point(nanoseconds(a.ns)));
  }
}

UNIT_BEGIN
template <class M, bool TIMED, bool SHARED, bool SYSONLY> struct LockImpl : ILock {
  LockImpl(const Caps& c) { caps = c; caps.timed = TIMED; caps.shared = SHARED; caps.until_system_only = SYSONLY; caps.for_system = SYSONLY; size = sizeof(M); }
  void construct(void* p) const override { new (p) M(); }
  int destroy(void* p) const override { return guarded([&] { static_cast<M*>(p)->~M(); return (int)RES_TRUE; }); }
  template <class A> static bool t_for(M& m, const TimeArg& a, A) {
    if constexpr (TIMED) {
      return with_dur(a, [&](auto d) { return m.try_lock_for(d); });
    } else { (void)m; (void)a; return false; }
  }
  int exec(void* p, Op op, const TimeArg& a, long* pay) const override {
    M& m = *static_cast<M*>(p);
    int r = guarded([&]() -> int {
      switch (op) {
        case LOCK: m.lock(); return RES_TRUE;
        case TRY: return m.try_lock();
        case TRYFOR: return t_for(m, a, 0);
        case TRYUNTIL:
          if constexpr (TIMED) {
            if constexpr (SYSONLY) return with_sys(a, [&](auto tp) { return m.try_lock_until(tp); });
            else return with_tp(a, [&](auto tp) { return m.try_lock_until(tp); });
          }
          return RES_EXC_OTHER;
        case UNLOCK: m.unlock(); return RES_TRUE;
        case SLOCK: if constexpr (SHARED) { m.lock_shared(); return RES_TRUE; } return RES_EXC_OTHER;
        case STRY: if constexpr (SHARED) return m.try_lock_shared(); return RES_EXC_OTHER;
        case STRYFOR:
          if constexpr (SHARED && TIMED) {
            return with_dur(a, [&](auto d) { return m.try_lock_shared_for(d); });
          }
          return RES_EXC_OTHER;
        case STRYUNTIL:
          if constexpr (SHARED && TIMED) {
            if constexpr (SYSONLY) return with_sys(a, [&](auto tp) { return m.try_lock_shared_until(tp); });
            else return with_tp(a, [&](auto tp) { return m.try_lock_shared_until(tp); });
          }
          return RES_EXC_OTHER;
        case SUNLOCK: if constexpr (SHARED) { m.unlock_shared(); return RES_TRUE; } return RES_EXC_OTHER;
        default: return RES_EXC_OTHER;
      }
    });
    if (pay && r == RES_TRUE) {
      if (op <= TRYUNTIL) pay_write(pay);
      else if (op >= SLOCK && op <= STRYUNTIL) { long v = pay_read(pay); asm volatile("" ::"r"(v)); }
    }
    return r;
  }
};

struct Reg {
  template <class M, bool TIMED, bool SHARED, bool SYSONLY = false>
  static void add(const char* fam, const char* name, Policy pol, unsigned fl) {
    Caps c;
    c.name = name; c.family = fam; c.pol = pol;
    c.recursive = fl & 1; c.checked = fl & 2; c.detect = fl & 4; c.spin = fl & 8; c.busy = fl & 16;
    lock_registry().push_back(new LockImpl<M, TIMED, SHARED, SYSONLY>(c));
  }
};
UNIT_END
enum { F_REC = 1, F_CHK = 2, F_DET = 4, F_SPIN = 8, F_BUSY = 16 };

// Instrumented wrappers for semaphores, latch and barrier.
#include "sem_impl.h"
#include <cassert>
#include <cerrno>
#include <cstdint>
#include "yamc_semaphore.hpp"
#include "yamc_latch.hpp"
#include "yamc_barrier.hpp"
#include "posix_semaphore.hpp"

#ifndef EXP_SEMMAX
#define EXP_SEMMAX PTRDIFF_MAX
#endif
struct Comp { void (*f)(void*); void* c; void operator()() { f(c); } };
UNIT_BEGIN
struct LatchImpl : ISync {
  LatchImpl() { caps.name = "latch"; caps.family = "latch"; caps.kind = K_LATCH; caps.maxv = (yamc::latch::max)(); size = sizeof(yamc::latch); }
  void construct(void* p, int64_t init, void (*)(void*), void*) const override { new (p) yamc::latch(init); }
  int destroy(void* p) const override { static_cast<yamc::latch*>(p)->~latch(); return RES_TRUE; }
  int exec(void* p, SOpK op, int64_t n, const TimeArg&, Tok*) const override {
    yamc::latch& l = *static_cast<yamc::latch*>(p);
    return guarded([&]() -> int {
      switch (op) {
        case CD: if (n == 1) l.count_down(); else l.count_down(n); return RES_TRUE;
        case TW: return l.try_wait();
        case WAIT: l.wait(); return RES_TRUE;
        case AAW: if (n == 1) l.arrive_and_wait(); else l.arrive_and_wait(n); return RES_TRUE;
        default: return RES_EXC_OTHER;
      }
    });
  }
};
template <class B> struct BarrierImpl : ISync {
  BarrierImpl(const char* n, bool) { caps.name = n; caps.family = "barrier"; caps.kind = K_BARRIER; caps.maxv = (B::max)(); size = sizeof(B); }
  void construct(void* p, int64_t init, void (*done)(void*), void* ctx) const override {
    if constexpr (std::is_same<B, yamc::barrier<Comp>>::value) new (p) B(init, Comp{done, ctx});
    else { (void)done; (void)ctx; new (p) B(init); }
  }
  int destroy(void* p) const override { static_cast<B*>(p)->~B(); return RES_TRUE; }
  int exec(void* p, SOpK op, int64_t n, const TimeArg&, Tok* tok) const override {
    B& b = *static_cast<B*>(p);
    using T = typename B::arrival_token;
    static_assert(sizeof(T) <= sizeof(Tok), "token");
    return guarded([&]() -> int {
      switch (op) {
        case ARR: if (n == 1) new (tok) T(b.arrive()); else new (tok) T(b.arrive(n)); return RES_TRUE;
        case BWAIT: b.wait(std::move(*reinterpret_cast<T*>(tok))); return RES_TRUE;
        case BAAW: b.arrive_and_wait(); return RES_TRUE;
        case DROP: b.arrive_and_drop(); return RES_TRUE;
        default: return RES_EXC_OTHER;
      }
    });
  }
};
UNIT_END
static int reg = [] {
  auto& r = sync_registry();
  SCaps g = sc("gsem", false, false, U_OWN), p = sc("psem", true, true, U_REAL);
  r.push_back(new SemImpl<yamc::counting_semaphore<>>("counting_semaphore<>", g, EXP_SEMMAX, true));
  r.push_back(new SemImpl<yamc::binary_semaphore>("binary_semaphore", g, 1));
  r.push_back(new SemImpl<yamc::counting_semaphore<5>>("counting_semaphore<5>", g, 5));
  r.push_back(new SemImpl<yamc::posix::counting_semaphore<>>("posix::counting_semaphore<>", p));
  r.push_back(new SemImpl<yamc::posix::binary_semaphore>("posix::binary_semaphore", p, 1));
  r.push_back(new SemImpl<yamc::posix::counting_semaphore<5>>("posix::counting_semaphore<5>", p, 5));
  r.push_back(new LatchImpl());
  r.push_back(new BarrierImpl<yamc::barrier<Comp>>("barrier<F>", true));
  r.push_back(new BarrierImpl<yamc::barrier<>>("barrier<>", false));
  return 0;
}();

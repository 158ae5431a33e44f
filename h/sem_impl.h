// Instrumented wrapper for any semaphore type.
#pragma once
#include "lk_impl.h"
#include "sync.h"
UNIT_BEGIN
template <class S> struct SemImpl : ISync {
  SemImpl(const char* n, SCaps c, int64_t least = 0, bool exact = false) { caps = c; caps.atleast = least; caps.exact = exact; caps.name = n; caps.kind = K_SEM; caps.maxv = (S::max)(); size = sizeof(S); }
  void construct(void* p, int64_t init, void (*)(void*), void*) const override { new (p) S(init); }
  int destroy(void* p) const override { static_cast<S*>(p)->~S(); return RES_TRUE; }
  int exec(void* p, SOpK op, int64_t n, const TimeArg& a, Tok*) const override {
    S& s = *static_cast<S*>(p);
    return guarded([&]() -> int {
      switch (op) {
        case ACQ: s.acquire(); return RES_TRUE;
        case TRYA: return s.try_acquire();
        case TRYAFOR:
          return with_dur(a, [&](auto d) { return s.try_acquire_for(d); });
        case TRYAUNTIL:
          return with_tp(a, [&](auto tp) { return s.try_acquire_until(tp); });
        case REL: if (n == 1) s.release(); else s.release(n); return RES_TRUE;
        default: return RES_EXC_OTHER;
      }
    });
  }
};
UNIT_END
static SCaps sc(const char* fam, bool for_real, bool loop, Conv cv) { SCaps c; c.family = fam; c.for_real = for_real; c.loop_release = loop; c.conv = cv; return c; }

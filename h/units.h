// A program in two separately compiled parts: every type is registered once per part (UNIT=0, UNIT=1). merge_units()
// replaces each such pair by one type whose operations are spread over the parts.
#pragma once
#include "ops.h"
#include "sync.h"
#include "../rt/vs.h"
#include <string>
namespace units {
inline int part(unsigned op) {   // thread 0 lives in one part, thread 1 in the other, later threads call both
  int t = vs::self();
  switch (t < 0 ? 2 : t & 3) { case 0: return 0; case 1: return 1; case 2: return op & 1; default: return (op >> 1) & 1; }
}
struct Lock : ILock {
  const ILock* u[2];
  Lock(const ILock* a, const ILock* b) : u{a, b} { caps = a->caps; size = a->size; }
  void construct(void* p) const override { u[part(1)]->construct(p); }
  int destroy(void* p) const override { return u[part(0)]->destroy(p); }
  int exec(void* p, Op op, const TimeArg& a, long* pay) const override { return u[part(op)]->exec(p, op, a, pay); }
};
struct Sync : ISync {
  const ISync* u[2];
  Sync(const ISync* a, const ISync* b) : u{a, b} { caps = a->caps; size = a->size; }
  void construct(void* p, int64_t init, void (*done)(void*), void* ctx) const override { u[part(1)]->construct(p, init, done, ctx); }
  int destroy(void* p) const override { return u[part(0)]->destroy(p); }
  int exec(void* p, SOpK op, int64_t n, const TimeArg& a, Tok* tok) const override { return u[part(op)]->exec(p, op, n, a, tok); }
};
template <class S, class I> void merge(std::vector<I*>& r) {
  std::vector<I*> out;
  for (size_t i = 0; i < r.size(); i++) {
    if (!r[i]) continue;
    for (size_t j = i + 1; j < r.size(); j++)
      if (r[j] && std::string(r[i]->caps.name) == r[j]->caps.name) { r[i] = new S(r[i], r[j]); r[j] = nullptr; break; }
    out.push_back(r[i]);
  }
  r.swap(out);
}
}

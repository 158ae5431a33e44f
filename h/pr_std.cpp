// Programs that hand the library's objects to the standard library's own algorithms: std::lock, std::try_lock,
// std::unique_lock, std::shared_lock, std::lock_guard and std::condition_variable_any.
#include "free.h"
#include "yamc_shared_lock.hpp"
#include <chrono>
#include <condition_variable>
#include <cstdarg>
#include <cstdio>
#include <mutex>
#include <shared_mutex>
using vs::Rng;
static std::string sn(const char* f, ...) { char b[400]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
struct Held { int ex = 0, sh = 0; };
// a lockable whose every call is made on a mutex of the library and judged
struct StdAd {
  ILock* l; int blk; Held* h;
  static TimeArg in(int64_t ns) { TimeArg a; a.rep = R_NS; a.ns = ns; return a; }
  bool ok(Op op, const TimeArg& a = TimeArg()) {
    int r = l->exec(prog_mem(blk), op, a, nullptr);
    if (r != RES_TRUE && r != RES_FALSE) prog_fail("unexpected-throw", "%s.%s inside a standard algorithm threw: %s", l->caps.name, op_names[op], res_str(r).c_str());
    return r == RES_TRUE;
  }
  bool got(bool k, bool sh) { if (k) { mon_acq(blk, sh); ++(sh ? h->sh : h->ex); } return k; }
  void lock() { got(ok(LOCK), false); }
  bool try_lock() { return got(ok(TRY), false); }
  template <class R, class P> bool try_lock_for(const std::chrono::duration<R, P>& d) { return got(ok(TRYFOR, in(std::chrono::nanoseconds(d).count())), false); }
  void unlock() { mon_rel(blk, false); --h->ex; ok(UNLOCK); }
  void lock_shared() { got(ok(SLOCK), true); }
  bool try_lock_shared() { return got(ok(STRY), true); }
  template <class R, class P> bool try_lock_shared_for(const std::chrono::duration<R, P>& d) { return got(ok(STRYFOR, in(std::chrono::nanoseconds(d).count())), true); }
  void unlock_shared() { mon_rel(blk, true); --h->sh; ok(SUNLOCK); }
};
static void gone(ILock* l, int blk) {
  int r = l->destroy(prog_mem(blk));
  if (r != RES_TRUE) prog_fail("unexpected-throw", "destroying an unowned %s threw: %s", l->caps.name, res_str(r).c_str());
  prog_gone(blk, l->size);
}
using ns = std::chrono::nanoseconds;

// ---- condition_variable_any: a bounded queue under any lock, plus readers that wait for versions under shared locks
struct CvAny : Prog {
  ILock* l; uint64_t seed; bool versions, two, unlocked_notify; int producers, per, cap;
  long q[8]; int head = 0, n = 0; long taken[64]; long total, got = 0; long ver = 0, shadow = 0;
  std::condition_variable_any nonempty, nonfull;
  CvAny(Rng& r, const Sel& s, long e) {
    l = s.locks[(size_t)e % s.locks.size()]; seed = r.next(); nt = 2 + (int)r.below(4); maxsteps = 60000;
    versions = l->caps.shared && r.chance(512); two = r.chance(512); unlocked_notify = r.chance(400);
    producers = 1 + (int)r.below((uint32_t)nt - 1); per = 2 + (int)r.below(5); cap = 1 + (int)r.below(3); total = (long)producers * per;
    for (auto& t : taken) t = 0;
    prog_place(0, l->size); l->construct(prog_mem(0));
    desc = sn("%s threads=%d %s producers=%d x%d cap=%d%s", l->caps.name, nt, versions ? "versions" : "queue", producers, per, cap, two ? "" : " one condition");
  }
  std::condition_variable_any& full() { return two ? nonfull : nonempty; }
  template <class L, class F> void wait(Rng& r, L& lk, std::condition_variable_any& cv, F pred) {
    while (!pred()) {
      prog_count("cv_waits"); Held* h = lk.mutex()->h; Held before = *h;
      uint32_t k = r.below(4);
      if (k == 0) cv.wait_for(lk, ns(r.below(2000000)));
      else if (k == 1) cv.wait_until(lk, std::chrono::system_clock::now() + ns(r.below(2000000)));
      else cv.wait(lk);
      if (h->ex != before.ex || h->sh != before.sh || !lk.owns_lock()) prog_fail("inconsistent", "condition_variable_any returned without the lock re-acquired");
    }
  }
  void body(int t) override {
    Rng r(seed + (uint64_t)t * 91); Held h; StdAd m{l, 0, &h};
    if (versions) {
      if (t < producers) for (int k = 0; k < per; k++) {
        std::unique_lock<StdAd> g(m); ver++; if (r.chance(300)) vs::point(); shadow = ver; vs::progress();
        if (unlocked_notify) g.unlock();
        nonempty.notify_all();
      } else for (long want = 1 + (long)r.below(2); want <= total; want += 1 + (long)r.below(3)) {
        vs::progress();
        if (r.chance(200)) { std::unique_lock<StdAd> g(m); wait(r, g, nonempty, [&] { return ver >= want; }); if (ver != shadow) prog_fail("exclusion", "half-done update seen under the exclusive lock"); continue; }
        if (r.chance(400)) { yamc::shared_lock<StdAd> g(m); wait(r, g, nonempty, [&] { if (ver != shadow) prog_fail("rw-exclusion", "a reader saw a half-done update"); return ver >= want; }); continue; }
        std::shared_lock<StdAd> g(m); wait(r, g, nonempty, [&] { if (ver != shadow) prog_fail("rw-exclusion", "a reader saw a half-done update"); return ver >= want; });
      }
      if (h.ex || h.sh) prog_fail("inconsistent", "locks left over");
      return;
    }
    if (t < producers) for (int k = 0; k < per; k++) {
      std::unique_lock<StdAd> g(m); wait(r, g, full(), [&] { return n < cap; });
      q[(head + n) % 8] = (long)t * per + k; n++; vs::progress();
      if (unlocked_notify) g.unlock();
      if (two) nonempty.notify_one(); else nonempty.notify_all();
    } else for (;;) {
      std::unique_lock<StdAd> g(m); wait(r, g, nonempty, [&] { return n > 0 || got == total; });
      if (got == total) break;
      long v = q[head]; head = (head + 1) % 8; n--; got++; taken[v]++; vs::progress();
      bool last = got == total;
      if (unlocked_notify) g.unlock();
      if (two && !last) full().notify_one(); else { nonempty.notify_all(); nonfull.notify_all(); }
    }
    if (h.ex || h.sh) prog_fail("inconsistent", "locks left over");
  }
  void final() override {
    if (versions ? ver != total : got != total) prog_fail("exclusion", "%ld of %ld updates took place", versions ? ver : got, total);
    if (!versions) for (long i = 0; i < total; i++) if (taken[i] != 1) prog_fail("exclusion", "item %ld was delivered %ld times", i, taken[i]);
    gone(l, 0);
  }
};

// ---- std::lock / std::try_lock / unique_lock / shared_lock over random subsets in random order
struct StdLock : Prog {
  int nl; ILock* l[4]; uint64_t seed; int iters; long a[4], b[4], wrote[8][4];
  StdLock(Rng& r, const Sel& s, long e) {
    nl = 2 + (int)r.below(3); maxsteps = 20000; nt = 2 + (int)r.below(3); iters = 2 + (int)r.below(5); seed = r.next();
    for (int i = 0; i < nl; i++) { l[i] = i == 0 ? s.locks[(size_t)e % s.locks.size()] : s.locks[r.below((uint32_t)s.locks.size())]; a[i] = b[i] = 0; prog_place(i, l[i]->size); l[i]->construct(prog_mem(i)); desc += std::string(l[i]->caps.name) + " "; }
    for (auto& w : wrote) for (auto& x : w) x = 0;
    desc += sn("threads=%d x%d", nt, iters);
  }
  void use(Rng& r, int t, int i, bool sh) {
    if (sh) { long x = a[i]; if (r.chance(300)) vs::point(); if (b[i] != x) prog_fail("rw-exclusion", "a reader saw a half-done update of object %d (%s)", i, l[i]->caps.name); }
    else { if (!mon_held(i)) prog_fail("scoped", "mutex %d is not owned after a standard algorithm said so", i); long x = a[i]; a[i] = x + 1; if (r.chance(300)) vs::point(); b[i] = x + 1; wrote[t][i]++; }
  }
  static void expect(Held& h, int ex, int sh, const char* where) { if (h.ex != ex || h.sh != sh) prog_fail("scoped", "%s: %d exclusive and %d shared locks are held instead of %d and %d", where, h.ex, h.sh, ex, sh); }
  template <class SL> void moved(Rng& r, int t, StdAd& p, int i, Held& h) {
    SL g(p, std::defer_lock);
    bool got = p.l->caps.timed ? g.try_lock_for(ns((int64_t)r.below(3000000))) : g.try_lock();
    expect(h, 0, got, "shared_lock::try_lock");
    if (!got) return;
    SL g2(std::move(g)); use(r, t, i, true); g2.unlock(); expect(h, 0, 0, "shared_lock::unlock"); g2.lock(); use(r, t, i, true);
    if (r.chance(300)) { g = std::move(g2); expect(h, 0, 1, "move assignment of a shared_lock"); use(r, t, i, true); }
  }
  void body(int t) override {
    Rng r(seed + (uint64_t)t * 13);
    for (int k = 0; k < iters; k++) {
      Held h; int x[4] = {0, 1, 2, 3};
      for (int i = nl - 1; i > 0; i--) { int j = (int)r.below((uint32_t)i + 1); int y = x[i]; x[i] = x[j]; x[j] = y; }
      StdAd p{l[x[0]], x[0], &h}, q{l[x[1]], x[1], &h}, s{l[x[2 % nl]], x[2 % nl], &h};
      bool three = nl > 2 && r.chance(512);
      switch (r.below(9)) {
        case 0: { // std::lock on the mutexes, adopted by lock_guards
          if (three) std::lock(p, q, s); else std::lock(p, q);
          expect(h, three ? 3 : 2, 0, "std::lock");
          std::lock_guard<StdAd> g1(p, std::adopt_lock), g2(q, std::adopt_lock);
          use(r, t, x[0], false); use(r, t, x[1], false);
          if (three) { use(r, t, x[2], false); s.unlock(); }
          break; }
        case 1: { // std::try_lock: all or nothing
          int f = three ? std::try_lock(p, q, s) : std::try_lock(p, q);
          if (f == -1) { expect(h, three ? 3 : 2, 0, "std::try_lock"); use(r, t, x[0], false); use(r, t, x[1], false); p.unlock(); q.unlock(); if (three) { use(r, t, x[2], false); s.unlock(); } prog_count("try_lock_all"); }
          else { expect(h, 0, 0, "failed std::try_lock"); prog_count("try_lock_none"); }
          break; }
        case 2: { // deferred unique_locks
          std::unique_lock<StdAd> g1(p, std::defer_lock), g2(q, std::defer_lock);
          std::lock(g1, g2); expect(h, 2, 0, "std::lock of unique_locks");
          use(r, t, x[0], false); use(r, t, x[1], false);
          if (r.chance(512)) { g1.unlock(); expect(h, 1, 0, "unique_lock::unlock"); use(r, t, x[1], false); }
          break; }
        case 3: { // shared and exclusive together
          bool s1 = p.l->caps.shared, s2 = q.l->caps.shared;
          std::unique_lock<StdAd> u1(p, std::defer_lock), u2(q, std::defer_lock); std::shared_lock<StdAd> h1(p, std::defer_lock), h2(q, std::defer_lock);
          if (s1 && s2) std::lock(h1, h2); else if (s1) std::lock(h1, u2); else if (s2) std::lock(u1, h2); else std::lock(u1, u2);
          expect(h, !s1 + !s2, s1 + s2, "std::lock of shared_locks");
          use(r, t, x[0], s1); use(r, t, x[1], s2);
          break; }
        case 4: { // one timed or non-blocking unique_lock
          std::unique_lock<StdAd> g(p, std::defer_lock);
          bool got = p.l->caps.timed ? g.try_lock_for(ns((int64_t)r.below(3000000))) : g.try_lock();
          expect(h, got, 0, "unique_lock::try_lock");
          if (got) { use(r, t, x[0], false); StdAd* m = g.release(); expect(h, 1, 0, "unique_lock::release"); m->unlock(); }
          break; }
        case 5: { // one timed or non-blocking shared_lock, moved
          if (p.l->caps.shared) { if (r.chance(512)) moved<std::shared_lock<StdAd>>(r, t, p, x[0], h); else moved<yamc::shared_lock<StdAd>>(r, t, p, x[0], h); }
          break; }
        case 6: case 7: { // nested, always in the same order: may meet std::lock, which never waits while it owns something
          StdAd* v[3] = {&p, &q, &s}; int n = three ? 3 : 2;
          for (int i = 1; i < n; i++) for (int j = i; j > 0 && v[j]->blk < v[j - 1]->blk; j--) { StdAd* y = v[j]; v[j] = v[j - 1]; v[j - 1] = y; }
          bool sh[3]; int ex = 0;
          for (int i = 0; i < n; i++) { sh[i] = v[i]->l->caps.shared && r.chance(512); ex += !sh[i]; if (sh[i]) v[i]->lock_shared(); else v[i]->lock(); if (r.chance(300)) vs::point(); }
          expect(h, ex, n - ex, "nested locks");
          for (int i = n - 1; i >= 0; i--) { use(r, t, v[i]->blk, sh[i]); if (sh[i]) v[i]->unlock_shared(); else v[i]->unlock(); }
          break; }
        default: { // swap and move between unique_locks
          std::lock(p, q);
          std::unique_lock<StdAd> g1(p, std::adopt_lock), g2(q, std::adopt_lock); std::swap(g1, g2);
          g1 = std::move(g2); expect(h, 1, 0, "move assignment of a unique_lock");
          use(r, t, x[0], false);
        }
      }
      expect(h, 0, 0, "end of scope");
      vs::progress();
    }
  }
  void final() override {
    for (int i = 0; i < nl; i++) { long n = 0; for (auto& w : wrote) n += w[i]; if (n != a[i] || n != b[i]) prog_fail("exclusion", "%ld updates under %s but the counter is %ld", n, l[i]->caps.name, a[i]); gone(l[i], i); }
  }
};
#define P(name, group, nl, ns, expr) {name, group, nl, ns, [](Rng& r, const Sel& s, long e) -> Prog* { (void)e; return expr; }}
static int reg = [] {
  auto& v = prog_registry();
  for (auto& d : std::vector<ProgDef>{P("cvany", "std", true, false, new CvAny(r, s, e)), P("stdlock", "std", true, false, new StdLock(r, s, e))}) v.push_back(d);
  return 0;
}();

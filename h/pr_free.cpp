// Free-running programs (instrumented: all their plain accesses are race checked).
#include "free.h"
#include "yamc_scoped_lock.hpp"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <mutex>
#include <thread>
using vs::Rng;
template <class T> static T& pick(Rng& r, std::vector<T>& v) { return v[r.below((uint32_t)v.size())]; }
static std::string sn(const char* f, ...) { char b[400]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
static ILock* lk(Rng& r, const Sel& s, long e) { (void)r; return s.locks[(size_t)e % s.locks.size()]; }

static TimeArg tm(Rng& r, const Caps& c, bool until, bool far) {
  TimeArg a; int64_t d = far ? 3600ll * 1000000000 : r.chance(100) ? -(int64_t)r.below(1000000) : (int64_t)r.below(3000000);
  static const uint8_t reps[] = {R_NS, R_NS, R_MS, R_SEC, R_USI};
  a.rep = far ? (uint8_t)R_NS : reps[r.below(5)];
  if (a.rep == R_MS) d = d / 1000000 * 1000000; if (a.rep == R_SEC) d = r.chance(512) ? 0 : 1000000000; if (a.rep == R_USI) d = d < 0 ? 0 : d / 1000 * 1000;
  a.ns = d;
  if (!until) return a;
  a.rep = R_NS;
  static const uint8_t ck[] = {C_STEADY, C_SYSTEM, C_CUSTOM, C_SLOW};
  a.clk = c.until_system_only ? (uint8_t)C_SYSTEM : ck[r.below(4)];
  a.ns = d + (a.clk == C_SYSTEM ? vs::real_now() : a.clk == C_CUSTOM ? vs::mono_now() + CUSTOM_OFF : a.clk == C_SLOW ? (vs::mono_now() - VBASE) / 2 : vs::mono_now());
  return a;
}
// one acquisition; must: keep trying until owned. returns whether owned
static bool acquire(Rng& r, const ILock* l, void* m, bool sh, bool must, const char** how = nullptr) {
  for (;;) {
    uint32_t k = r.below(1024);
    Op op; TimeArg a;
    if (l->caps.timed && k < 350) { bool u = r.chance(512); op = u ? (sh ? STRYUNTIL : TRYUNTIL) : (sh ? STRYFOR : TRYFOR); a = tm(r, l->caps, u, r.chance(300)); }
    else if (k < 500 && !(must && l->caps.busy)) op = sh ? STRY : TRY;
    else op = sh ? SLOCK : LOCK;
    int res = l->exec(m, op, a, nullptr);
    if (how) *how = op_names[op];
    prog_count(res == RES_TRUE ? "acquired" : "not_acquired");
    if (res == RES_TRUE) { vs::progress(); return true; }
    if (res != RES_FALSE) prog_fail("unexpected-throw", "%s.%s threw: %s", l->caps.name, op_names[op], res_str(res).c_str());
    if (!must) return false;
    if (r.chance(200)) { int x = l->exec(m, sh ? SLOCK : LOCK, a, nullptr); if (x != RES_TRUE) prog_fail("unexpected-throw", "%s.lock threw: %s", l->caps.name, res_str(x).c_str()); vs::progress(); return true; }
  }
}
static void release(const ILock* l, void* m, bool sh) {
  int r = l->exec(m, sh ? SUNLOCK : UNLOCK, TimeArg(), nullptr);
  if (r != RES_TRUE) prog_fail("unexpected-throw", "%s.unlock by the owner threw: %s", l->caps.name, res_str(r).c_str());
  vs::progress();
}
static void destroy(const ILock* l, int blk) {
  int r = l->destroy(prog_mem(blk));
  if (r != RES_TRUE) prog_fail("unexpected-throw", "destroying an unowned %s threw: %s", l->caps.name, res_str(r).c_str());
  prog_gone(blk, l->size);
}
static int call(const ISync* s, void* p, SOpK op, int64_t n = 1, Tok* tok = nullptr, TimeArg a = TimeArg()) {
  int r = s->exec(p, op, n, a, tok);
  if (r >= RES_EXC) prog_fail("unexpected-throw", "%s.%s threw: %s", s->caps.name, sop_names[op], res_str(r).c_str());
  vs::progress();
  return r;
}
static void sem_acquire(Rng& r, const ISync* s, void* p) {
  for (;;) {
    uint32_t k = r.below(4);
    TimeArg a; a.ns = (int64_t)r.below(2000000);
    if (k == 1) { if (call(s, p, TRYA)) return; }
    else if (k == 2) { if (call(s, p, TRYAFOR, 1, nullptr, a)) return; }
    else if (k == 3) { a.clk = r.chance(512) ? C_SYSTEM : C_STEADY; a.ns += a.clk == C_SYSTEM ? vs::real_now() : vs::mono_now(); if (call(s, p, TRYAUNTIL, 1, nullptr, a)) return; }
    else { call(s, p, ACQ); return; }
    if (r.chance(300)) { call(s, p, ACQ); return; }
  }
}
static ISync* of(const Sel& s, Rng& r, SKind k, int64_t minmax = 0) {
  std::vector<ISync*> v;
  for (auto* i : s.syncs) if (i->caps.kind == k && i->caps.maxv >= minmax) v.push_back(i);
  return v.empty() ? nullptr : pick(r, v);
}

// ---- plain data behind locks
struct Mtx : Prog {
  struct alignas(16) Cell { long a, b; };
  int nl; ILock* l[3]; Cell cell[3]; long wrote[8][3]; uint64_t seed; int iters; bool life; long refs;
  Mtx(Rng& r, const Sel& s, long e) {
    nt = 2 + (int)r.below(4); nl = 1 + (int)r.below(3); iters = 3 + (int)r.below(10); seed = r.next(); life = false;
    for (int i = 0; i < nl; i++) { l[i] = i == 0 ? lk(r, s, e) : s.locks[r.below((uint32_t)s.locks.size())]; cell[i] = {0, 0}; prog_place(i, l[i]->size); l[i]->construct(prog_mem(i)); desc += std::string(l[i]->caps.name) + " "; }
    for (auto& w : wrote) for (auto& x : w) x = 0;
    desc += sn("threads=%d iters=%d", nt, iters);
  }
  void use(Rng& r, int t, int i, bool sh) {
    if (sh) {
      long a = cell[i].a; if (r.chance(300)) vs::point(); long b = cell[i].b;
      if (a != b) prog_fail("rw-exclusion", "a reader saw a half-done update of object %d (%s)", i, l[i]->caps.name);
    } else { long v = cell[i].a; cell[i].a = v + 1; if (r.chance(300)) vs::point(); cell[i].b = v + 1; wrote[t][i]++; }
  }
  void nest(Rng& r, int t, int from) {
    for (int i = from; i < nl; i++) {
      if (r.chance(400)) continue;
      bool sh = l[i]->caps.shared && r.chance(600);
      if (!acquire(r, l[i], prog_mem(i), sh, r.chance(700))) continue;
      mon_acq(i, sh);
      int depth = 1;
      if (l[i]->caps.recursive) while (depth < 4 && r.chance(400)) {
        const char* h = "";
        if (!acquire(r, l[i], prog_mem(i), false, false, &h)) prog_fail("recursion", "the owner of a %s failed to re-acquire it with %s", l[i]->caps.name, h);
        mon_acq(i, false); depth++;
      }
      use(r, t, i, sh);
      if (r.chance(300)) nest(r, t, i + 1);
      use(r, t, i, sh);
      while (depth--) { if (depth) use(r, t, i, sh); mon_rel(i, sh); release(l[i], prog_mem(i), sh); }
    }
  }
  void body(int t) override { Rng r(seed + (uint64_t)t * 77); for (int k = 0; k < iters; k++) nest(r, t, 0); }
  void final() override {
    for (int i = 0; i < nl; i++) {
      long n = 0; for (auto& w : wrote) n += w[i];
      if (n != cell[i].a || n != cell[i].b) prog_fail("exclusion", "%ld updates under %s but the counter is %ld/%ld", n, l[i]->caps.name, cell[i].a, cell[i].b);
      destroy(l[i], i);
    }
  }
};

// ---- the last user of a lock destroys it while others may still be inside unlock
struct LifeMtx : Prog {
  ILock* l; uint64_t seed; int variant, iters; long refs; long flag[8]; bool done = false;
  LifeMtx(Rng& r, const Sel& s, long e) {
    l = lk(r, s, e); nt = 2 + (int)r.below(4); seed = r.next(); iters = 1 + (int)r.below(3); refs = (long)nt * iters;
    variant = l->caps.shared ? (int)r.below(3) : 0;
    for (auto& f : flag) f = 0;
    if (variant == 2) nt = 2;
    prog_place(0, l->size); l->construct(prog_mem(0));
    desc = sn("%s threads=%d variant=%d x%d", l->caps.name, nt, variant, iters);
  }
  void body(int t) override {
    Rng r(seed + (uint64_t)t); void* m = prog_mem(0);
    if (variant == 0) {
      for (int k = 0; k < iters; k++) {
        acquire(r, l, m, false, true);
        int d = 1; if (l->caps.recursive) while (d < 3 && r.chance(400)) { l->exec(m, LOCK, TimeArg(), nullptr); d++; }
        bool last = --refs == 0;
        while (d--) release(l, m, false);
        if (last) { destroy(l, 0); done = true; }
      }
    } else if (variant == 1) {   // a writer destroys once every reader has reported in
      if (t > 0) { acquire(r, l, m, true, true); flag[t] = 1; release(l, m, true); return; }
      for (;;) { acquire(r, l, m, false, true); bool all = true; for (int i = 1; i < nt; i++) all &= flag[i] == 1; release(l, m, false); if (all) break; std::this_thread::sleep_for(std::chrono::milliseconds(1)); }
      destroy(l, 0); done = true;
    } else {                     // a reader destroys once the writer has written
      if (t == 0) { acquire(r, l, m, false, true); flag[0] = 1; release(l, m, false); return; }
      for (;;) { acquire(r, l, m, true, true); bool f = flag[0] == 1; release(l, m, true); if (f) break; std::this_thread::sleep_for(std::chrono::milliseconds(1)); }
      destroy(l, 0); done = true;
    }
  }
  void final() override { if (!done) prog_fail("inconsistent", "%s: nobody became the last user", l->caps.name); }
};

// ---- semaphores
struct SemMtx : Prog {
  ISync* s; uint64_t seed; int iters; long a = 0, b = 0; long wrote[8]; int n; long used[4];
  SemMtx(Rng& r, const Sel& sel, long) {
    s = of(sel, r, K_SEM); nt = 2 + (int)r.below(4); iters = 3 + (int)r.below(8); seed = r.next();
    for (auto& w : wrote) w = 0; for (auto& u : used) u = 0;
    prog_place(0, s->size); s->construct(prog_mem(0), 1, nullptr, nullptr);
    desc = sn("%s threads=%d iters=%d", s->caps.name, nt, iters);
  }
  void body(int t) override {
    Rng r(seed + (uint64_t)t);
    for (int k = 0; k < iters; k++) {
      sem_acquire(r, s, prog_mem(0)); mon_acq(0, false);
      long v = a; a = v + 1; if (r.chance(300)) vs::point(); b = v + 1; wrote[t]++;
      mon_rel(0, false); call(s, prog_mem(0), REL, 1);
    }
  }
  void final() override {
    long n = 0; for (auto w : wrote) n += w;
    if (n != a || a != b) prog_fail("conservation", "%ld updates under a one-permit semaphore but counter is %ld/%ld", n, a, b);
    s->destroy(prog_mem(0)); prog_gone(0, s->size);
  }
};
struct Buffer : Prog {   // bounded buffer; exactly-once delivery, ordering through the semaphores only
  ISync *items, *slots, *pm, *cm; uint64_t seed; int np, nc, per, cap; long ring[4]; int head = 0, tail = 0; long got[64]; int ngot = 0; int quota[8];
  int bulk;
  Buffer(Rng& r, const Sel& sel, long) {
    cap = 1 + (int)r.below(4);
    items = of(sel, r, K_SEM, cap); slots = of(sel, r, K_SEM, cap); pm = of(sel, r, K_SEM); cm = of(sel, r, K_SEM);
    if (!items) { cap = 1; items = slots = pm; }
    np = 1 + (int)r.below(2); nc = 1 + (int)r.below(2); nt = np + nc; per = 2 + (int)r.below(6); seed = r.next(); bulk = np == 1 && nc == 1 && r.chance(400);
    int tot = np * per; for (int i = 0; i < nc; i++) { quota[i] = tot / nc; } quota[0] += tot - nc * (tot / nc);
    ISync* all[] = {items, slots, pm, cm}; int64_t init[] = {0, cap, 1, 1};
    for (int i = 0; i < 4; i++) { prog_place(i, all[i]->size); all[i]->construct(prog_mem(i), init[i], nullptr, nullptr); }
    for (auto& g : got) g = -1; for (auto& x : ring) x = -1;
    desc = sn("items %s slots %s producers=%d consumers=%d per=%d cap=%d", items->caps.name, slots->caps.name, np, nc, per, cap);
  }
  void body(int t) override {
    Rng r(seed + (uint64_t)t);
    if (t < np) for (int k = 0; k < per; k++) {
      sem_acquire(r, slots, prog_mem(1)); if (np > 1) sem_acquire(r, pm, prog_mem(2));
      ring[tail] = t * 100 + k; tail = (tail + 1) % cap;
      if (np > 1) call(pm, prog_mem(2), REL);
      call(items, prog_mem(0), REL);
    } else for (int k = 0; k < quota[t - np]; k++) {
      sem_acquire(r, items, prog_mem(0)); if (nc > 1) sem_acquire(r, cm, prog_mem(3));
      long v = ring[head]; ring[head] = -1; head = (head + 1) % cap; got[ngot++] = v;
      if (nc > 1) call(cm, prog_mem(3), REL);
      call(slots, prog_mem(1), REL);
    }
  }
  void final() override {
    int next[4] = {0, 0, 0, 0};
    for (int i = 0; i < ngot; i++) {
      int p = (int)(got[i] / 100), k = (int)(got[i] % 100);
      if (got[i] < 0 || p >= np || k != next[p]) prog_fail("conservation", "item %d of the buffer is %ld, expected #%d of its producer", i, got[i], p < np && p >= 0 ? next[p] : -1);
      next[p]++;
    }
    if (ngot != np * per) prog_fail("conservation", "%d of %d items arrived", ngot, np * per);
    ISync* all[] = {items, slots, pm, cm}; for (int i = 0; i < 4; i++) { all[i]->destroy(prog_mem(i)); prog_gone(i, all[i]->size); }
  }
};
struct LifeSem : Prog {   // the acquirer destroys the semaphore while releasers may still be inside release
  ISync* s; uint64_t seed; int n; long cell[8]; bool bulk, done = false; int64_t init;
  LifeSem(Rng& r, const Sel& sel, long) {
    n = 1 + (int)r.below(4); s = of(sel, r, K_SEM, n); if (!s) { s = of(sel, r, K_SEM); n = 1; }
    bulk = r.chance(400); nt = 1 + (bulk ? 1 : n); seed = r.next(); for (auto& c : cell) c = 0;
    prog_place(0, s->size); s->construct(prog_mem(0), 0, nullptr, nullptr);
    desc = sn("%s releasers=%d bulk=%d n=%d", s->caps.name, nt - 1, bulk, n);
  }
  void body(int t) override {
    Rng r(seed + (uint64_t)t);
    if (t > 0) { cell[t] = t; s->exec(prog_mem(0), REL, bulk ? n : 1, TimeArg(), nullptr); vs::progress(); return; }
    for (int i = 0; i < n; i++) sem_acquire(r, s, prog_mem(0));
    for (int i = 1; i < nt; i++) if (cell[i] != i) prog_fail("race", "a write made before release is not visible after acquire");
    s->destroy(prog_mem(0)); prog_gone(0, s->size); done = true;
  }
};
// ---- latch
struct LatchP : Prog {
  ISync* s; uint64_t seed; int workers; long cell[8]; int64_t amount[8]; int mode[8]; int64_t tot = 0; bool life; int rounds;
  LatchP(Rng& r, const Sel& sel, bool lf) : life(lf) {
    s = of(sel, r, K_LATCH); nt = 2 + (int)r.below(5); seed = r.next();
    for (int t = 0; t < 8; t++) { cell[t] = 0; amount[t] = 0; mode[t] = 0; }
    // 0: count_down only 1: arrive_and_wait 2: wait 3: poll try_wait
    for (int t = 0; t < nt; t++) {
      mode[t] = life ? (t == 0 ? (r.chance(512) ? 2 : 1) : 0) : (int)r.below(4);
      if (mode[t] < 2) { amount[t] = r.chance(60) ? 0 : 1 + (int64_t)r.below(3); if (life && t > 0 && amount[t] == 0) amount[t] = 1; if (r.chance(30)) amount[t] += 1ll << 33; tot += amount[t]; }
    }
    prog_place(0, s->size); s->construct(prog_mem(0), tot, nullptr, nullptr);
    desc = sn("count=%ld threads=%d", (long)tot, nt); for (int t = 0; t < nt; t++) desc += sn(" %d:%ld", mode[t], (long)amount[t]);
  }
  void check(int t) {
    for (int i = 0; i < nt; i++) if (mode[i] < 2 && amount[i] && cell[i] != 100 + i) prog_fail("early-release", "thread %d passed the latch before thread %d counted down", t, i);
    if (call(s, prog_mem(0), TW) != RES_TRUE) prog_fail("try-wait", "try_wait is false after wait returned");
  }
  void body(int t) override {
    void* p = prog_mem(0);
    if (mode[t] < 2 && amount[t]) cell[t] = 100 + t;
    switch (mode[t]) {
      case 0: s->exec(p, CD, amount[t], TimeArg(), nullptr); vs::progress(); if (!life) { call(s, p, WAIT); check(t); } break;
      case 1: call(s, p, AAW, amount[t]); check(t); break;
      case 2: call(s, p, WAIT); check(t); break;
      default: for (int i = 0;; i++) { if (call(s, p, TW)) break; if (i > 20) { call(s, p, WAIT); break; } } check(t);
    }
    if (life && t == 0) { s->destroy(p); prog_gone(0, s->size); }
  }
  void final() override { if (!life) { s->destroy(prog_mem(0)); prog_gone(0, s->size); } }
};
// ---- barrier: everyone writes its cell, after the phase everyone reads all cells
struct BarrierP : Prog {
  ISync* s; uint64_t seed; int phases; long cell[2][8]; long sum = 0; long nsum = 0; int left[8]; long order = 0; bool comp; bool bulk;
  int arrivals[64]; // expected arrivals per phase
  BarrierP(Rng& r, const Sel& sel, bool drops) {
    s = of(sel, r, K_BARRIER); comp = !strcmp(s->caps.name, "barrier<F>"); nt = 1 + (int)r.below(6); phases = 1 + (int)r.below(8); seed = r.next();
    for (int t = 0; t < 8; t++) { left[t] = drops && t > 0 && r.chance(500) ? (int)r.below((uint32_t)phases) : phases; cell[0][t] = cell[1][t] = -1; }
    if (drops && r.chance(400)) left[0] = phases - 1;   // nobody remains
    prog_place(0, s->size); s->construct(prog_mem(0), nt, [](void* c) { ((BarrierP*)c)->complete(); }, this);
    desc = sn("%s threads=%d phases=%d", s->caps.name, nt, phases); for (int t = 0; t < nt; t++) if (left[t] < phases) desc += sn(" drop(%d@%d)", t, left[t]);
  }
  void complete() {   // runs with every arrival of the phase made and nobody released
    long p = nsum, x = 0;
    for (int t = 0; t < nt; t++) if (left[t] >= p) { if (cell[p & 1][t] != p) prog_fail("early-completion", "the completion function of phase %ld ran before thread %d arrived", p, t); x += t; }
    sum = x; nsum = p + 1;
  }
  void body(int t) override {
    Rng r(seed + (uint64_t)t);
    for (int p = 0; p < phases; p++) {
      cell[p & 1][t] = p;
      if (p == left[t]) { call(s, prog_mem(0), DROP); return; }
      if (r.chance(400)) {
        Tok tok; call(s, prog_mem(0), ARR, 1, &tok);
        if (r.chance(500)) vs::point();
        call(s, prog_mem(0), BWAIT, 1, &tok);
      } else call(s, prog_mem(0), BAAW);
      if (comp && nsum != p + 1) prog_fail(nsum < p + 1 ? "early-release" : "completion-count", "after phase %d thread %d sees %ld completions", p, t, nsum);
      for (int i = 0; i < nt; i++) if (left[i] >= p && cell[p & 1][i] != p) prog_fail("early-release", "thread %d passed phase %d but thread %d's arrival is not visible (%ld)", t, p, i, cell[p & 1][i]);
      // read-side closes with a second barrier phase in odd programs: cells are double buffered, so a thread may be one phase ahead only
    }
  }
  void final() override {
    if (comp && nsum != phases) prog_fail("completion-count", "%ld completions for %d phases", nsum, phases);
    s->destroy(prog_mem(0)); prog_gone(0, s->size);
  }
};
struct LifeBarrier : Prog {
  ISync* s; uint64_t seed; long cell[8]; long comps = 0; int waiter; bool bulk;
  LifeBarrier(Rng& r, const Sel& sel, long) {
    s = of(sel, r, K_BARRIER); nt = 2 + (int)r.below(4); seed = r.next(); for (auto& c : cell) c = 0; bulk = r.chance(300);
    prog_place(0, s->size); s->construct(prog_mem(0), bulk ? 1 + 2 * (nt - 1) : nt, [](void* c) { ((LifeBarrier*)c)->comps++; }, this);
    desc = sn("%s arrivers=%d bulk=%d", s->caps.name, nt - 1, bulk);
  }
  void body(int t) override {
    Rng r(seed + (uint64_t)t); void* p = prog_mem(0); cell[t] = t + 1;
    if (t > 0) { Tok k; s->exec(p, ARR, bulk ? 2 : 1, TimeArg(), &k); vs::progress(); return; }
    if (r.chance(512)) { Tok k; call(s, p, ARR, 1, &k); call(s, p, BWAIT, 1, &k); } else call(s, p, BAAW);
    for (int i = 0; i < nt; i++) if (cell[i] != i + 1) prog_fail("early-release", "the waiter passed before thread %d arrived", i);
    if (!strcmp(s->caps.name, "barrier<F>") && comps != 1) prog_fail("completion-count", "%ld completions", comps);
    s->destroy(p); prog_gone(0, s->size);
  }
};
// ---- several mutexes at once
struct Ad {
  ILock* l; int blk; int* held; bool adopted = false;
  void got() { mon_acq(blk, false); ++*held; }
  void lock() { int r = l->exec(prog_mem(blk), LOCK, TimeArg(), nullptr); if (r != RES_TRUE) prog_fail("unexpected-throw", "%s.lock: %s", l->caps.name, res_str(r).c_str()); got(); }
  bool try_lock() { int r = l->exec(prog_mem(blk), TRY, TimeArg(), nullptr); if (r > 1) prog_fail("unexpected-throw", "%s.try_lock: %s", l->caps.name, res_str(r).c_str()); if (r) got(); return r; }
  void unlock() { mon_rel(blk, false); --*held; int r = l->exec(prog_mem(blk), UNLOCK, TimeArg(), nullptr); if (r != RES_TRUE) prog_fail("unexpected-throw", "%s.unlock: %s", l->caps.name, res_str(r).c_str()); }
};
struct Scoped : Prog {
  int nl; ILock* l[4]; uint64_t seed; int iters; long cell[4]; long wrote[8][4];
  Scoped(Rng& r, const Sel& s, long e) {
    nl = 1 + (int)r.below(4); maxsteps = 20000; nt = 2 + (int)r.below(3); iters = 2 + (int)r.below(4); seed = r.next();
    for (int i = 0; i < nl; i++) { l[i] = i == 0 ? lk(r, s, e) : s.locks[r.below((uint32_t)s.locks.size())]; cell[i] = 0; prog_place(i, l[i]->size); l[i]->construct(prog_mem(i)); desc += std::string(l[i]->caps.name) + " "; }
    for (auto& w : wrote) for (auto& x : w) x = 0;
    desc += sn("threads=%d", nt);
  }
  template <class... A> void with(Rng& r, int t, int* held, A&... a) {
    Ad* v[] = {&a...}; int n = (int)sizeof...(A);
    auto work = [&] {
      if (*held != n) prog_fail("scoped", "%d of %d mutexes are locked inside scoped_lock", *held, n);
      for (int i = 0; i < n; i++) { if (!mon_held(v[i]->blk)) prog_fail("scoped", "mutex %d is not owned inside scoped_lock", v[i]->blk); cell[v[i]->blk]++; wrote[t][v[i]->blk]++; }
      if (r.chance(300)) vs::point();
    };
    if (r.chance(200)) { std::lock(a..., *extra); extra->unlock(); { yamc::scoped_lock<A...> g(std::adopt_lock, a...); work(); } }
    else { yamc::scoped_lock<A...> g(a...); work(); }
    vs::progress();
    if (*held) prog_fail("scoped", "%d mutexes still locked after scoped_lock is gone", *held);
  }
  struct NullM { void lock() {} bool try_lock() { return true; } void unlock() {} } nul, *extra = &nul;
  void body(int t) override {
    Rng r(seed + (uint64_t)t);
    for (int k = 0; k < iters; k++) {
      int held = 0, idx[4] = {0, 1, 2, 3};
      for (int i = nl - 1; i > 0; i--) { int j = (int)r.below((uint32_t)i + 1); int x = idx[i]; idx[i] = idx[j]; idx[j] = x; }
      int n = 1 + (int)r.below((uint32_t)nl);
      Ad a{l[idx[0]], idx[0], &held}, b{l[idx[1 % nl]], idx[1 % nl], &held}, c{l[idx[2 % nl]], idx[2 % nl], &held}, d{l[idx[3 % nl]], idx[3 % nl], &held};
      if (n == 1) with(r, t, &held, a); else if (n == 2) with(r, t, &held, a, b); else if (n == 3) with(r, t, &held, a, b, c); else with(r, t, &held, a, b, c, d);
    }
  }
  void final() override {
    for (int i = 0; i < nl; i++) { long n = 0; for (auto& w : wrote) n += w[i]; if (n != cell[i]) prog_fail("exclusion", "%ld updates but the counter is %ld", n, cell[i]); destroy(l[i], i); }
  }
};
// ---- philosophers: deadlocks are reported, the reported thread backs off, everybody eats
struct Phil : Prog {
  int nl; ILock* l[6]; uint64_t seed; int meals; long cell[6], wrote[6];
  Phil(Rng& r, const Sel& s, long) {
    nt = nl = 2 + (int)r.below(4); meals = 1 + (int)r.below(4); seed = r.next();
    std::vector<ILock*> v; for (auto* x : s.locks) if (x->caps.detect) v.push_back(x);
    if (v.empty()) { nt = nl = 0; }
    for (int i = 0; i < nl; i++) { l[i] = pick(r, v); cell[i] = wrote[i] = 0; prog_place(i, l[i]->size); l[i]->construct(prog_mem(i)); desc += std::string(l[i]->caps.name) + " "; }
    if (nl == 0) { nt = 1; desc = "(no detecting type selected)"; }
  }
  void body(int t) override {
    if (!nl) return;
    Rng r(seed + (uint64_t)t);
    for (int m = 0; m < meals; m++) {
      int a = t, b = (t + 1) % nl;
      for (int att = 0;; att++) {
        bool sa = l[a]->caps.shared && r.chance(300), sb = l[b]->caps.shared && r.chance(300);
        int ra = l[a]->exec(prog_mem(a), sa ? SLOCK : LOCK, TimeArg(), nullptr);
        if (ra == RES_EXC + EDEADLK) prog_fail("false-deadlock", "a thread holding nothing was told it deadlocks on %s", l[a]->caps.name);
        if (ra != RES_TRUE) prog_fail("unexpected-throw", "%s.lock: %s", l[a]->caps.name, res_str(ra).c_str());
        mon_acq(a, sa); vs::progress();
        if (r.chance(400)) vs::point();
        int rb = l[b]->exec(prog_mem(b), sb ? SLOCK : LOCK, TimeArg(), nullptr);
        if (rb == RES_TRUE) {
          mon_acq(b, sb); vs::progress();
          if (!sa) cell[a]++; if (!sb) cell[b]++;
          if (!sa) wrote[a] += 0;
          mon_rel(b, sb); release(l[b], prog_mem(b), sb);
          mon_rel(a, sa); release(l[a], prog_mem(a), sa);
          prog_count("meals");
          break;
        }
        if (rb != RES_EXC + EDEADLK) prog_fail("unexpected-throw", "%s.lock: %s", l[b]->caps.name, res_str(rb).c_str());
        prog_count("deadlocks_reported");
        mon_rel(a, sa); release(l[a], prog_mem(a), sa);
        if (att > 40) { break; }   // fairness is not promised here
      }
    }
  }
  void final() override { for (int i = 0; i < nl; i++) destroy(l[i], i); }
};
// ---- objects private to a thread: everything succeeds at once; blocks are recycled between types
struct Indep : Prog {
  uint64_t seed; const Sel* sel; int nobj;
  Indep(Rng& r, const Sel& s, long) { sel = &s; nt = 2 + (int)r.below(5); nobj = 2 + (int)r.below(6); seed = r.next(); desc = sn("threads=%d objects=%d each", nt, nobj); }
  void one(Rng& r, int blk, const ILock* l) {
    void* m = prog_mem(blk); prog_place(blk, l->size); l->construct(m);
    int n = 1 + (int)r.below(5);
    for (int k = 0; k < n; k++) {
      bool sh = l->caps.shared && r.chance(500); Op op; TimeArg a;
      uint32_t c = r.below(4);
      if (l->caps.timed && c < 2) { bool u = c; op = u ? (sh ? STRYUNTIL : TRYUNTIL) : (sh ? STRYFOR : TRYFOR); a = tm(r, l->caps, u, r.chance(512)); }
      else op = c == 2 && !l->caps.spin ? (sh ? STRY : TRY) : sh ? SLOCK : LOCK;
      int64_t t0 = vs::mono_now(); (void)t0;
      int res = l->exec(m, op, a, nullptr);
      if (res != RES_TRUE) prog_fail("independence", "%s.%s on an object nobody else uses: %s", l->caps.name, op_names[op], res_str(res).c_str());
      vs::progress();
      int rel = 1;
      if (l->caps.recursive && r.chance(400)) { res = l->exec(m, r.chance(512) ? LOCK : TRY, TimeArg(), nullptr); if (res != RES_TRUE) prog_fail("independence", "%s: nested acquisition failed: %s", l->caps.name, res_str(res).c_str()); rel = 2; }
      while (rel--) { res = l->exec(m, sh ? SUNLOCK : UNLOCK, TimeArg(), nullptr); if (res != RES_TRUE) prog_fail("independence", "%s.unlock: %s", l->caps.name, res_str(res).c_str()); }
      vs::progress();
    }
    destroy(l, blk);
  }
  void two(Rng& r, int blk, const ISync* s) {
    void* p = prog_mem(blk); prog_place(blk, s->size);
    int64_t n = s->caps.kind == K_BARRIER ? 1 : (int64_t)r.below(2);
    long comps = 0;
    s->construct(p, n, [](void* c) { ++*(long*)c; }, &comps);
    if (s->caps.kind == K_SEM) {
      if (call(s, p, TRYA) != (n > 0)) prog_fail("independence", "%s fresh with %ld permits: try_acquire is wrong", s->caps.name, (long)n);
      call(s, p, REL); call(s, p, ACQ);
      if (call(s, p, TRYA)) prog_fail("independence", "%s: a permit out of nowhere", s->caps.name);
    } else if (s->caps.kind == K_LATCH) {
      if (call(s, p, TW) != (n == 0)) prog_fail("independence", "fresh latch of %ld: try_wait is wrong", (long)n);
      call(s, p, CD, n); call(s, p, WAIT);
    } else { for (int i = 0; i < 3; i++) call(s, p, BAAW); if (!strcmp(s->caps.name, "barrier<F>") && comps != 3) prog_fail("independence", "fresh barrier: %ld completions instead of 3", comps); }
    s->destroy(p); prog_gone(blk, s->size);
  }
  void body(int t) override {
    Rng r(seed + (uint64_t)t);
    int nb = 2;
    for (int k = 0; k < nobj * 2; k++) {
      int blk = t * nb + (int)r.below((uint32_t)nb);
      if (!sel->syncs.empty() && (sel->locks.empty() || r.chance(250))) two(r, blk, sel->syncs[r.below((uint32_t)sel->syncs.size())]);
      else one(r, blk, sel->locks[r.below((uint32_t)sel->locks.size())]);
    }
  }
};

#define P(name, group, nl, ns, expr) {name, group, nl, ns, [](Rng& r, const Sel& s, long e) -> Prog* { (void)e; return expr; }}
static int reg = [] {
  auto& v = prog_registry();
  for (auto& d : std::vector<ProgDef>{P("mutex", "lock", true, false, new Mtx(r, s, e)),
       P("life-mutex", "life-lock", true, false, new LifeMtx(r, s, e)),
       P("sem-mutex", "sem", false, true, new SemMtx(r, s, e)),
       P("buffer", "sem", false, true, new Buffer(r, s, e)),
       P("life-sem", "life-sem", false, true, new LifeSem(r, s, e)),
       P("latch", "latch", false, true, new LatchP(r, s, false)),
       P("life-latch", "life-latch", false, true, new LatchP(r, s, true)),
       P("barrier", "barrier", false, true, new BarrierP(r, s, false)),
       P("barrier-drop", "barrier", false, true, new BarrierP(r, s, true)),
       P("life-barrier", "life-barrier", false, true, new LifeBarrier(r, s, e)),
       P("scoped", "scoped", true, false, new Scoped(r, s, e)),
       P("phil", "phil", true, false, new Phil(r, s, e)),
       P("indep", "indep", true, false, new Indep(r, s, e))}) v.push_back(d);
  return 0;
}();

// Programs with many threads, steered step by step: the driver hands a thread its next call only when every other
// one is blocked or idle, so the exact set of threads that must have got through is known at each quiescent point.
#include "free.h"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstring>
using vs::Rng;
static std::string sn(const char* f, ...) { char b[400]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
static int crowd_size(Rng& r, int cap = 300) { uint32_t k = r.below(64); int n = k == 0 ? 257 + (int)r.below(30) : k == 1 ? 126 + (int)r.below(6) : k < 8 ? 24 + (int)r.below(50) : 2 + (int)r.below(14); return n > cap ? cap : n; }

// thread t waits for commands; quiescent() is the only source of commands
struct Steered : Prog {
  struct Cmd { int kind = 0; };
  std::vector<int> cmd, res, busy;     // busy: 1 = command issued and not finished
  bool stopping = false;
  Steered() { autotime = false; }
  void init(int n) { nt = n; cmd.assign((size_t)n, -1); res.assign((size_t)n, -1); busy.assign((size_t)n, 0); }
  void give(int t, int c) { if (busy[(size_t)t]) prog_fail("harness", "thread %d is busy", t); cmd[(size_t)t] = c; busy[(size_t)t] = 1; vs::unpark(t); }
  bool waiting(int t) const { return busy[(size_t)t] != 0; }
  void body(int t) override {
    for (;;) {
      vs::park();
      if (stopping) return;
      int x = run(t, cmd[(size_t)t]);
      { vs::Quiet q; res[(size_t)t] = x; busy[(size_t)t] = 0; }
      vs::progress();
    }
  }
  void stop() { stopping = true; for (int t = 0; t < nt; t++) vs::unpark(t); }
  virtual int run(int t, int c) = 0;
  virtual bool step() = 0;             // false: finished
  bool quiescent() override { if (stopping) return false; if (!step()) stop(); return true; }
};

// ---- a long line in front of one lock
struct Line : Steered {
  ILock* l; Rng r; int n, pc = 0, next = 1, probe; void* m;
  std::vector<char> sh, tmd, out; std::vector<int> line; std::vector<int> holders; bool hs = false, owner0 = true; int phase = 0; Op pop; bool pwait = false; int grants = 0;
  int64_t dl = 0; bool none_left = false; bool first_shared; int giveup;
  Line(Rng& rr, const Sel& s, long e) : r(rr.next()) {
    std::vector<ILock*> v; for (auto* x : s.locks) if (!x->caps.spin) v.push_back(x);
    if (v.empty()) v = s.locks;
    l = v[(size_t)e % v.size()]; n = crowd_size(r); probe = n + 1; init(n + 2); maxsteps = 8000000;
    sh.assign((size_t)n + 2, 0); tmd.assign((size_t)n + 2, 0); out.assign((size_t)n + 2, 0);
    static const int pr[] = {0, 100, 512, 900, 1024}; int p = pr[r.below(5)]; giveup = l->caps.timed && r.chance(500) ? 1 : 0;
    for (int i = 1; i <= n; i++) { sh[(size_t)i] = l->caps.shared && r.chance((uint32_t)p); tmd[(size_t)i] = l->caps.timed && r.chance(400); }
    first_shared = l->caps.shared && r.chance(400);
    prog_place(0, l->size); m = prog_mem(0); l->construct(m);
    desc = sn("%s waiting=%d readers=%d/1024 first=%s giveup=%d", l->caps.name, n, p, first_shared ? "shared" : "exclusive", giveup);
  }
  enum { C_LOCK, C_SLOCK, C_TLOCK, C_TSLOCK, C_UN, C_SUN, C_TRY, C_STRY };
  int run(int t, int c) override {
    static const Op ops[] = {LOCK, SLOCK, TRYUNTIL, STRYUNTIL, UNLOCK, SUNLOCK, TRY, STRY};
    TimeArg a; if (c == C_TLOCK || c == C_TSLOCK) { a.clk = l->caps.until_system_only ? C_SYSTEM : C_STEADY; a.ns = (a.clk == C_SYSTEM ? vs::real_now() : vs::mono_now()) + 3600ll * 1000000000 + t; }
    int x = l->exec(m, ops[c], a, nullptr);
    return x;
  }
  bool fair() const { Policy p = l->caps.pol; return p == FIFO || p == TASK || p == PHASE; }
  // the groups that may hold the lock next
  void grant_check(bool after_excl) {
    std::vector<int> got; for (int t : line) if (!waiting(t)) got.push_back(t);
    for (int t : got) if (res[(size_t)t] != RES_TRUE) prog_fail("unexpected-throw", "%s: the acquisition of waiter %d ended with %s", l->caps.name, t, res_str(res[(size_t)t]).c_str());
    std::vector<int> rd, wr; for (int t : line) (sh[(size_t)t] ? rd : wr).push_back(t);
    std::vector<std::vector<int>> ok;
    switch (l->caps.pol) {
      case FIFO: ok.push_back({line[0]}); break;
      case TASK: case PHASE: {
        if (!sh[(size_t)line[0]]) { ok.push_back({line[0]}); break; }
        if (l->caps.pol == PHASE && after_excl) { ok.push_back(rd); break; }
        std::vector<int> g; for (int t : line) { if (!sh[(size_t)t]) break; g.push_back(t); } ok.push_back(g); break; }
      case WRITER: if (!wr.empty()) for (int t : wr) ok.push_back({t}); else ok.push_back(rd); break;
      default: for (int t : wr) ok.push_back({t}); if (!rd.empty()) ok.push_back(rd);
    }
    bool good = false; for (auto& g : ok) good |= g == got;
    if (!good) {
      std::string s; for (int t : got) s += sn(" %d%s", t, sh[(size_t)t] ? "s" : ""); std::string q; for (size_t i = 0; i < line.size() && i < 40; i++) q += sn(" %d%s", line[i], sh[(size_t)line[i]] ? "s" : "");
      prog_fail(got.empty() ? "missing-grant" : "policy", "%s was released with %zu threads waiting (%s ...); now it is held by:%s", l->caps.name, line.size(), q.c_str(), s.empty() ? " nobody" : s.c_str());
    }
    holders = got; hs = sh[(size_t)got[0]]; grants += (int)got.size();
    std::vector<int> rest; for (int t : line) if (std::find(got.begin(), got.end(), t) == got.end()) rest.push_back(t);
    line = rest;
  }
  bool step() override {
    switch (phase) {
      case 0: phase = 1; give(0, first_shared ? C_SLOCK : C_LOCK); return true;
      case 1:
        if (next == 1 && (waiting(0) || res[0] != RES_TRUE)) prog_fail("missing-grant", "%s: the first acquisition does not succeed", l->caps.name);
        if (next == 1) { holders = {0}; hs = first_shared; }
        if (next > 1) {
          int t = next - 1;
          if (!waiting(t)) {   // got in at once: only a reader beside readers may
            bool writer_waiting = false; for (int x : line) writer_waiting |= !sh[(size_t)x];
            if (res[(size_t)t] != RES_TRUE) prog_fail("unexpected-throw", "%s: waiter %d got %s", l->caps.name, t, res_str(res[(size_t)t]).c_str());
            if (!sh[(size_t)t] || !hs) prog_fail("exclusion", "%s: waiter %d was admitted beside the owner", l->caps.name, t);
            if (l->caps.pol != READER && l->caps.pol != ANY && writer_waiting) prog_fail("policy", "%s: reader %d was admitted although a writer waits", l->caps.name, t);
            holders.push_back(t);
          } else {
            bool writer_waiting = false; for (int x : line) writer_waiting |= !sh[(size_t)x];
            if (sh[(size_t)t] && hs && (l->caps.pol == READER || !writer_waiting)) prog_fail("missing-grant", "%s: reader %d blocks although only readers hold it and nothing stands in its way", l->caps.name, t);
            line.push_back(t);
          }
        }
        if (next <= n) { int t = next++; give(t, (tmd[(size_t)t] ? C_TLOCK : C_LOCK) + (sh[(size_t)t] ? 1 : 0)); return true; }
        phase = giveup ? 2 : 4;
        return step();
      case 2: {   // the timed waiters give up, one after another in time
        bool any = false; int64_t d = vs::next_timer();
        if (d < 0) { phase = 4; return step(); }
        if (r.chance(100)) { phase = 4; return step(); }
        (void)any; vs::advance_to(d); phase = 3; return true; }
      case 3: {
        std::vector<int> rest; std::vector<int> adm;
        for (int t : line) { if (waiting(t)) { rest.push_back(t); continue; }
          if (res[(size_t)t] == RES_TRUE) adm.push_back(t);
          else if (res[(size_t)t] != RES_FALSE) prog_fail("unexpected-throw", "%s: timed waiter %d got %s", l->caps.name, t, res_str(res[(size_t)t]).c_str()); }
        line = rest;
        // a writer that left may have stood in the way of readers
        for (int t : adm) { if (!sh[(size_t)t] || !hs) prog_fail("exclusion", "%s: waiter %d was admitted beside the owner", l->caps.name, t); holders.push_back(t); }
        if (hs) {
          bool writer_waiting = false;
          for (int t : line) {
            bool must = sh[(size_t)t] && (l->caps.pol == READER || (l->caps.pol == WRITER ? std::none_of(line.begin(), line.end(), [&](int x) { return !sh[(size_t)x]; }) : fair() ? !writer_waiting : false));
            if (must) prog_fail("missing-grant", "%s: reader %d stays blocked after the writers before it gave up", l->caps.name, t);
            writer_waiting |= !sh[(size_t)t];
          }
          if (fair()) for (int t : adm) for (int w : line) if (w < t && !sh[(size_t)w]) prog_fail("policy", "%s: reader %d overtook waiting writer %d", l->caps.name, t, w);
        }
        phase = 2; return step(); }
      case 4:   // probe
        pop = l->caps.shared && r.chance(600) ? STRY : TRY; phase = 5; give(probe, pop == TRY ? C_TRY : C_STRY); return true;
      case 5: {
        if (waiting(probe)) prog_fail("try-blocked", "%s: try blocks", l->caps.name);
        int x = res[(size_t)probe]; bool writer_waiting = false; for (int t : line) writer_waiting |= !sh[(size_t)t];
        bool want = pop == STRY && hs && (l->caps.pol == READER || (l->caps.pol == ANY) || !writer_waiting);
        bool may = pop == STRY && hs && (l->caps.pol == READER || l->caps.pol == ANY || !writer_waiting);
        if (x == RES_TRUE) {
          if (pop == TRY) prog_fail("exclusion", "%s: try_lock succeeded while it is held", l->caps.name);
          if (!hs) prog_fail("rw-exclusion", "%s: try_lock_shared succeeded while a writer holds it", l->caps.name);
          if (!may) prog_fail("policy", "%s: try_lock_shared overtook %zu waiting threads", l->caps.name, line.size());
          phase = 6; give(probe, C_SUN); return true;
        }
        if (x != RES_FALSE) prog_fail("unexpected-throw", "%s: try: %s", l->caps.name, res_str(x).c_str());
        if (want && l->caps.pol != ANY) prog_fail("try-false", "%s: try_lock_shared failed although only readers hold it and no writer waits", l->caps.name);
      }
      // fallthrough
      case 6:
        if (phase == 6 && (waiting(probe) || res[(size_t)probe] != RES_TRUE)) prog_fail("unexpected-throw", "%s: unlock_shared: %s", l->caps.name, waiting(probe) ? "blocks" : res_str(res[(size_t)probe]).c_str());
        phase = 7; pc = 0; std::reverse(holders.begin(), holders.begin() + (long)r.below((uint32_t)holders.size() + 1)); return step();
      case 7:   // release
        if (pc > 0) {
          int t = holders[(size_t)pc - 1];
          if (waiting(t)) prog_fail("unlock-blocked", "%s: unlock blocks", l->caps.name);
          if (res[(size_t)t] != RES_TRUE) prog_fail("unexpected-throw", "%s: unlock by an owner: %s", l->caps.name, res_str(res[(size_t)t]).c_str());
          if (pc < (int)holders.size()) for (int w : line) if (!waiting(w)) {
            if (!sh[(size_t)w]) prog_fail("rw-exclusion", "%s: writer %d admitted while readers remain", l->caps.name, w);
            prog_fail("policy", "%s: reader %d admitted by the departure of another reader", l->caps.name, w);
          }
        }
        if (pc < (int)holders.size()) { int t = holders[(size_t)pc++]; give(t, hs ? C_SUN : C_UN); return true; }
        if (line.empty()) { if (l->caps.shared) { phase = 8; give(probe, C_TRY); return true; } phase = 9; return step(); }
        grant_check(!hs); phase = 4; return step();
      case 8:
        if (waiting(probe) || res[(size_t)probe] != RES_TRUE) prog_fail("try-false", "%s: try_lock fails after everybody left", l->caps.name);
        phase = 9; give(probe, C_UN); return true;
      default: return false;
    }
  }
  void final() override { prog_count("crowd_grants", (uint64_t)grants); int x = l->destroy(m); if (x != RES_TRUE) prog_fail("unexpected-throw", "destroying an unowned %s: %s", l->caps.name, res_str(x).c_str()); prog_gone(0, l->size); }
};

// ---- wait-for graphs among many checked mutexes
struct Ring : Steered {
  Rng r; int n, extra, phase = 0, k = 0, reports = 0, blocked = 0, layers = 0; std::vector<ILock*> l; std::vector<char> own, want; std::vector<int> perm, tgt; bool close; std::vector<int> told; int mode;
  std::vector<std::vector<int>> held; size_t unl = 0; std::vector<std::pair<int, int>> todo; int cur = -1;
  Ring(Rng& rr, const Sel& s, long) : r(rr.next()) {
    std::vector<ILock*> v, vs_; for (auto* x : s.locks) if (x->caps.detect) { v.push_back(x); if (x->caps.shared) vs_.push_back(x); }
    maxsteps = 3000000;
    if (v.empty()) { n = 0; init(1); desc = "(no detecting type selected)"; return; }
    mode = (int)r.below(4) == 0 && !vs_.empty() ? 1 : 0;
    if (mode == 1) {   // ladder: every layer is a shared mutex owned by two threads, both of which wait for the next layer
      layers = 2 + (int)r.below(r.chance(200) ? 40 : 12); n = layers + 1; extra = 0; close = r.chance(512);
      for (int i = 0; i < n; i++) l.push_back(vs_[r.below((uint32_t)vs_.size())]);
      init(2 * n + 1); held.resize((size_t)(2 * n + 1));
    } else {
      n = crowd_size(r, 120); if (n < 2) n = 2; extra = r.chance(400) ? (int)r.below((uint32_t)std::min(4 * n, 200)) : 0; close = r.chance(700);
      for (int i = 0; i < n; i++) l.push_back(v[r.below((uint32_t)v.size())]);
      init(n + extra);
    }
    for (int i = 0; i < n; i++) { prog_place(i, l[(size_t)i]->size); l[(size_t)i]->construct(prog_mem(i)); }
    desc = sn("%s of %d mutexes, %d bystanders, %s", mode ? "ladder" : "ring", n, extra, close ? "closed" : "open");
    if (mode == 0) {
      own.assign((size_t)n, 0); want.assign((size_t)n, 0); 
      for (int i = 0; i < n; i++) own[(size_t)i] = l[(size_t)i]->caps.shared && r.chance(400);
      // thread i owns mutex i and wants mutex i+1; wanting shared only blocks when the owner is exclusive
      for (int i = 0; i < n; i++) { int j = (i + 1) % n; want[(size_t)i] = l[(size_t)j]->caps.shared && !own[(size_t)j] && r.chance(400); }
      for (int i = 0; i < n; i++) perm.push_back(i);
      for (int i = n - 1; i > 0; i--) std::swap(perm[(size_t)i], perm[r.below((uint32_t)i + 1)]);
      if (!close) perm.pop_back();
      for (int i = 0; i < extra; i++) tgt.push_back((int)r.below((uint32_t)n));
    }
  }
  // command: mutex * 4 + (0 lock, 1 lock_shared, 2 unlock, 3 unlock_shared)
  int run(int, int c) override { static const Op ops[] = {LOCK, SLOCK, UNLOCK, SUNLOCK}; return l[(size_t)(c / 4)]->exec(prog_mem(c / 4), ops[c % 4], TimeArg(), nullptr); }
  void expect_ok(int t, const char* what) { if (waiting(t)) prog_fail("missing-grant", "thread %d blocks: %s", t, what); if (res[(size_t)t] != RES_TRUE) prog_fail(res[(size_t)t] == RES_EXC + EDEADLK ? "false-deadlock" : "unexpected-throw", "thread %d: %s: %s", t, what, res_str(res[(size_t)t]).c_str()); }
  bool step_ring() {
    switch (phase) {
      case 0:
        if (k > 0) expect_ok(k - 1, "locking a free mutex");
        if (k < n) { give(k, k * 4 + own[(size_t)k]); k++; return true; }
        phase = 1; k = 0; return step();
      case 1:   // bystanders that own nothing
        if (k > 0) { if (!waiting(n + k - 1)) { if (res[(size_t)(n + k - 1)] == RES_EXC + EDEADLK) prog_fail("false-deadlock", "a thread owning nothing was told it deadlocks"); prog_fail("exclusion", "bystander got an owned mutex: %s", res_str(res[(size_t)(n + k - 1)]).c_str()); } }
        if (k < extra) { give(n + k, tgt[(size_t)k] * 4); k++; return true; }
        phase = 2; k = 0; return step();
      case 2:
        if (k > 0) {
          int t = perm[(size_t)k - 1]; bool last = close && k == n;
          if (waiting(t)) { if (last) prog_fail("missed-deadlock", "a cycle of %d threads and mutexes was closed and nobody was told", n); blocked++; }
          else if (res[(size_t)t] == RES_EXC + EDEADLK) { if (!last) prog_fail("false-deadlock", "thread %d was told it deadlocks with %d of %d edges present", t, k, n); reports++; cur = t; }
          else prog_fail("exclusion", "thread %d got a mutex that another one owns: %s", t, res_str(res[(size_t)t]).c_str());
        }
        if (k < (int)perm.size()) { int t = perm[(size_t)k++]; int j = (t + 1) % n; give(t, j * 4 + want[(size_t)t]); return true; }
        if (!close) { cur = 0; while (std::find(perm.begin(), perm.end(), cur) != perm.end()) cur++; }
        prog_count(close ? "crowd_cycles" : "crowd_chains"); phase = 3; k = 0; todo.clear(); todo.push_back({cur, cur}); return step();
      case 3: {  // unwinding: whoever holds all it wants releases everything; no further report may appear
        for (int t = 0; t < nt; t++) if (!waiting(t) && res[(size_t)t] == RES_EXC + EDEADLK && t != cur) prog_fail("false-deadlock", "thread %d was told it deadlocks while the cycle was already broken", t);
        if (k > 0 && k <= (int)todo.size()) { int t = todo[(size_t)k - 1].first; if (waiting(t)) prog_fail("unlock-blocked", "unlock blocks"); if (res[(size_t)t] != RES_TRUE && !(t == cur && false)) prog_fail("unexpected-throw", "unlock by an owner: %s", res_str(res[(size_t)t]).c_str()); }
        if (k < (int)todo.size()) { int t = todo[(size_t)k].first, mtx = todo[(size_t)k].second; k++; bool s = mtx == t && t < n ? own[(size_t)mtx] : t < n ? want[(size_t)t] : 0; give(t, mtx * 4 + 2 + s); return true; }
        // who got what it was waiting for?
        todo.clear(); k = 0;
        for (int t = 0; t < nt; t++) {
          if (waiting(t) || (done.size() && done[(size_t)t])) continue;
          if (done.empty()) done.assign((size_t)nt, 0);
          if (t == cur) { done[(size_t)t] = 1; continue; }
          done[(size_t)t] = 1;
          if (t < n) { todo.push_back({t, (t + 1) % n}); todo.push_back({t, t}); } else todo.push_back({t, tgt[(size_t)(t - n)]});
        }
        if (!todo.empty()) return step();
        for (int t = 0; t < nt; t++) if (waiting(t)) prog_fail("missing-grant", "thread %d stays blocked after the cycle was broken and everybody else released", t);
        return false; }
    }
    return false;
  }
  std::vector<char> done;
  int tick = 0;
  bool step_ladder() {
    // threads 2i,2i+1 hold layer i shared, then wait for layer i+1 exclusively; thread 2n is the top
    int T = 2 * n;
    switch (phase) {
      case 0: if (k > 0) expect_ok(k - 1, "locking a free shared mutex"); if (k < T) { give(k, (k / 2) * 4 + 1); k++; return true; } phase = 1; k = 0; return step();
      case 1:   // lower layers first
        if (k > 0 && !waiting(k - 1)) prog_fail(res[(size_t)(k - 1)] == RES_EXC + EDEADLK ? "false-deadlock" : "exclusion", "thread %d in an acyclic graph: %s", k - 1, res_str(res[(size_t)(k - 1)]).c_str());
        if (k < T - 2) { give(k, (k / 2 + 1) * 4); k++; return true; }
        phase = 2; k = 0; return step();
      case 2:   // an owner of the last layer asks for the first one (closed) or gives up its lock (open)
        phase = 3; cur = T - 1; give(T - 1, close ? 0 : (n - 1) * 4 + 3); return true;
      case 3:
        if (waiting(cur)) prog_fail(close ? "missed-deadlock" : "unlock-blocked", close ? "a cycle through %d layers was closed and nobody was told" : "unlock blocks", n);
        if (close && res[(size_t)cur] == RES_TRUE) prog_fail("exclusion", "an owned mutex was granted");
        if (close && res[(size_t)cur] != RES_EXC + EDEADLK) prog_fail("unexpected-throw", "%s", res_str(res[(size_t)cur]).c_str());
        prog_count("crowd_ladders"); phase = 4; k = 0; if (close) { give(cur, (n - 1) * 4 + 3); return true; }
        return step();
      default: {  // unwind from the top
        for (int t = 0; t < T; t++) if (!waiting(t) && t != cur && res[(size_t)t] == RES_EXC + EDEADLK) prog_fail("false-deadlock", "thread %d was told it deadlocks while unwinding", t);
        if (done.empty()) { done.assign((size_t)T, 0); done[(size_t)cur] = 1; todo.push_back({T - 2, (n - 1) * 4 + 3}); done[(size_t)(T - 2)] = 1; }
        if (unl < todo.size()) { auto x = todo[unl++]; give(x.first, x.second); return true; }
        todo.clear(); unl = 0;
        for (int t = 0; t < T - 2; t++) if (!waiting(t) && !done[(size_t)t]) { done[(size_t)t] = 1; todo.push_back({t, (t / 2 + 1) * 4 + 2}); todo.push_back({t, (t / 2) * 4 + 3}); }
        if (!todo.empty()) return step();
        for (int t = 0; t < T; t++) if (waiting(t)) prog_fail("missing-grant", "thread %d stays blocked after everybody above released", t);
        return false; }
    }
  }
  bool step() override { if (!n) return false; return mode ? step_ladder() : step_ring(); }
  void final() override { for (int i = 0; i < n; i++) { int x = l[(size_t)i]->destroy(prog_mem(i)); if (x != RES_TRUE) prog_fail("unexpected-throw", "destroying an unowned %s: %s", l[(size_t)i]->caps.name, res_str(x).c_str()); prog_gone(i, l[(size_t)i]->size); } }
};

// ---- many threads at a semaphore, latch or barrier
static int scall(const ISync* s, void* p, SOpK op, int64_t n = 1, Tok* tok = nullptr) { int r = s->exec(p, op, n, TimeArg(), tok); if (r >= RES_EXC) prog_fail("unexpected-throw", "%s.%s threw: %s", s->caps.name, sop_names[op], res_str(r).c_str()); return r; }
struct SyncCrowd : Steered {
  ISync* s; Rng r; int n, phase = 0, k = 0; int64_t permits = 0, cnt = 0; std::vector<int> wait, mode, alive; std::vector<Tok> tok; void* p; long comps = 0; int64_t amount = 0; int rounds, expect_ = 0; std::vector<char> dropped;
  SyncCrowd(Rng& rr, const Sel& sel, SKind kd) : r(rr.next()) {
    std::vector<ISync*> v; for (auto* x : sel.syncs) if (x->caps.kind == kd) v.push_back(x);
    s = v[r.below((uint32_t)v.size())]; n = crowd_size(r); init(n + 1); maxsteps = 8000000; mode.assign((size_t)n + 1, 0); tok.resize((size_t)n + 1); dropped.assign((size_t)n + 1, 0);
    rounds = 1 + (int)r.below(n > 60 ? 3 : 6);
    int64_t init_ = 0;
    if (kd == K_LATCH) { amount = 1 + r.below(5); init_ = amount; for (int t = 1; t <= n; t++) { mode[(size_t)t] = r.chance(400); init_ += mode[(size_t)t]; } cnt = init_; }
    if (kd == K_BARRIER) init_ = n;
    expect_ = n;
    prog_place(0, s->size); p = prog_mem(0); s->construct(p, init_, [](void* c) { ((SyncCrowd*)c)->comps++; }, this);
    desc = sn("%s threads=%d rounds=%d", s->caps.name, n, rounds);
  }
  enum { M_ACQ, M_REL, M_WAIT, M_AAW, M_CD, M_TW, M_BAAW, M_ARR, M_BWAIT, M_DROP, M_TRYA };
  int64_t arg = 1;
  int run(int t, int c) override {
    switch (c) { case M_ACQ: return scall(s, p, ACQ); case M_REL: return scall(s, p, REL, arg); case M_WAIT: return scall(s, p, WAIT); case M_AAW: return scall(s, p, AAW); case M_CD: return scall(s, p, CD, arg); case M_TW: return scall(s, p, TW);
      case M_BAAW: return scall(s, p, BAAW); case M_ARR: return scall(s, p, ARR, 1, &tok[(size_t)t]); case M_BWAIT: return scall(s, p, BWAIT, 1, &tok[(size_t)t]); case M_DROP: return scall(s, p, DROP); default: return scall(s, p, TRYA); }
  }
  int nwait() { int c = 0; for (int t = 1; t <= n; t++) c += waiting(t); return c; }
  bool step() override {
    if (s->caps.kind == K_SEM) {
      if (phase == 0) { if (k > 0 && !waiting(k)) prog_fail("conservation", "%s: acquire returned without a permit", s->caps.name); if (k < n) { give(++k, M_ACQ); return true; } phase = 1; }
      if (phase == 2) {
        if (waiting(0)) prog_fail("release-blocked", "%s: release blocks", s->caps.name);
        int want = (int)std::max<int64_t>(0, (int64_t)n - permits);
        if (nwait() != want) prog_fail(nwait() < want ? "conservation" : "lost-permit", "%s: %ld permits released to %d threads but %d are still blocked", s->caps.name, (long)permits, n, nwait());
        phase = 1;
      }
      if (phase == 1) {
        if (nwait() == 0) { if (k++ > n + rounds) return false; phase = 3; give(0, M_TRYA); return true; }
        int64_t most = std::min<int64_t>(s->caps.maxv, 100000); arg = r.chance(300) ? 1 : r.chance(100) ? most : r.chance(300) ? nwait() : 1 + (int64_t)r.below((uint32_t)n + 3); arg = std::min(arg, most); permits += arg; phase = 2; give(0, M_REL); return true;
      }
      if (phase == 3) { int64_t left = permits - n; if (waiting(0)) prog_fail("try-blocked", "%s: try_acquire blocks", s->caps.name); bool got = res[0] == RES_TRUE; if (got != (left > 0)) prog_fail(got ? "conservation" : "lost-permit", "%s: try_acquire is %d with %ld permits left", s->caps.name, got, (long)left); if (!got) return false; permits--; phase = 1; return step(); }
      return false;
    }
    if (s->caps.kind == K_LATCH) {
      switch (phase) {
        case 0: if (k > 0 && !waiting(k)) prog_fail("early-release", "latch: thread %d passed with %ld to go", k, (long)cnt); if (k < n) { ++k; if (mode[(size_t)k]) cnt--; give(k, mode[(size_t)k] ? M_AAW : M_WAIT); return true; } phase = 1; give(0, M_TW); return true;
        case 1: if (waiting(0) || res[0] != RES_FALSE) prog_fail("try-wait", "latch: try_wait is true with %ld to go", (long)cnt); arg = std::min<int64_t>(cnt, 1 + (int64_t)r.below(3)); cnt -= arg; phase = 2; give(0, M_CD); return true;
        case 2:
          if (waiting(0)) prog_fail("arrive-blocked", "latch: count_down blocks");
          if (cnt > 0) { if (nwait() != n) prog_fail("early-release", "latch: %d threads passed with %ld to go", n - nwait(), (long)cnt); phase = 1; give(0, M_TW); return true; }
          if (nwait()) prog_fail("missing-release", "latch: %d of %d threads are still blocked although the count is zero", nwait(), n);
          phase = 3; give(0, M_TW); return true;
        default: if (waiting(0) || res[0] != RES_TRUE) prog_fail("try-wait", "latch: try_wait is false at zero"); return false;
      }
    }
    // barrier: in each round every remaining thread arrives in random order
    for (;;) switch (phase) {
      case 0: {
        if (comps != cnt && !strcmp(s->caps.name, "barrier<F>")) prog_fail("completion-count", "%ld completions after %ld phases", comps, (long)cnt);
        alive.clear(); for (int t = 1; t <= n; t++) if (!dropped[(size_t)t]) alive.push_back(t);
        if (rounds-- == 0 || alive.empty()) return false;
        for (size_t i = alive.size(); i > 1; i--) std::swap(alive[i - 1], alive[r.below((uint32_t)i)]);
        int pd = r.chance(300) ? 512 : r.chance(100) ? 1024 : 60;
        for (int t : alive) mode[(size_t)t] = r.chance((uint32_t)pd) ? M_DROP : r.chance(300) ? M_ARR : M_BAAW;
        k = 0; phase = 1; break; }
      case 1:
        if (k > 0) {
          int t = alive[(size_t)k - 1]; bool last = k == (int)alive.size();
          if (!last && mode[(size_t)t] == M_ARR && waiting(t)) prog_fail("arrive-blocked", "barrier: arrive blocks");
          if (!last && mode[(size_t)t] == M_BAAW && !waiting(t)) prog_fail("early-release", "barrier: thread %d passed with %zu arrivals missing", t, alive.size() - (size_t)k);
          if (!last && comps != cnt && !strcmp(s->caps.name, "barrier<F>")) prog_fail("early-completion", "barrier: completion with %zu arrivals missing", alive.size() - (size_t)k);
        }
        if (k < (int)alive.size()) { int t = alive[(size_t)k++]; if (mode[(size_t)t] == M_DROP) dropped[(size_t)t] = 1; give(t, mode[(size_t)t]); return true; }
        cnt++;
        for (int t : alive) if (waiting(t)) prog_fail("missing-release", "barrier: thread %d (%s) is still blocked although all %zu arrivals of phase %ld were made", t, mode[(size_t)t] == M_DROP ? "drop" : "wait", alive.size(), (long)cnt - 1);
        k = 0; phase = 2; break;
      default:   // late waits on tokens of the completed phase return at once
        while (k < (int)alive.size() && mode[(size_t)alive[(size_t)k]] != M_ARR) k++;
        if (k < (int)alive.size()) { int t = alive[(size_t)k]; mode[(size_t)t] = M_BWAIT; give(t, M_BWAIT); return true; }
        for (int t : alive) if (waiting(t)) prog_fail("missing-release", "barrier: wait on a completed phase blocks");
        phase = 0; break;
    }
  }
  void final() override { s->destroy(p); prog_gone(0, s->size); }
};
#define P(name, group, nl, ns, expr) {name, group, nl, ns, [](Rng& r, const Sel& s, long e) -> Prog* { (void)e; return expr; }}
static int reg = [] {
  for (auto& d : std::vector<ProgDef>{P("line", "line", true, false, new Line(r, s, e)), P("ring", "ring", true, false, new Ring(r, s, e)), P("crowd-sem", "crowd-sem", false, true, new SyncCrowd(r, s, K_SEM)),
       P("crowd-latch", "crowd-latch", false, true, new SyncCrowd(r, s, K_LATCH)), P("crowd-barrier", "crowd-barrier", false, true, new SyncCrowd(r, s, K_BARRIER))}) prog_registry().push_back(d);
  return 0;
}();

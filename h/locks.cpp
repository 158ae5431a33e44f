// Scripted lock workload: a driver issues bursts of operations, moves virtual time,
// and compares what the workers observed with the executable specification.
#include "common.h"
#include "lockmodel.h"
#include "sat.h"
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

namespace {
bool abort_mode = false, fork_mode = false;
[[noreturn]] void child_end(int code, const char* what);
struct Profile {
  int tmin = 2, tmax = 5, smin = 6, smax = 22, nobj = 1;
  int p_seq = 250, p_timed = 300, p_try = 250, p_misuse = 0, p_adv = 250, p_jump = 60, p_rel = 480, p_shared = 500;
  int p_pastdl = 80, p_preepoch = 10, p_abandon = 0, p_long = 20;
  int burst = 3;
  int p_chain = 0, p_pass = 0, p_oom = 0, p_clk = 0;
  int pspur = -1, pcas = -1;
  bool mixed = false;   // objects of different types
};
Profile profile(const std::string& n) {
  Profile p;
  if (n == "base") {}
  else if (n == "timed") { p.p_timed = 800; p.p_try = 60; p.p_adv = 450; p.p_jump = 120; p.p_pass = 350; p.p_pastdl = 120; p.p_preepoch = 25; }
  else if (n == "try") { p.p_try = 650; p.p_timed = 80; }
  else if (n == "order") { p.p_timed = 200; p.p_try = 120; p.tmin = 3; p.tmax = 6; p.smax = 30; p.burst = 2; p.p_rel = 350; p.p_adv = 150; }
  else if (n == "ordertimed") { p.p_timed = 550; p.p_try = 80; p.tmin = 3; p.tmax = 7; p.smax = 30; p.burst = 2; p.p_rel = 300; p.p_adv = 250; p.p_pass = 300; }
  else if (n == "contend") { p.p_seq = 800; p.tmin = 2; p.tmax = 4; p.burst = 4; p.smin = 3; p.smax = 10; p.p_timed = 150; p.p_try = 200; }
  else if (n == "rec") { p.p_timed = 250; p.p_try = 250; p.p_rel = 420; p.smax = 40; }
  else if (n == "misuse") { p.p_misuse = 330; p.p_abandon = 200; p.nobj = 2; p.mixed = true; }
  else if (n == "nomisuse") { p.nobj = 2; p.mixed = true; }
  else if (n == "dead") { p.p_timed = 120; p.p_try = 80; p.nobj = 4; p.mixed = true; p.tmin = 2; p.tmax = 5; p.smin = 10; p.smax = 40; p.p_rel = 220; p.p_seq = 200; p.p_adv = 60; p.p_chain = 250; }
  else if (n == "deadsound") { p.p_timed = 350; p.p_try = 120; p.nobj = 3; p.mixed = true; p.tmin = 3; p.tmax = 6; p.smin = 10; p.smax = 50; p.p_rel = 350; p.p_seq = 250; p.p_adv = 150; p.p_chain = 400; }
  else if (n == "oom") { p.p_oom = 300; p.p_timed = 250; p.p_try = 200; p.nobj = 3; p.mixed = true; p.smin = 10; p.smax = 40; p.p_rel = 350; p.p_seq = 250; p.p_adv = 150; p.p_chain = 300; }
  else if (n == "clk") { p.p_clk = 700; p.p_timed = 800; p.p_try = 50; p.tmin = 3; p.tmax = 6; p.smax = 30; p.burst = 2; p.p_rel = 300; p.p_adv = 350; p.p_pass = 500; }
  else if (n == "abmisuse") { p.p_misuse = 50; p.p_abandon = 250; p.nobj = 2; p.mixed = true; p.smax = 40; }
  else { fprintf(stderr, "unknown profile %s\n", n.c_str()); exit(3); }
  return p;
}

struct Slot {
  int n = 0; LOp ops[MAXSEQ]; int res[MAXSEQ]; int done = 0; bool busy = false; bool exit = false; int destroy = -1; int dres = 0;
};
struct Held { int excl = 0; bool sh = false; };

struct Run {
  vs::Rng rng;
  Profile P;
  int nt, nobj;
  ILock* L[MAXOBJ]; void* mem[MAXOBJ]; long* pay[MAXOBJ];
  Slot slot[MAXT];
  Held held[MAXT][MAXOBJ];
  std::vector<LOp> seq[MAXT];
  bool started[MAXT];
  LockModel M;
  Search<LockModel> S;
  std::vector<Search<LockModel>::SetE> nxt;
  int steps = 0, maxsteps, phase = 0, drain_guard = 0;
  bool inconclusive = false, abandon = false, misused = false;
  int64_t passed = 0, amb[MAXT] = {};   // by ADV steps in this burst
  int seen[MAXT];  // results of the current sequence already evaluated
  explicit Run(vs::Rng r) : rng(r) {}

  std::string opstr(int t, const LOp& o) {
    std::string s = strf("T%d.%s(", t, op_names[o.op]);
    if (nobj > 1) s += strf("#%d", o.obj);
    if (o.op == TRYFOR || o.op == STRYFOR) s += strf("%s%ldns", nobj > 1 ? "," : "", (long)o.ta.ns);
    if (o.op == TRYUNTIL || o.op == STRYUNTIL) s += strf("%s%s@%ld", nobj > 1 ? "," : "", clk_name(o.ta.clk), (long)o.ta.ns);
    if (o.op == ADV) s += strf("%ldns", (long)o.ta.ns);
    s += ")";
    if (o.fail) s += strf(o.fail & FAIL_CLOCK ? "!clock%d" : "!alloc%d", o.fail & ~FAIL_CLOCK);
    if (o.ta.via) s += "@handle";
    if (o.ifok) s += "?";
    return s;
  }
  bool holds(int t, int b) { return held[t][b].excl || held[t][b].sh; }
  bool holds_any(int t) { for (int b = 0; b < nobj; b++) if (holds(t, b)) return true; return false; }
  bool idle(int t) { return !slot[t].busy; }
  int64_t slop_for(const LOp& o) { return rep_slop(o.ta); }
  bool dl_of(const LOp& o, const Caps& c, int64_t at_mono, int64_t at_real, bool& isreal, int64_t& dl) {
    if (o.op == TRYFOR || o.op == STRYFOR) { isreal = c.for_system; dl = satadd(isreal ? at_real : at_mono, o.ta.ns); return true; }
    if (o.op == TRYUNTIL || o.op == STRYUNTIL) {
      dl = until_dl(c.conv, o.ta, at_mono, at_real, isreal);
      return true;
    }
    return false;
  }
  int64_t start_mono[MAXT][MAXSEQ], start_real[MAXT][MAXSEQ];

  TimeArg pick_time(const Caps& c, bool until) {
    TimeGen g; g.past = P.p_pastdl; g.lng = P.p_long; g.preepoch = P.p_preepoch;
    g.forever = nobj == 1 && !P.p_misuse && !P.p_abandon ? 12 : 0;
    g.user = P.p_clk && until && rng.chance(850);
    return gen_time(rng, g, until, c.until_system_only);
  }
  Op acq_op(const Caps& c, bool sh) {
    uint32_t k = rng.below(1024);
    if (c.timed && k < (uint32_t)P.p_timed) return (rng.chance(512) ? (sh ? STRYFOR : TRYFOR) : (sh ? STRYUNTIL : TRYUNTIL));
    if (k < (uint32_t)(P.p_timed + P.p_try)) return sh ? STRY : TRY;
    return sh ? SLOCK : LOCK;
  }
  // one legal (or deliberately illegal) operation for t given h; updates the optimistic view h
  bool gen_op(int, Held* h, LOp& o, bool) {
    int b = (int)rng.below((uint32_t)nobj);
    const Caps& c = L[b]->caps;
    o = LOp(); o.obj = (uint8_t)b;
    if (P.p_misuse && c.checked && rng.chance((uint32_t)P.p_misuse)) {
      // any call at all; the specification says what must happen
      bool sh = c.shared && rng.chance(512);
      bool mine = h[b].excl || h[b].sh;
      if (rng.chance(450)) { o.op = sh ? SUNLOCK : UNLOCK; }
      else if (mine) { o.op = acq_op(c, sh); if (o.op == TRYFOR || o.op == STRYFOR) o.ta = pick_time(c, false); if (o.op == TRYUNTIL || o.op == STRYUNTIL) o.ta = pick_time(c, true); }
      else o.op = UNLOCK;
      bool legal_unlock = (o.op == UNLOCK && h[b].excl) || (o.op == SUNLOCK && h[b].sh);
      if (legal_unlock) { if (o.op == UNLOCK) h[b].excl--; else h[b].sh = false; }
      else if (c.recursive && h[b].excl && o.op <= TRYUNTIL) h[b].excl++;
      return true;
    }
    bool release = (h[b].excl || h[b].sh) && rng.chance((uint32_t)P.p_rel);
    if (h[b].sh || (h[b].excl && !c.recursive) || (h[b].excl && (release || h[b].excl > 6))) {
      if (!release && nobj > 1 && !(h[b].excl && c.recursive)) return false;
      if (!release && rng.chance(700)) return false;
      if (h[b].sh) { o.op = SUNLOCK; h[b].sh = false; } else { o.op = UNLOCK; h[b].excl--; }
      return true;
    }
    bool sh = c.shared && rng.chance((uint32_t)P.p_shared);
    if (h[b].excl) sh = false;
    o.op = acq_op(c, sh);
    if (o.op == TRYFOR || o.op == STRYFOR) o.ta = pick_time(c, false);
    if (o.op == TRYUNTIL || o.op == STRYUNTIL) o.ta = pick_time(c, true);
    return true;
  }
  bool gen_seq(int t) {
    Slot& s = slot[t];
    Held h[MAXOBJ];
    memcpy(h, held[t], sizeof h);
    s.n = 0;
    LOp o;
    for (int tries = 0; tries < 4; tries++) if (gen_op(t, h, o, true)) { s.ops[s.n++] = o; break; }
    if (!s.n) return false;
    if (nobj > 1 && !P.p_misuse && P.p_chain && rng.chance((uint32_t)P.p_chain)) {  // several steps, each only if the previous one succeeded
      auto apply = [&](const LOp& q) { if (q.op == UNLOCK) return; if (q.op == SUNLOCK) return; if (q.op >= SLOCK) h[q.obj].sh = true; else h[q.obj].excl++; };
      apply(o);
      int want = 2 + (int)rng.below(3);
      for (int tries = 0; tries < 8 && s.n < want; tries++) {
        LOp q;
        if (!gen_op(t, h, q, false)) continue;
        q.ifok = true;
        apply(q);
        s.ops[s.n++] = q;
      }
      return true;
    }
    bool acq = o.op != UNLOCK && o.op != SUNLOCK;
    if (!acq && P.p_pass && !P.p_misuse && rng.chance((uint32_t)P.p_pass)) {   // time passes right after the release
      int64_t nx = vs::next_timer(), d;
      if (nx >= vs::mono_now() && nx < vs::mono_now() + 10000ll * 1000000000) d = nx - vs::mono_now() + (rng.chance(512) ? 0 : (int64_t)rng.below(40) * 1000000);
      else d = (int64_t)rng.below(2000) * 1000000;
      LOp q; q.op = ADV; q.obj = o.obj; q.ta.ns = d; s.ops[s.n++] = q;
      return true;
    }
    if (rng.chance((uint32_t)P.p_seq)) {
      if (acq && !(P.p_misuse)) {
        LOp u; u.op = (o.op >= SLOCK) ? SUNLOCK : UNLOCK; u.obj = o.obj; u.ifok = true;
        s.ops[s.n++] = u;
        if (rng.chance(500)) {
          const Caps& c = L[o.obj]->caps;
          LOp a = LOp(); a.obj = o.obj; bool sh = c.shared && rng.chance(512);
          if (held[t][o.obj].excl) sh = false;
          a.op = acq_op(c, sh);
          // only lock/try here: deadlines of later operations in a sequence start when they start
          if (a.op == TRYFOR || a.op == STRYFOR) a.ta = pick_time(c, false);
          if (a.op == TRYUNTIL || a.op == STRYUNTIL) a.ta = pick_time(c, true);
          bool can = !(held[t][o.obj].sh) && (!held[t][o.obj].excl || c.recursive);
          if (can) {
            s.ops[s.n++] = a;
            if (rng.chance(700)) { LOp v; v.op = (a.op >= SLOCK) ? SUNLOCK : UNLOCK; v.obj = a.obj; v.ifok = true; s.ops[s.n++] = v; }
          }
        }
      } else if (!acq && !P.p_misuse) {
        const Caps& c = L[o.obj]->caps;
        if (h[o.obj].excl == 0 && !h[o.obj].sh) {
          LOp a = LOp(); a.obj = o.obj; bool sh = c.shared && rng.chance(512);
          a.op = acq_op(c, sh);
          if (a.op == TRYFOR || a.op == STRYFOR) a.ta = pick_time(c, false);
          if (a.op == TRYUNTIL || a.op == STRYUNTIL) a.ta = pick_time(c, true);
          s.ops[s.n++] = a;
        }
      }
    }
    return true;
  }
  void issue(int t) {
    Slot& s = slot[t];
    s.done = 0; s.busy = true; seen[t] = 0; amb[t] = 0;
    for (int i = 0; i < s.n; i++) if (L[s.ops[i].obj]->caps.interop && s.ops[i].op != ADV) s.ops[i].ta.via = (uint8_t)rng.below(2);
    if (P.p_oom && phase == 0) for (int i = 0; i < s.n; i++) if (s.ops[i].op != ADV && rng.chance((uint32_t)P.p_oom)) s.ops[i].fail = (uint8_t)(1 + rng.below(4));
    if (P.p_clk && phase == 0) for (int i = 0; i < s.n; i++) if ((s.ops[i].op == TRYUNTIL || s.ops[i].op == STRYUNTIL) && s.ops[i].ta.clk >= C_CUSTOM && rng.chance((uint32_t)P.p_clk)) s.ops[i].fail = FAIL_CLOCK | (uint8_t)(1 + rng.below(4));
    seq[t].assign(s.ops, s.ops + s.n);
    started[t] = true;
    std::string d = "issue ";
    for (int i = 0; i < s.n; i++) d += (i ? "; " : "") + opstr(t, s.ops[i]);
    ev("%s", d.c_str());
    cov.add("commands");
    vs::unpark(t);
  }

  [[noreturn]] void fail(const char* kind, const std::string& d) {
    std::string s = "types:";
    for (int b = 0; b < nobj; b++) s += strf(" #%d=%s", b, L[b]->caps.name);
    s += strf("\nmisuse-before=%d\n", (int)misused);
    vs::violation(kind, d + "\n" + s);
  }

  // evaluate everything new since the previous quiescent point
  void evaluate() {
    Obs obs[MAXT];
    bool any = false;
    int64_t mono = vs::mono_now(), real = vs::real_now();
    for (int t = 0; t < nt; t++) {
      Slot& s = slot[t];
      if (seq[t].empty()) continue;
      any = true;
      obs[t].active = true;
      obs[t].n = s.done;
      for (int i = 0; i < s.done; i++) obs[t].res[i] = s.res[i];
      obs[t].pending = s.busy;
    }
    if (!any) return;
    int64_t ptot = 0;
    for (int t = 0; t < nt; t++) if (obs[t].active) for (int i = seen[t]; i < obs[t].n; i++) if (seq[t][(size_t)i].op == ADV) ptot += seq[t][(size_t)i].ta.ns;
    // direct, order-independent checks
    for (int t = 0; t < nt; t++) {
      if (!obs[t].active) continue;
      for (int i = seen[t]; i < obs[t].n; i++) {
        const LOp& o = seq[t][(size_t)i];
        const Caps& c = L[o.obj]->caps;
        int r = obs[t].res[i];
        if (o.op == ADV) { passed += o.ta.ns; cov.add("time_passed_after_release"); continue; }
        ev("  %s -> %s", opstr(t, o).c_str(), res_str(r).c_str());
        if (r == RES_SKIP) continue;
        Held& h = held[t][o.obj];
        int want = 0;
        if (o.op == UNLOCK && !h.excl) want = EPERM;
        else if (o.op == SUNLOCK && !h.sh) want = EPERM;
        else if (o.op != UNLOCK && o.op != SUNLOCK && (h.sh || (h.excl && !(c.recursive && o.op <= TRYUNTIL)))) want = EDEADLK;
        bool isacq = o.op != UNLOCK && o.op != SUNLOCK;
        cov.add(strf("%s.%s", op_names[o.op], want ? "misuse" : r == RES_TRUE ? "ok" : r == RES_FALSE ? "false" : "throw"));
        if (want) {
          misused = true;
          if (abort_mode) fail("abort-missing", opstr(t, o) + " is a requirement violation but the process was not aborted; the call ended with: " + res_str(r));
          if (r != RES_EXC + want) fail(r < RES_EXC ? "misuse-undetected" : "misuse-wrongcode", opstr(t, o) + " is a requirement violation (expected throw " + (want == EPERM ? "EPERM" : "EDEADLK") + ") but it returned: " + res_str(r));
          continue;
        }
        if (o.fail && isacq && r == fail_res(o.fail)) { cov.add(o.fail & FAIL_CLOCK ? "clock_failures_reported" : "allocation_failures_reported"); continue; }
        if (r >= RES_EXC) {
          bool dl_ok = !abort_mode && c.detect && r == RES_EXC + EDEADLK && (o.op == LOCK || o.op == SLOCK);
          if (!dl_ok) fail("unexpected-throw", opstr(t, o) + " is a legal call but ended with: " + res_str(r));
          cov.add("deadlock_reports");
          misused = true;
          continue;
        }
        if (r == RES_FALSE) {
          if (o.op == LOCK || o.op == SLOCK || !isacq) fail("inconsistent", opstr(t, o) + " returned false");
          bool isreal; int64_t dl;
          if (dl_of(o, c, start_mono[t][i], start_real[t][i], isreal, dl)) {
            {
              int64_t nw = isreal ? maxreal(t) : mono;
              if ((o.op == TRYUNTIL || o.op == STRYUNTIL) && conv_at_call(c.conv, o.ta.clk)) nw += amb[t] + ptot;
              if (nw + slop_for(o) < dl) fail("timeout-early", opstr(t, o) + strf(" gave up %ld ns before its deadline", (long)(dl - nw)));
              cov.add(nw < dl + 1000 ? "timeouts_at_deadline" : "timeouts_after_deadline");
            }
          }
          continue;
        }
        if (isacq) {
          bool sh = o.op >= SLOCK;
          if (sh) h.sh = true; else h.excl++;
        } else if (o.op == UNLOCK) h.excl--; else h.sh = false;
      }
      seen[t] = obs[t].n;
    }
    // exclusion at the quiescent point
    for (int b = 0; b < nobj; b++) {
      int ex = 0, sh = 0;
      for (int t = 0; t < nt; t++) { if (held[t][b].excl) ex++; if (held[t][b].sh) sh++; }
      if (ex > 1) fail("exclusion", strf("%d threads hold the exclusive lock of object #%d at the same time", ex, b));
      if (ex && sh) fail("rw-exclusion", strf("object #%d is held exclusively and shared at the same time", b));
      if (ex) cov.add("quiescent_excl_held");
      if (sh > 1) cov.add("quiescent_multi_shared");
    }
    int blocked = 0;
    for (int t = 0; t < nt; t++) amb[t] += passed;
    for (int t = 0; t < nt; t++) {
      if (!obs[t].active || !obs[t].pending) continue;
      blocked++;
      const LOp& o = seq[t][(size_t)obs[t].n];
      const Caps& c = L[o.obj]->caps;
      Held& h = held[t][o.obj];
      if (o.op == TRY || o.op == STRY) fail("try-blocked", opstr(t, o) + " blocks");
      if (o.op == UNLOCK || o.op == SUNLOCK) fail(o.op == UNLOCK && !h.excl ? "misuse-undetected" : "unlock-blocked", opstr(t, o) + " blocks");
      if (c.checked && (h.sh || (h.excl && !c.recursive))) fail("misuse-undetected", opstr(t, o) + " by a thread that already owns the lock blocks instead of throwing EDEADLK");
      if (c.recursive && h.excl) fail("recursion", opstr(t, o) + " by the owner blocks");
      bool isreal = false; int64_t dl = 0;
      bool timed = dl_of(o, c, start_mono[t][obs[t].n], start_real[t][obs[t].n], isreal, dl);
      if (!c.spin && !c.interop) {
        int64_t at = 0; vs::Wait w = vs::wait_of(t, at);
        if (w == vs::W_SPIN) fail("busy-wait", opstr(t, o) + " keeps running while it waits");
        if (w == vs::W_TIMER && !timed) fail("busy-wait", opstr(t, o) + strf(" has no deadline but wakes up after %ld ns although nothing changed", (long)(at - mono)));
        bool own = !conv_at_call(c.conv, o.ta.clk) && (o.ta.clk == C_STEADY || o.ta.clk == C_SYSTEM), ufor = o.op == TRYFOR || o.op == STRYFOR;
        if (w == vs::W_TIMER && timed && (ufor ? !isreal : own) && at + 2 + slop_for(o) < (isreal ? dl - (real - mono) : dl)) fail("busy-wait", opstr(t, o) + strf(" wakes up %ld ns before its deadline although nothing changed", (long)((isreal ? dl - (real - mono) : dl) - at)));
        cov.add(w == vs::W_TIMER ? "asleep_until_deadline" : "asleep");
      }
      if (timed) {
        int64_t nw = isreal ? real : mono;
        if (nw >= satadd(dl, M.late + amb[t])) fail("timeout-late", opstr(t, o) + strf(" is still blocked %ld ns after its deadline", (long)(nw - dl)));
      }
    }
    if (blocked) cov.add("quiescent_with_waiters");
    // full model
    M.mono = mono - passed; M.real = real - passed; passed = 0;
    uint64_t ex0 = S.explored;
    bool ok = inconclusive ? true : S.step(M, nt, seq, obs, started, nxt);
    cov.add("model_nodes", S.explored - ex0);
    if (!inconclusive && S.overflow) { inconclusive = true; cov.add("model_overflow"); }
    if (!ok) classify(obs);
    if (!inconclusive) {
      S.set.swap(nxt);
      for (auto& e : S.set) e.s.adv = 0;
      cov.add("model_checked_points");
      std::string k;
      for (auto& e : S.set) { k.clear(); for (int b = 0; b < nobj; b++) k += L[b]->caps.name; M.key(e.s, k); canon(k); cov.states.insert(fnv(k.data(), k.size())); break; }
    }
    for (int t = 0; t < nt; t++) { started[t] = false; if (obs[t].active && !obs[t].pending) seq[t].clear(); }
  }
  void canon(std::string&) {}
  int64_t maxreal(int) { return real_high; }
  int64_t real_high = 0;   // highest system-clock value shown so far (for clock jumps)

  void classify(const Obs* obs) {
    auto t = [&](bool pol, bool gr, bool fa, bool la, bool de, bool da) {
      LockModel X = M;
      X.rx_policy = pol; X.rx_grant = gr; X.rx_false = fa; X.rx_late = la; X.rx_dead = de; X.rx_dead_any = da;
      Search<LockModel> Q;
      Q.set = S.set;
      std::vector<Search<LockModel>::SetE> o;
      return Q.step(X, nt, seq, obs, started, o) && !Q.overflow;
    };
    std::string d = "no execution of the specification explains what was observed at this point";
    bool hasdet = false, haspol = false;
    for (int b = 0; b < nobj; b++) { hasdet |= L[b]->caps.detect; haspol |= L[b]->caps.pol != ANY; }
    if (hasdet && t(0, 0, 0, 0, 1, 0)) fail("missed-deadlock", d + ": threads are deadlocked on checked mutexes but none of them was told");
    if (hasdet && t(0, 0, 0, 0, 0, 1)) fail("false-deadlock", d + ": a deadlock was reported to a thread that is not part of any cycle of waiting and owning threads");
    if (haspol && t(1, 0, 0, 0, 0, 0)) fail("policy", d + ": the admission order/preference promised by the type is broken");
    if (t(0, 0, 1, 0, 0, 0)) {
      bool tm = false;
      for (int i = 0; i < nt; i++) for (int k = 0; k < obs[i].n; k++) if (obs[i].res[k] == RES_FALSE && seq[i][(size_t)k].op != TRY && seq[i][(size_t)k].op != STRY) tm = true;
      bool trf = false;
      for (int i = 0; i < nt; i++) for (int k = 0; k < obs[i].n; k++) if (obs[i].res[k] == RES_FALSE && (seq[i][(size_t)k].op == TRY || seq[i][(size_t)k].op == STRY)) trf = true;
      fail(trf && tm ? "false-fail" : tm ? "timed-false" : "try-false", d + ": an acquisition failed although the lock was available");
    }
    if (t(0, 1, 0, 0, 0, 0)) fail("missing-grant", d + ": a waiter that must be granted the lock stays blocked");
    if (t(0, 0, 0, 1, 0, 0)) fail("timeout-late", d + ": a timed wait outlives its deadline");
    if (haspol && t(1, 1, 0, 0, 0, 0)) fail("missing-grant", d + ": a waiter that must be granted the lock stays blocked");
    if (t(1, 1, 1, 1, 0, 0)) fail("false-fail", d);
    if (hasdet && t(1, 1, 1, 1, 1, 1)) fail("deadlock-inconsistent", d);
    fail("exclusion-order", d + ": the results are impossible for any mutual-exclusion order");
  }

  bool quiescent() {
    if (vs::real_now() > real_high) real_high = vs::real_now();
    evaluate();
    if (phase == 2) return false;
    // time
    bool acted = false;
    if (phase == 0 && steps++ < maxsteps) {
      real_high = vs::real_now();
      if (rng.chance((uint32_t)P.p_adv)) {
        int64_t nx = vs::next_timer(), to;
        switch (rng.below(6)) {
          case 0: to = vs::mono_now() + (int64_t)rng.below(3000000); break;
          case 1: to = nx >= 0 ? nx - 1 : vs::mono_now() + 1000; break;
          case 2: case 3: to = nx >= 0 ? nx : vs::mono_now() + 1; break;
          case 4: to = nx >= 0 ? nx + 25000000 : vs::mono_now() + 50000000; break;
          default: to = vs::mono_now() + (int64_t)rng.below(2000) * 1000000; break;
        }
        if (to > vs::mono_now() + 60ll * 86400 * 1000000000) to = vs::mono_now() + 1000000000ll;
        ev("advance time by %ld ns", (long)(to - vs::mono_now()));
        vs::advance_to(to);
        cov.add("time_advances");
      }
      else if (P.p_jump && rng.chance((uint32_t)P.p_jump)) {
        int64_t d = ((int64_t)rng.below(4000) - 2000) * 3600000 + (int64_t)rng.below(1000);
        ev("system clock jumps by %ld ns", (long)d);
        vs::jump_real(d);
        cov.add("clock_jumps");
      }
      if (vs::real_now() > real_high) real_high = vs::real_now();
      int k = 1 + (int)rng.below((uint32_t)P.burst);
      if (rng.chance(64)) k = 0;
      for (int i = 0; i < k; i++) {
        std::vector<int> idl;
        for (int t = 0; t < nt; t++) if (idle(t) && seq[t].empty()) idl.push_back(t);
        if (idl.empty()) break;
        int t = idl[rng.below((uint32_t)idl.size())];
        if (gen_seq(t)) { issue(t); acted = true; }
      }
      if (acted) return true;
      // nothing to issue: mark as evaluated, make time pass or go on
      std::vector<int> idl;
      for (int t = 0; t < nt; t++) if (idle(t)) idl.push_back(t);
      return poke();
    }
    if (phase == 0) { phase = 1; real_high = vs::real_now(); abandon = P.p_abandon && rng.chance((uint32_t)P.p_abandon); }
    // drain
    if (++drain_guard > 600) fail("stuck", "the locks could not be drained");
    bool waiting = false;
    for (int t = 0; t < nt; t++) if (!idle(t)) waiting = true;
    for (int t = 0; t < nt; t++) {
      if (!idle(t)) continue;
      if (abandon && !waiting) continue;
      for (int b = 0; b < nobj; b++) if (holds(t, b)) {
        slot[t].n = 0;
        LOp o; o.op = held[t][b].excl ? UNLOCK : SUNLOCK; o.obj = (uint8_t)b;
        slot[t].ops[slot[t].n++] = o;
        issue(t); acted = true;
        break;
      }
    }
    if (acted) return true;
    if (waiting) {
      int64_t nx = vs::next_timer();
      if (nx >= 0) { ev("advance time to next deadline"); if (nx > vs::mono_now()) vs::advance_to(nx); else vs::advance_to(vs::mono_now() + 1); if (vs::real_now() > real_high) real_high = vs::real_now(); return poke(); }
      // spinners on a free lock etc. would be flagged by the model; nobody can help these
      if (fork_mode && !inconclusive && !S.set.empty()) {
        LockModel D = M;
        for (int b = 0; b < nobj; b++) D.caps[b].detect = true;
        bool all = true;
        for (auto& e : S.set) { bool cyc = false; for (int t = 0; t < nt; t++) cyc |= D.in_cycle(e.s, t); all &= cyc; }
        if (all) child_end(43, "undetected_deadlock_blocks");
      }
      if (fork_mode && inconclusive) child_end(43, "inconclusive_deadlock");
      fail("stuck", "threads stay blocked although nobody holds any lock");
    }
    // destroy and leave
    phase = 2;
    int d = (int)rng.below((uint32_t)nt);
    for (int t = 0; t < nt; t++) { slot[t].exit = true; slot[t].destroy = t == d; vs::unpark(t); }
    return true;
  }
  // keep the execution going without issuing commands
  bool poke() { poke_pending = true; vs::unpark(poker()); return true; }
  bool poke_pending = false;
  int poker() { return nt; }  // an extra worker that only parks

  void body(int t) {
    if (t == nt) { while (!slot_exit) { vs::park(); } return; }
    Slot& s = slot[t];
    for (;;) {
      vs::park();
      if (s.exit) break;
      int last = RES_TRUE;
      for (int i = 0; i < s.n; i++) {
        int r;
        if (s.ops[i].ifok && last != RES_TRUE) r = RES_SKIP;
        else {
          vs::progress();
          const LOp& o = s.ops[i];
          start_mono[t][i] = vs::mono_now(); start_real[t][i] = vs::real_now();
          if (o.op == ADV) { vs::advance_to(vs::mono_now() + o.ta.ns); r = RES_TRUE; }
          else { (o.fail & FAIL_CLOCK ? vs::fail_clock_in : vs::fail_alloc_in) = o.fail & ~FAIL_CLOCK; r = L[o.obj]->exec(mem[o.obj], o.op, o.ta, pay[o.obj]); vs::fail_alloc_in = vs::fail_clock_in = 0; }
          last = r;
        }
        s.res[i] = r;
        s.done = i + 1;
      }
      vs::progress();
      s.busy = false;
    }
    if (s.destroy == 1) {
      vs::join_all();
      for (int b = 0; b < nobj; b++) {
        bool heldb = false;
        for (int u = 0; u < nt; u++) heldb |= holds(u, b);
        destroying = heldb ? 2 : 1;
        int r = L[b]->destroy(mem[b]);
        vs::Quiet q;
        destroying = 0;
        if (heldb && abort_mode && L[b]->caps.checked) fail("abort-missing", strf("destroying object #%d (%s) while it is owned did not abort the process: %s", b, L[b]->caps.name, res_str(r).c_str()));
        int want = heldb && L[b]->caps.checked ? RES_EXC + EDEADLK : RES_TRUE;
        if (heldb) { misused = true; cov.add("destroy_while_owned"); }
        if (r != want) fail(heldb ? "misuse-undetected" : "unexpected-throw", strf("destroying object #%d (%s) ended with: %s", b, heldb ? "still owned" : "not owned", res_str(r).c_str()));
      }
      slot_exit = true;
      vs::unpark(nt);
    }
  }
  bool slot_exit = false;
  int destroying = 0;

  // the process is being aborted inside a call made by worker t: was that warranted?
  void on_abort(int t) {
    if (destroying == 2) child_end(42, "abort.destroy_while_owned");
    if (destroying || t < 0 || t >= nt || !slot[t].busy) fail("abort-unwarranted", strf("worker %d aborted the process outside any violating call", t));
    Slot& s = slot[t];
    Held h[MAXOBJ]; memcpy(h, held[t], sizeof h);
    for (int i = seen[t]; i < s.done; i++) {
      if (s.res[i] != RES_TRUE) continue;
      const LOp& o = s.ops[i];
      if (o.op == ADV) continue;
      if (o.op == UNLOCK) h[o.obj].excl--; else if (o.op == SUNLOCK) h[o.obj].sh = false; else if (o.op >= SLOCK) h[o.obj].sh = true; else h[o.obj].excl++;
    }
    const LOp& o = s.ops[s.done];
    const Caps& c = L[o.obj]->caps;
    Held& x = h[o.obj];
    if (!c.checked) fail("abort-unwarranted", opstr(t, o) + " aborted the process");
    if ((o.op == UNLOCK && !x.excl) || (o.op == SUNLOCK && !x.sh)) child_end(42, strf("abort.%s_not_owned", op_names[o.op]).c_str());
    bool acq = o.op != UNLOCK && o.op != SUNLOCK;
    if (acq && (x.sh || (x.excl && !(c.recursive && o.op <= TRYUNTIL)))) child_end(42, strf("abort.%s_again", op_names[o.op]).c_str());
    if (!(c.detect && (o.op == LOCK || o.op == SLOCK))) fail("abort-unwarranted", opstr(t, o) + " is a legal call but aborted the process");
    if (inconclusive) child_end(42, "abort.inconclusive");
    // a deadlock report: some execution of the specification must reach it
    Obs obs[MAXT];
    for (int u = 0; u < nt; u++) {
      Slot& z = slot[u];
      if (seq[u].empty()) continue;
      obs[u].active = true; obs[u].n = z.done;
      for (int i = 0; i < z.done; i++) obs[u].res[i] = z.res[i];
      if (u == t) { obs[u].res[obs[u].n++] = RES_EXC + EDEADLK; while (obs[u].n < (int)seq[u].size()) obs[u].res[obs[u].n++] = RES_SKIP; }
      else if (z.busy) obs[u].free = true;
    }
    if (seq[t].size() > (size_t)s.done + 1) seq[t].resize((size_t)s.done + 1);
    obs[t].n = s.done + 1;
    M.mono = vs::mono_now(); M.real = vs::real_now();
    Search<LockModel> Q; Q.set = S.set; Q.probing = true;
    std::vector<Search<LockModel>::SetE> out;
    bool ok = Q.step(M, nt, seq, obs, started, out);
    if (ok || Q.overflow) child_end(42, "abort.deadlock");
    fail("abort-unwarranted", opstr(t, o) + " aborted the process but the caller is not part of any cycle of waiting and owning threads");
  }
};
Run* cur_run = nullptr;

void* g_mem[MAXOBJ]; long* g_pay[MAXOBJ];
}  // namespace

namespace {
int child_fd = -1;
uint64_t base_execs = 0;
void child_end(int code, const char* what) {
  std::string o;
  cov.add(what);
  cov.add("execs", vs::stats.execs + (code ? 1 : 0)); cov.add("steps", vs::stats.steps); cov.add("sync_calls", vs::stats.syncops); cov.add("blocks", vs::stats.blocks);
  if (code) { std::string x; for (auto& l : evlog) x += l + " / "; cov.scheds.insert(fnv(x.data(), x.size())); if (cov.samples.size() < 2) cov.samples.push_back(std::string(what) + ": " + x); }
  for (auto& k : cov.c) o += "C " + k.first + " " + std::to_string(k.second) + "\n";
  for (auto h : cov.scheds) o += strf("H %lx\n", (unsigned long)h);
  for (auto h : cov.states) o += strf("S %lx\n", (unsigned long)h);
  for (auto& x : cov.samples) o += "T " + x.substr(0, 900) + "\n";
  o += "E " + std::to_string(cur_exec) + "\n";
  for (size_t p = 0; p < o.size();) { ssize_t w = write(child_fd, o.data() + p, o.size() - p); if (w <= 0) break; p += (size_t)w; }
  fflush(stdout);
  _exit(code);
}
void on_sigabrt(int) {
  static bool in = false;
  if (in) _exit(11);
  in = true;
  int t = vs::self();
  vs::Quiet q;
  cur_run->on_abort(t);
}
}
int sat_main(const Args& a) {
  Shard sh;
  shard_begin(a, sh);
  std::vector<ILock*> types;
  for (auto& n : split(a.s("types"))) {
    bool fam = false;
    for (auto* l : lock_registry()) if (n == l->caps.family || n == "all") { types.push_back(l); fam = true; }
    if (!fam) { ILock* l = find_lock(n); if (!l) { fprintf(stderr, "unknown type %s\n", n.c_str()); return 3; } types.push_back(l); }
  }
  std::vector<std::string> profs = split(a.s("profile", "base"));
  std::string filt = a.s("only");
  if (!filt.empty()) {
    std::vector<ILock*> f;
    for (auto* l : types) {
      bool k = true;
      for (auto& x : split(filt)) {
        if (x == "shared") k &= l->caps.shared; else if (x == "excl") k &= !l->caps.shared;
        else if (x == "timed") k &= l->caps.timed; else if (x == "recursive") k &= l->caps.recursive; else if (x == "yielding") k &= !l->caps.busy;
        else if (x == "nospin") k &= !l->caps.spin;
      }
      if (k) f.push_back(l);
    }
    types.swap(f);
  }
  for (int b = 0; b < MAXOBJ; b++) { g_mem[b] = vs::obj_alloc(1024); g_pay[b] = (long*)vs::obj_alloc(16); }
  auto one = [&](long e) {
    vs::Rng r = exec_rng(sh, e);
    Profile P = profile(profs[r.below((uint32_t)profs.size())]);
    Run R(r);
    R.P = P;
    R.nt = P.tmin + (int)r.below((uint32_t)(P.tmax - P.tmin + 1));
    ILock* base = types[(size_t)e % types.size()];
    R.nobj = P.nobj > 1 ? 1 + (int)r.below((uint32_t)P.nobj) : 1;
    if (!base->caps.detect && !(fork_mode && base->caps.checked)) R.nobj = 1;  // several objects may deadlock: only with detection
    bool timed_only_until = false; (void)timed_only_until;
    vs::Opts o = vs::random_opts(r);
    if (a.has("pspur")) o.pspur = (int)a.n("pspur", 0);
    R.M.spurious_try = false;
    for (int b = 0; b < R.nobj; b++) {
      R.L[b] = b == 0 || !P.mixed ? base : types[r.below((uint32_t)types.size())];
      if (!R.L[b]->caps.detect && R.nobj > 1 && !fork_mode) R.L[b] = base;
      R.M.caps[b] = R.L[b]->caps;
      if (R.L[b]->caps.spin && o.pcasfail) R.M.spurious_try = true;
      R.mem[b] = g_mem[b]; R.pay[b] = g_pay[b];
      memset(R.mem[b], 0xA5, 1024);
      vs::obj_unpoison(R.mem[b], R.L[b]->size);
      g_pay[b][0] = g_pay[b][1] = 0;
      R.L[b]->construct(R.mem[b]);
    }
    R.M.nobj = R.nobj;
    R.M.slop = 2000;
    R.maxsteps = P.smin + (int)r.below((uint32_t)(P.smax - P.smin + 1));
    for (int t = 0; t < MAXT; t++) { R.started[t] = false; R.seen[t] = 0; }
    R.S.reset(LS());
    cur_run = &R;
    o.autotime = false; o.ptimer = 0;
    uint64_t h = vs::run(R.nt + 1, o, [&](int t) { R.body(t); }, [&] { return R.quiescent(); });
    cov.scheds.insert(h);
    if (cov.samples.size() < 2 && R.steps > 3 && evlog.size() > 8 && evlog.size() < 40) { std::string s = std::string(R.L[0]->caps.name) + ": "; for (auto& x : evlog) s += x + " / "; cov.samples.push_back(s); }
    cov.add(std::string("execs.") + base->caps.name);
    if (R.inconclusive) cov.add("inconclusive_execs");
  };
  abort_mode = a.has("abort"); fork_mode = abort_mode || a.has("fork");
  if (!fork_mode) {
    for (long e = sh.start; e < sh.execs; e++) { if (!exec_begin(sh, e)) break; one(e); }
    shard_end(a);
  }
  // executions may end the process: run them in children, merge what the children saw
  if (abort_mode) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_sigabrt; sigaction(SIGABRT, &sa, nullptr); }
  long e = sh.start;
  while (e < sh.execs && exec_begin(sh, e & ~15l)) {
    int fd[2];
    if (pipe(fd)) return 3;
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) return 3;
    if (pid == 0) {
      close(fd[0]); child_fd = fd[1]; cov = Cov();
      for (; e < sh.execs; e++) { if (!exec_begin(sh, e)) break; one(e); }
      child_end(0, "completed_normally");
    }
    close(fd[1]);
    FILE* in = fdopen(fd[0], "r");
    char line[8192]; long upto = -1;
    while (fgets(line, sizeof line, in)) {
      size_t n = strlen(line); if (n && line[n - 1] == '\n') line[--n] = 0;
      if (line[0] == 'C') { char* sp = strrchr(line, ' '); *sp = 0; cov.add(line + 2, strtoull(sp + 1, nullptr, 10)); }
      else if (line[0] == 'H') cov.scheds.insert(strtoull(line + 2, nullptr, 16));
      else if (line[0] == 'S') cov.states.insert(strtoull(line + 2, nullptr, 16));
      else if (line[0] == 'T' && cov.samples.size() < 3) cov.samples.push_back(line + 2);
      else if (line[0] == 'E') upto = strtol(line + 2, nullptr, 10);
    }
    fclose(in);
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 10) _exit(10);   // the child has printed its report
    if (!WIFEXITED(st) || upto < 0 || (WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 42 && WEXITSTATUS(st) != 43))
      { cur_exec = -1; vs::violation("crash", strf("the process ended unexpectedly (wait status 0x%x)\n", st)); }
    if (upto < e) break;   // time budget
    e = upto + (WEXITSTATUS(st) == 0 ? 0 : 1);
    cov.add("processes");
    if (WEXITSTATUS(st) == 0) break;
  }
  shard_end(a);
  return 0;
}

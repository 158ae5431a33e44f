// Scripted semaphore/latch/barrier workload checked against executable specifications.
#include "common.h"
#include "engine.h"
#include "times.h"
#include "sync.h"
#include "units.h"
#include <algorithm>
std::vector<ISync*>& sync_registry() { static std::vector<ISync*> v; return v; }

namespace {
struct SOp { SOpK op; int64_t n = 1; bool ifok = false; TimeArg ta; uint8_t fail = 0; };
struct SW { int8_t th, timed, isreal; int64_t v, unc = 0; uint8_t fail = 0; };   // v: deadline, or arrival phase
struct SS { int64_t cnt = 0, exp = 0; int64_t phase = 0; uint8_t nq = 0; SW q[MAXT]; int64_t rel[MAXT]; int64_t tok[MAXT]; int64_t adv = 0;
  SS() { memset(rel, 0, sizeof rel); for (auto& x : tok) x = -1; } };
struct SModel {
  using State = SS; using OpT = SOp;
  SCaps caps;
  int64_t mono = 0, real = 0, late = 20000000, slop = 2000;
  bool rx_grant = false, rx_false = false, rx_late = false, rx_phase = false;
  bool commuting() const { return caps.kind != K_SEM; }
  int64_t now(const SS& s, const SW& w) const { return (w.isreal ? real : mono) + s.adv; }
  static void erase(SS& s, int i) { for (; i + 1 < s.nq; i++) s.q[i] = s.q[i + 1]; s.nq--; }
  static void enq(SS& s, int t, int64_t v, bool timed = false, bool isreal = false) { SW w; w.th = (int8_t)t; w.timed = timed; w.isreal = isreal; w.v = v; s.q[s.nq++] = w; }
  void arrive(SS& s, int64_t n) const { s.cnt -= n; if (s.cnt == 0) { s.phase++; s.cnt = s.exp; } }
  static int rphase(int64_t p) { return 10 + (int)(p & 0xffffff); }
  void attempt(const SS& s, int t, const SOp& op, std::vector<Outc<SS>>& out) const {
    Outc<SS> x; x.s = s;
    switch (op.op) {
      case SADV: x.s.adv += op.ta.ns; x.done(t, RES_TRUE); out.push_back(x); return;
      case REL:
        if (caps.loop_release && op.n > 1) { x.s.rel[t] = op.n; out.push_back(x); return; }
        x.s.cnt += op.n; x.done(t, RES_TRUE); out.push_back(x); return;
      case TRYA:
        if (s.cnt > 0) { Outc<SS> y = x; y.s.cnt--; y.done(t, RES_TRUE); out.push_back(y); }
        if (s.cnt <= 0 || rx_false) { x.done(t, RES_FALSE); out.push_back(x); }
        return;
      case ACQ: case TRYAFOR: case TRYAUNTIL: {
        if (op.fail) { Outc<SS> y = x; y.done(t, fail_res(op.fail)); out.push_back(y); }   // without effect
        if (s.cnt > 0) { Outc<SS> y = x; y.s.cnt--; y.done(t, RES_TRUE); out.push_back(y); if (!rx_false && !rx_grant) return; }
        bool isreal = false; int64_t dl = 0;
        if (op.op == TRYAFOR) { isreal = caps.for_real; dl = satadd((isreal ? real : mono) + s.adv, op.ta.ns); }
        if (op.op == TRYAUNTIL) {
          dl = until_dl(caps.conv, op.ta, mono + s.adv, real + s.adv, isreal);
        }
        enq(x.s, t, dl, op.op != ACQ, isreal); x.s.q[x.s.nq - 1].unc = op.op == TRYAFOR || (op.op == TRYAUNTIL && conv_at_call(caps.conv, op.ta.clk)) ? s.adv : 0; x.s.q[x.s.nq - 1].fail = op.fail; out.push_back(x); return;
      }
      case CD: x.s.cnt -= op.n; x.done(t, RES_TRUE); out.push_back(x); return;
      case TW: x.done(t, s.cnt == 0 ? RES_TRUE : RES_FALSE); out.push_back(x); if (rx_false) { Outc<SS> y; y.s = s; y.done(t, s.cnt == 0 ? RES_FALSE : RES_TRUE); out.push_back(y); } return;
      case WAIT: enq(x.s, t, 0); out.push_back(x); return;
      case AAW: x.s.cnt -= op.n; enq(x.s, t, 0); out.push_back(x); return;
      case ARR: x.s.tok[t] = s.phase; arrive(x.s, op.n); x.done(t, RES_TRUE); out.push_back(x); return;
      case BWAIT: enq(x.s, t, s.tok[t]); x.s.tok[t] = -1; out.push_back(x); return;
      case BAAW: { int64_t p = s.phase; arrive(x.s, 1); enq(x.s, t, p); out.push_back(x); return; }
      case DROP: { int64_t p = s.phase; x.s.exp--; arrive(x.s, 1); enq(x.s, t, p, true); out.push_back(x); return; }
      default: return;
    }
  }
  void internal(const SS& s, std::vector<Outc<SS>>& out) const {
    for (int t = 0; t < MAXT; t++) if (s.rel[t]) { Outc<SS> x; x.s = s; x.s.cnt++; if (--x.s.rel[t] == 0) x.done(t, RES_TRUE); out.push_back(x); }
    for (int i = 0; i < s.nq; i++) {
      const SW& w = s.q[i];
      Outc<SS> x; x.s = s; erase(x.s, i);
      if (caps.kind == K_SEM) {
        if (s.cnt > 0) { x.s.cnt--; x.done(w.th, RES_TRUE); out.push_back(x); }
        if (w.timed && satadd(w.v, -w.unc) <= now(s, w) + slop && (s.cnt <= 0 || rx_false)) { Outc<SS> y; y.s = s; erase(y.s, i); y.done(w.th, RES_FALSE); out.push_back(y); }
        if (w.fail) { Outc<SS> y; y.s = s; erase(y.s, i); y.done(w.th, fail_res(w.fail)); out.push_back(y); }
      } else if (caps.kind == K_LATCH) { if (s.cnt == 0) { x.done(w.th, RES_TRUE); out.push_back(x); } }
      else if (w.v < s.phase || w.timed || rx_phase) { x.done(w.th, w.timed ? RES_TRUE : rphase(caps.maxv == -1 ? 0 : s.phase)); out.push_back(x); }
    }
  }
  bool settled(const SS& s) const {
    for (int t = 0; t < MAXT; t++) if (s.rel[t]) return false;
    for (int i = 0; i < s.nq; i++) {
      const SW& w = s.q[i];
      if (caps.kind == K_SEM) {
        if (!rx_grant && s.cnt > 0) return false;
        if (w.timed && !rx_late && w.v <= now(s, w) - late - w.unc) return false;
      } else if (rx_grant) continue;
      else if (caps.kind == K_LATCH) { if (s.cnt == 0) return false; }
      else if (w.v < s.phase) return false;
    }
    return true;
  }
  void key(const SS& s, std::string& k) const {
    auto put = [&](int64_t v) { k.append((const char*)&v, 8); };
    put(s.adv); put(s.cnt); put(s.exp); put(s.phase); put(s.nq);
    SW q[MAXT]; for (int i = 0; i < s.nq; i++) q[i] = s.q[i];
    std::sort(q, q + s.nq, [](const SW& a, const SW& b) { return a.th < b.th; });
    for (int i = 0; i < s.nq; i++) { put(q[i].th | q[i].timed << 8 | q[i].isreal << 16 | (q[i].fail != 0) << 24); put(q[i].v); put(q[i].unc); }
    for (int t = 0; t < MAXT; t++) { put(s.rel[t]); put(s.tok[t]); }
  }
};

struct Slot { int n = 0; SOp ops[MAXSEQ]; int res[MAXSEQ]; int done = 0; bool busy = false, exit = false, destroy = false; int64_t amb = 0, sm[MAXSEQ], sr[MAXSEQ]; };

struct Run {
  vs::Rng rng; bool ptimed = false, pclk = false;
  int nt; ISync* I; void* mem;
  Slot slot[MAXT]; Tok tok[MAXT]; bool hastok[MAXT];
  std::vector<SOp> seq[MAXT]; bool started[MAXT]; int seen[MAXT];
  SModel M; Search<SModel> S; std::vector<Search<SModel>::SetE> nxt;
  int steps = 0, maxsteps = 20, phase = 0, guard = 0; bool inconclusive = false; bool fin = false;
  int64_t passed = 0;
  int64_t comps = 0;          // completion function calls seen
  bool in_comp = false; int64_t real_high = 0;
  int64_t init = 0, maxv = 0;
  __int128 released = 0, acquired = 0;   // conservation counters over completed operations
  explicit Run(vs::Rng r) : rng(r) { memset(hastok, 0, sizeof hastok); memset(started, 0, sizeof started); memset(seen, 0, sizeof seen); }

  std::string opstr(int t, const SOp& o) {
    std::string s = strf("T%d.%s(", t, sop_names[o.op]);
    if (o.op == REL || o.op == CD || o.op == AAW || o.op == ARR) s += strf("%ld", (long)o.n);
    if (o.op == BWAIT) s += "token";
    if (o.op == TRYAFOR) s += strf("%ldns", (long)o.ta.ns);
    if (o.op == TRYAUNTIL) s += strf("%s@%ld", clk_name(o.ta.clk), (long)o.ta.ns);
    if (o.fail) s += strf("!clock%d", o.fail & ~FAIL_CLOCK);
    if (o.op == SADV) s += strf("%ldns", (long)o.ta.ns);
    return s + ")" + (o.ifok ? "?" : "");
  }
  static std::string rs(const SOp& o, int r) { return (o.op == BWAIT || o.op == BAAW) && r >= 10 && r < RES_EXC ? strf("ok (completions seen: %d)", r - 10) : res_str(r); }
  [[noreturn]] void fail(const char* kind, const std::string& d) { vs::violation(kind, d + strf("\nobject: %s initial=%ld\n", I->caps.name, (long)init)); }
  bool idle(int t) { return !slot[t].busy; }
  bool sem() const { return I->caps.kind == K_SEM; }

  TimeArg pick_time(bool until) {
    TimeGen g; g.past = 120; g.lng = 30; g.preepoch = 20; g.forever = 12;
    g.user = pclk && until && rng.chance(850);
    return gen_time(rng, g, until, false);
  }
  // budgets of the current burst, so that every generated call respects its precondition whatever the interleaving
  int64_t b_units = 0;     // semaphore: units that may still be released; latch: count that may still be taken
  int b_arr = 0, b_comp = 0, b_maxcomp = 99; bool b_bulk = false; int64_t b_minexp = 0;
  int64_t q_cnt = 0, q_exp = 0;  // state at the quiescent point (all explanations agree on these)
  int64_t room(int t) { int64_t r = 1; for (auto& e : S.set) r = std::min(r, e.s.tok[t] - e.s.phase + 1); return r; }  // phases that may complete before t waits for its token
  void burst_begin() {
    const SS& s = S.set[0].s;
    q_cnt = s.cnt; q_exp = s.exp;
    for (auto& e : S.set) if (e.s.cnt < q_cnt) q_cnt = e.s.cnt;   // a drop may belong to either of two phases
    if (sem()) b_units = maxv - q_cnt;
    else b_units = q_cnt;
    if (I->caps.kind == K_BARRIER) for (int t = 0; t < nt; t++) {
      if (!hastok[t] || slot[t].busy || room(t) >= 0) continue;
      hastok[t] = false;                                           // too old to be waited for
      for (auto& e : S.set) e.s.tok[t] = -1;
    }
    b_arr = 0; b_bulk = false; b_minexp = q_exp; b_maxcomp = 99;
    for (int t = 0; t < nt; t++) {
      if (!slot[t].busy) continue;
      for (int i = slot[t].done + 1; i < slot[t].n; i++) {
        const SOp& o = slot[t].ops[i];
        if (o.op == REL && !o.ifok) b_units -= o.n;
        if (o.op == BAAW || o.op == DROP || o.op == ARR) b_arr += (int)o.n;
        if (o.op == DROP) b_minexp--;
      }
    }
  }
  int64_t comps_if(int64_t arr) { if (arr < q_cnt) return 0; int64_t e = b_minexp < 1 ? 1 : b_minexp; return 1 + (arr - q_cnt) / e; }
  bool arr_ok(int64_t n) { return comps_if(b_arr + n) <= b_maxcomp; }
  bool gen1(int t, SOp& o) {
    o = SOp();
    uint32_t k = rng.below(1024);
    if (sem()) {
      uint32_t prel = q_cnt > 3 ? 200 : 420;
      if (k < prel && b_units > 0) {
        o.op = REL;
        int64_t m = b_units < 6 ? b_units : 6;
        o.n = rng.chance(600) ? 1 : 1 + (int64_t)rng.below((uint32_t)m);
        if (rng.chance(15)) o.n = 0;
        if (!I->caps.loop_release && rng.chance(30) && b_units > (1ll << 40)) o.n = (1ll << 33) + 1;
        b_units -= o.n;
        return true;
      }
      k = rng.below(1024);
      if (k < (ptimed ? 150u : 450u)) o.op = ACQ;
      else if (k < (ptimed ? 250u : 700u)) o.op = TRYA;
      else if (rng.chance(512)) { o.op = TRYAFOR; o.ta = pick_time(false); }
      else { o.op = TRYAUNTIL; o.ta = pick_time(true); if (pclk && phase == 0 && o.ta.clk >= C_CUSTOM && rng.chance(700)) o.fail = FAIL_CLOCK | (uint8_t)(1 + rng.below(4)); }
      return true;
    }
    if (I->caps.kind == K_LATCH) {
      if (k < 250) { o.op = TW; return true; }
      if (k < 500) { o.op = WAIT; return true; }
      if (b_units > 0 || rng.chance(40)) {
        int64_t m = b_units < 4 ? b_units : 4;
        o.n = b_units ? 1 + (int64_t)rng.below((uint32_t)m) : 0;
        if (rng.chance(20)) o.n = 0;
        if (b_units > (1ll << 34) && rng.chance(300)) o.n = b_units - (int64_t)rng.below(4);
        b_units -= o.n;
        o.op = rng.chance(600) ? CD : AAW;
        return true;
      }
      o.op = WAIT; return true;
    }
    // barrier
    if (hastok[t] && k < 500) {
      int64_t rm = room(t);
      if (rm >= 0 && comps_if(b_arr) <= rm) { b_maxcomp = std::min<int64_t>(b_maxcomp, rm); o.op = BWAIT; return true; }
    }
    if (!arr_ok(1)) return false;
    k = rng.below(1024);
    if (k < 90 && b_minexp > 1) { o.op = DROP; b_minexp--; if (comps_if(b_arr + 1) > b_maxcomp) { b_minexp++; return false; } b_arr++; return true; }
    if (k < 380 && !hastok[t]) {
      o.op = ARR;
      if (b_arr == 0 && !b_bulk && q_cnt > 1 && rng.chance(300)) { o.n = 2 + (int64_t)rng.below((uint32_t)std::min<int64_t>(q_cnt - 1, 4)); if (o.n > q_cnt) o.n = q_cnt; b_bulk = true; }
      b_arr += (int)o.n;
      return true;
    }
    if (b_bulk) return false;
    o.op = BAAW; b_arr++;
    return true;
  }
  bool gen_seq(int t) {
    Slot& s = slot[t]; s.n = 0;
    SOp o;
    if (!gen1(t, o)) return false;
    s.ops[s.n++] = o;
    if (b_bulk) return true;
    if (sem() && o.op == REL && rng.chance(ptimed ? 350 : 60)) {
      int64_t nx = vs::next_timer(), d;
      if (nx >= vs::mono_now() && nx < vs::mono_now() + 10000ll * 1000000000) d = nx - vs::mono_now() + (rng.chance(512) ? 0 : (int64_t)rng.below(40) * 1000000);
      else d = (int64_t)rng.below(2000) * 1000000;
      SOp q; q.op = SADV; q.ta.ns = d; s.ops[s.n++] = q;
      return true;
    }
    bool chain = rng.chance(350);
    if (!chain) return true;
    if (sem()) {
      if (o.op != REL) { SOp r; r.op = REL; r.n = 1; r.ifok = true; s.ops[s.n++] = r; if (rng.chance(400)) { int64_t u = b_units; SOp q; if (maxv < 1000) b_units = 0; if (gen1(t, q)) s.ops[s.n++] = q; if (maxv < 1000) b_units = u; } }
      else { SOp q; if (gen1(t, q)) s.ops[s.n++] = q; }
    } else if (I->caps.kind == K_LATCH) { SOp q; int64_t u = b_units; if (o.op == WAIT || o.op == AAW) b_units = 0; if (gen1(t, q)) s.ops[s.n++] = q; if (o.op == WAIT || o.op == AAW) b_units = u; }
    else if (o.op == ARR && comps_if(b_arr) <= 1) { b_maxcomp = std::min(b_maxcomp, 1); SOp q; q.op = BWAIT; s.ops[s.n++] = q; }
    else if (o.op == BAAW) { SOp q; if (gen1(t, q) && (q.op == BAAW || q.op == DROP)) s.ops[s.n++] = q; }
    return true;
  }
  void issue(int t) {
    Slot& s = slot[t];
    s.done = 0; s.busy = true; seen[t] = 0; s.amb = 0;
    seq[t].assign(s.ops, s.ops + s.n);
    started[t] = true;
    std::string d = "issue ";
    for (int i = 0; i < s.n; i++) d += (i ? "; " : "") + opstr(t, s.ops[i]);
    ev("%s", d.c_str());
    cov.add("commands");
    vs::unpark(t);
  }
  void evaluate() {
    Obs obs[MAXT]; bool any = false;
    int64_t mono = vs::mono_now(), real = vs::real_now();
    for (int t = 0; t < nt; t++) {
      if (seq[t].empty()) continue;
      any = true; obs[t].active = true; obs[t].n = slot[t].done; obs[t].pending = slot[t].busy;
      for (int i = 0; i < slot[t].done; i++) obs[t].res[i] = slot[t].res[i];
    }
    if (!any) return;
    { int64_t p = 0; for (int t = 0; t < nt; t++) for (int i = seen[t]; obs[t].active && i < obs[t].n; i++) if (seq[t][(size_t)i].op == SADV && obs[t].res[i] != RES_SKIP) p += seq[t][(size_t)i].ta.ns; for (int t = 0; t < nt; t++) slot[t].amb += p; }
    for (int t = 0; t < nt; t++) {
      if (!obs[t].active) continue;
      for (int i = seen[t]; i < obs[t].n; i++) {
        const SOp& o = seq[t][(size_t)i]; int r = obs[t].res[i];
        ev("  %s -> %s", opstr(t, o).c_str(), rs(o, r).c_str());
        if (o.op == SADV) { passed += o.ta.ns; cov.add("time_passed_after_release"); continue; }
        if (r == RES_SKIP) continue;
        cov.add(strf("%s.%s", sop_names[o.op], r == RES_FALSE ? "false" : r >= RES_EXC ? "throw" : "ok"));
        if (o.fail && r == fail_res(o.fail)) { cov.add("clock_failures_reported"); continue; }
        if (r >= RES_EXC) fail("unexpected-throw", opstr(t, o) + " is a legal call but ended with: " + res_str(r));
        if (o.op == REL) released += o.n;
        if (o.op <= TRYAUNTIL && r == RES_TRUE) acquired++;
        if (o.op == ARR) hastok[t] = true;
        if (o.op == BWAIT) hastok[t] = false;
        if (r == RES_FALSE && (o.op == TRYAFOR || o.op == TRYAUNTIL)) {
          int64_t nw, dl;
          if (o.op == TRYAFOR) { bool ir = I->caps.for_real; dl = satadd(ir ? slot[t].sr[i] : slot[t].sm[i], o.ta.ns); nw = ir ? real_high : mono; }
          else { bool ir; dl = until_dl(I->caps.conv, o.ta, slot[t].sm[i], slot[t].sr[i], ir); nw = ir ? real_high : mono; }
          if (o.op == TRYAUNTIL && conv_at_call(I->caps.conv, o.ta.clk)) nw += slot[t].amb;
          if (nw + 2 + rep_slop(o.ta) < dl) fail("timeout-early", opstr(t, o) + strf(" gave up %ld ns before its deadline", (long)(dl - nw)));
          cov.add(nw < dl + 1000 ? "timeouts_at_deadline" : "timeouts_after_deadline");
        }
      }
      seen[t] = obs[t].n;
    }
    if (sem()) {
      
      for (int t = 0; t < nt; t++) if (obs[t].active && obs[t].pending && seq[t][(size_t)obs[t].n].op == REL) fail("release-blocked", opstr(t, seq[t][(size_t)obs[t].n]) + " blocks");
      if (acquired > (__int128)init + released) fail("conservation", strf("%ld acquisitions completed but only %ld permits existed", (long)acquired, (long)((__int128)init + released)));
    }
    int waiters = 0;
    for (int t = 0; t < nt; t++) {
      if (!obs[t].active || !obs[t].pending) continue;
      waiters++;
      SOpK k = seq[t][(size_t)obs[t].n].op;
      {
        const SOp& o = seq[t][(size_t)obs[t].n]; bool timed = k == TRYAFOR || k == TRYAUNTIL; int64_t at = 0; vs::Wait w = vs::wait_of(t, at);
        if (w == vs::W_SPIN) fail("busy-wait", opstr(t, o) + " keeps running while it waits");
        if (w == vs::W_TIMER && !timed) fail("busy-wait", opstr(t, o) + strf(" has no deadline but wakes up after %ld ns although nothing changed", (long)(at - mono)));
        if (w == vs::W_TIMER && timed) {
          bool ir = I->caps.for_real; int i = obs[t].n, clk = o.ta.clk; int64_t dl;
          if (k == TRYAFOR) dl = satadd(slot[t].sm[i], o.ta.ns); else dl = until_dl(I->caps.conv, o.ta, slot[t].sm[i], slot[t].sr[i], ir);
          bool own = k == TRYAFOR ? !ir : !conv_at_call(I->caps.conv, (uint8_t)clk) && (clk == C_STEADY || clk == C_SYSTEM);
          if (ir) dl -= real - mono;
          if (own && at + 2 + rep_slop(o.ta) < dl) fail("busy-wait", opstr(t, o) + strf(" wakes up %ld ns before its deadline although nothing changed", (long)(dl - at)));
        }
        cov.add(w == vs::W_TIMER ? "asleep_until_deadline" : "asleep");
      }
      if (k == TRYA || k == TW || k == CD || k == ARR) fail(k == TRYA || k == TW ? "try-blocked" : "arrive-blocked", opstr(t, seq[t][(size_t)obs[t].n]) + " blocks");
    }
    if (waiters) cov.add("quiescent_with_waiters");
    M.mono = mono - passed; M.real = real - passed; passed = 0;
    uint64_t e0 = S.explored;
    bool ok = inconclusive ? true : S.step(M, nt, seq, obs, started, nxt);
    cov.add("model_nodes", S.explored - e0);
    if (!inconclusive && S.overflow) { inconclusive = true; cov.add("model_overflow"); }
    if (!ok) classify(obs);
    if (!inconclusive) {
      S.set.swap(nxt);
      for (auto& e : S.set) e.s.adv = 0;
      if (I->caps.kind == K_BARRIER && !strcmp(I->caps.name, "barrier<F>")) {
        bool match = false;
        for (auto& e : S.set) if (e.s.phase == comps) match = true;
        if (!match) fail("completion-count", strf("the completion function ran %ld times but %ld phases are complete", (long)comps, (long)S.set[0].s.phase));
      }
      cov.add("model_checked_points");
      std::string k = I->caps.name; M.key(S.set[0].s, k); cov.states.insert(fnv(k.data(), k.size()));
    }
    for (int t = 0; t < nt; t++) { started[t] = false; if (obs[t].active && !obs[t].pending) seq[t].clear(); }
  }
  void classify(const Obs* obs) {
    auto t = [&](bool g, bool f, bool l, bool p) {
      SModel X = M; X.rx_grant = g; X.rx_false = f; X.rx_late = l; X.rx_phase = p;
      Search<SModel> Q; Q.set = S.set; std::vector<Search<SModel>::SetE> o;
      return Q.step(X, nt, seq, obs, started, o) && !Q.overflow;
    };
    std::string d = "no execution of the specification explains what was observed at this point";
    if (t(1, 0, 0, 0)) fail(sem() ? "lost-permit" : "missing-release", d + (sem() ? ": a thread stays blocked although permits are available" : ": a thread stays blocked although what it waits for has happened"));
    if (t(0, 1, 0, 0)) {
      bool tm = false, tr = false;
      for (int i = 0; i < nt; i++) for (int k = 0; k < obs[i].n; k++) if (obs[i].res[k] == RES_FALSE) { SOpK q = seq[i][(size_t)k].op; if (q == TRYA || q == TW) tr = true; else tm = true; }
      fail(sem() ? (tm && tr ? "false-fail" : tm ? "timed-false" : "try-false") : "try-wait", d + ": the call's result contradicts the count");
    }
    if (t(0, 0, 1, 0)) fail("timeout-late", d + ": a timed wait outlives its deadline");
    if (t(0, 0, 0, 1)) fail("early-release", d + ": a waiter was released before its phase completed");
    if (t(1, 1, 1, 1)) fail("inconsistent", d);
    fail(sem() ? "conservation" : "early-release", d + (sem() ? ": more permits were taken than existed" : ": a thread was released too early"));
  }
  bool poke() { vs::unpark(nt); return true; }
  bool quiescent() {
    if (vs::real_now() > real_high) real_high = vs::real_now();
    evaluate();
    if (phase == 2) return false;
    if (phase == 0 && steps++ < maxsteps && !inconclusive) {
      real_high = vs::real_now();
      if (sem() && rng.chance(ptimed ? 450 : 200)) {
        int64_t nx = vs::next_timer(), to;
        switch (rng.below(5)) {
          case 0: to = vs::mono_now() + (int64_t)rng.below(3000000); break;
          case 1: to = nx >= 0 ? nx - 1 : vs::mono_now() + 1000; break;
          case 2: case 3: to = nx >= 0 ? nx : vs::mono_now() + 1; break;
          default: to = nx >= 0 ? nx + 25000000 : vs::mono_now() + 50000000; break;
        }
        if (to > vs::mono_now() + 60ll * 86400 * 1000000000) to = vs::mono_now() + 1000000000ll;
        ev("advance time by %ld ns", (long)(to - vs::mono_now()));
        vs::advance_to(to);
      } else if (sem() && rng.chance(60)) { int64_t d = ((int64_t)rng.below(4000) - 2000) * 3600000 + (int64_t)rng.below(1000); ev("system clock jumps by %ld ns", (long)d); vs::jump_real(d); }
      if (vs::real_now() > real_high) real_high = vs::real_now();
      burst_begin();
      bool acted = false;
      int k = 1 + (int)rng.below(4);
      for (int i = 0; i < k; i++) {
        std::vector<int> idl;
        for (int t = 0; t < nt; t++) if (idle(t) && seq[t].empty()) idl.push_back(t);
        if (idl.empty() || b_bulk) break;
        int t = idl[rng.below((uint32_t)idl.size())];
        if (gen_seq(t)) { issue(t); acted = true; }
      }
      if (acted) return true;
      return poke();
    }
    if (phase == 0) phase = 1;
    if (++guard > 400) fail("stuck", "the object could not be drained");
    bool waiting = false; int idle_t = -1;
    for (int t = 0; t < nt; t++) { if (!idle(t)) waiting = true; else if (seq[t].empty()) idle_t = t; }
    if (waiting && !inconclusive) {
      const SS& s = S.set[0].s;
      if (idle_t < 0) idle_t = nt;  // the helper worker
      Slot& h = hs();
      SOp o;
      if (sem()) { o.op = REL; }
      else if (I->caps.kind == K_LATCH) { o.op = CD; o.n = s.cnt; }
      else o.op = ARR;
      ev("drain: helper %s", sop_names[o.op]);
      h.n = 1; h.ops[0] = o;
      // executed by the helper, modelled as an atomic step
      helper_op = o; helper_do = true;
      for (auto& e : S.set) { SS& x = e.s; if (sem()) x.cnt++; else if (I->caps.kind == K_LATCH) x.cnt = 0; else M.arrive(x, 1); }
      if (sem()) released++;
      for (int t = 0; t < nt; t++) started[t] = false;
      vs::unpark(nt);
      return true;
    }
    phase = 2;
    int d = (int)rng.below((uint32_t)nt);
    for (int t = 0; t < nt; t++) { slot[t].exit = true; slot[t].destroy = t == d; vs::unpark(t); }
    if (inconclusive && waiting) vs::violation("inconclusive", "internal: cannot drain");
    return true;
  }
  Slot hslot; Slot& hs() { return hslot; }
  SOp helper_op; bool helper_do = false; Tok htok;
  void body(int t) {
    if (t == nt) {
      while (!fin) {
        vs::park();
        if (helper_do) { helper_do = false; vs::progress(); I->exec(mem, helper_op.op, helper_op.n, TimeArg(), &htok); vs::progress(); }
      }
      return;
    }
    Slot& s = slot[t];
    for (;;) {
      vs::park();
      if (s.exit) break;
      int last = RES_TRUE;
      for (int i = 0; i < s.n; i++) {
        const SOp& o = s.ops[i];
        int r;
        if (o.ifok && last != RES_TRUE) r = RES_SKIP;
        else {
          vs::progress();
          s.sm[i] = vs::mono_now(); s.sr[i] = vs::real_now();
          if (o.op == SADV) { vs::advance_to(vs::mono_now() + o.ta.ns); r = RES_TRUE; }
          else { vs::fail_clock_in = o.fail & ~FAIL_CLOCK; r = I->exec(mem, o.op, o.n, o.ta, &tok[t]); vs::fail_clock_in = 0; }
          if ((o.op == BWAIT || o.op == BAAW) && r == RES_TRUE && I->caps.kind == K_BARRIER) r = SModel::rphase(!strcmp(I->caps.name, "barrier<F>") ? comps : 0);
          last = r;
        }
        s.res[i] = r; s.done = i + 1;
      }
      vs::progress();
      s.busy = false;
    }
    if (s.destroy) { vs::join_all(); I->destroy(mem); fin = true; vs::unpark(nt); }
  }
};
void on_complete(void* c) { ((Run*)c)->comps++; ev("  completion function runs (#%ld)", (long)((Run*)c)->comps); }
}  // namespace

int main(int argc, char** argv) {
  Args a(argc, argv);
  units::merge<units::Sync>(sync_registry());
  Shard sh;
  shard_begin(a, sh);
  std::vector<ISync*> types;
  for (auto& n : split(a.s("types"))) for (auto* i : sync_registry()) if (n == i->caps.name || n == i->caps.family || n == "all") types.push_back(i);
  if (types.empty()) { fprintf(stderr, "no types\n"); return 3; }
  void* mem = vs::obj_alloc(1024);
  for (long e = sh.start; e < sh.execs; e++) {
    if (!exec_begin(sh, e)) break;
    vs::Rng r = exec_rng(sh, e);
    Run R(r);
    R.I = types[(size_t)e % types.size()];
    // without a completion function the phase seen by a returning waiter is not observable
    R.pclk = a.has("clk"); R.ptimed = R.pclk || a.has("timed");
    R.nt = 2 + (int)r.below(5);
    R.mem = mem; R.M.caps = R.I->caps;
    R.maxsteps = 5 + (int)r.below(22);
    vs::Opts o = vs::random_opts(r);
    static const int ei[] = {0, 0, 300, 900};
    o.peintr = a.has("noeintr") ? 0 : ei[r.below(4)];
    o.autotime = false; o.ptimer = 0;
    R.maxv = R.I->caps.maxv;
    if (R.maxv < R.I->caps.atleast || (R.I->caps.exact && R.maxv != R.I->caps.atleast)) vs::violation("sem-max", strf("%s::max() is %ld where %s%ld is promised", R.I->caps.name, (long)R.maxv, R.I->caps.exact ? "" : "at least ", (long)R.I->caps.atleast));
    SS s0;
    switch (R.I->caps.kind) {
      case K_SEM: {
        static const int64_t iv[] = {0, 0, 0, 1, 1, 2, 3};
        R.init = iv[r.below(7)];
        if (r.chance(40)) R.init = R.maxv - (int64_t)r.below(2);
        if (R.init > R.maxv) R.init = R.maxv;
        if (R.init < 0) R.init = 0;
        break;
      }
      case K_LATCH: R.init = r.chance(60) ? 0 : r.chance(60) ? (1ll << 32) + (int64_t)r.below(5) : 1 + (int64_t)r.below(7); break;
      default: R.init = 1 + (int64_t)r.below(6); s0.exp = R.init;
    }
    s0.cnt = R.init;
    if (!strcmp(R.I->caps.name, "barrier<>")) R.M.caps.maxv = -1;
    memset(mem, 0xA5, 1024);
    vs::obj_unpoison(mem, R.I->size);
    R.I->construct(mem, R.init, on_complete, &R);
    R.S.reset(s0);
    uint64_t h = vs::run(R.nt + 1, o, [&](int t) { R.body(t); }, [&] { return R.quiescent(); });
    cov.scheds.insert(h);
    if (cov.samples.size() < 2 && evlog.size() > 8 && evlog.size() < 40) { std::string s = std::string(R.I->caps.name) + strf("(%ld): ", (long)R.init); for (auto& x : evlog) s += x + " / "; cov.samples.push_back(s); }
    cov.add(std::string("execs.") + R.I->caps.name);
    if (R.inconclusive) cov.add("inconclusive_execs");
  }
  shard_end(a);
}

// Executable specification of every lock type: who may hold what, who must be granted.
#pragma once
#include "engine.h"
#include "times.h"
#include <algorithm>

struct LOp { Op op; uint8_t obj = 0; bool ifok = false; uint8_t fail = 0; TimeArg ta; };   // fail: that allocation made by the call fails
struct LW { int8_t th; uint8_t sh, timed, isreal, cv, fail; int64_t dl, unc; };   // unc: the deadline may be that much earlier (time passed between the call and the wait)
struct LO {
  int8_t owner = -1; int32_t cnt = 0; uint16_t sh = 0, cf = 0; uint8_t nq = 0;   // cf: granted while waiting, the clock may still fail
  LW q[MAXT];
  bool excl_waiting() const { for (int i = 0; i < nq; i++) if (!q[i].sh) return true; return false; }
  void erase(int i) { for (; i + 1 < nq; i++) q[i] = q[i + 1]; nq--; }
};
constexpr int MAXOBJ = 4;
struct LS { LO o[MAXOBJ]; int64_t adv = 0; };   // adv: time let pass by workers since the last quiescent point

struct LockModel {
  bool commuting() const { return false; }
  using State = LS; using OpT = LOp;
  int nobj = 1;
  Caps caps[MAXOBJ];
  int64_t mono = 0, real = 0;
  bool spurious_try = false;
  int64_t late = 20 * 1000000ll, slop = 0;
  // relaxations used only to classify a mismatch
  bool rx_policy = false, rx_grant = false, rx_false = false, rx_late = false, rx_dead = false, rx_dead_any = false;

  Policy pol(int ob) const { return rx_policy ? ANY : caps[ob].pol; }
  bool eager(int ob) const { Policy p = pol(ob); return p == FIFO || p == TASK || p == PHASE; }
  int64_t now(const LS& s, const LW& w) const { return (w.isreal ? real : mono) + s.adv; }   // mono/real: at the start of the burst

  bool compat(const LO& o, bool sh) const { return sh ? o.owner < 0 : (o.owner < 0 && o.sh == 0); }
  // may a waiter / newcomer be admitted right now (lazy policies)
  bool admissible(int ob, const LO& o, bool sh) const {
    if (!compat(o, sh)) return false;
    if (sh && pol(ob) == WRITER && o.excl_waiting()) return false;
    return true;
  }
  static void take(LO& o, int t, bool sh) { if (sh) o.sh |= (uint16_t)(1u << t); else { o.owner = (int8_t)t; o.cnt = 1; } }
  static void granted(Outc<LS>& x, LO& o, const LW& w) {
    take(o, w.th, w.sh);
    if (w.fail & FAIL_CLOCK) o.cf |= (uint16_t)(1u << w.th); else x.done(w.th, RES_TRUE);
  }
  // eager policies: hand the lock to everybody entitled
  void grant(int ob, Outc<LS>& x, bool excl_release) const {
    LO& o = x.s.o[ob];
    if (!eager(ob)) return;
    if (excl_release && pol(ob) == PHASE && o.nq && o.q[0].sh) {
      int w = 0;
      for (int i = 0; i < o.nq; i++) {
        if (o.q[i].sh) granted(x, o, o.q[i]);
        else o.q[w++] = o.q[i];
      }
      o.nq = (uint8_t)w;
      return;
    }
    while (o.nq && compat(o, o.q[0].sh)) { LW w = o.q[0]; o.erase(0); granted(x, o, w); if (!w.sh) break; }
  }
  bool waits_path(const LS& s, int from, int target, unsigned& seen) const {  // from waits-> ... -> target ?
    for (int b = 0; b < nobj; b++) {
      if (!caps[b].detect) continue;
      const LO& o = s.o[b];
      for (int i = 0; i < o.nq; i++) {
        if (o.q[i].th != from || o.q[i].timed || (!eager(b) && admissible_waiter(b, o, i))) continue;  // not waiting: it may go on at once
        for (int t = 0; t < MAXT; t++) {
          bool owns = o.owner == t || (o.sh >> t & 1);
          if (!owns) continue;
          if (t == target) return true;
          if (!(seen >> t & 1)) { seen |= 1u << t; if (waits_path(s, t, target, seen)) return true; }
        }
      }
    }
    return false;
  }
  bool in_cycle(const LS& s, int t) const { unsigned seen = 0; return waits_path(s, t, t, seen); }

  void attempt(const LS& s, int t, const LOp& op, std::vector<Outc<LS>>& out) const {
    const int b = op.obj;
    const Caps& c = caps[b];
    Outc<LS> x; x.s = s;
    if (op.op == ADV) { x.s.adv += op.ta.ns; x.done(t, RES_TRUE); out.push_back(x); return; }
    LO& o = x.s.o[b];
    bool sh = op.op >= SLOCK && op.op <= STRYUNTIL;
    if (op.op == UNLOCK) {
      if (o.owner != t) { x.done(t, RES_EXC + EPERM); out.push_back(x); return; }
      x.done(t, RES_TRUE);
      if (--o.cnt == 0) { o.owner = -1; grant(b, x, true); }
      out.push_back(x); return;
    }
    if (op.op == SUNLOCK) {
      if (!(o.sh >> t & 1)) { x.done(t, RES_EXC + EPERM); out.push_back(x); return; }
      x.done(t, RES_TRUE);
      o.sh &= (uint16_t)~(1u << t);
      if (!o.sh) grant(b, x, false);
      out.push_back(x); return;
    }
    if (!sh && o.owner == t && c.recursive) {
      if (op.fail) { Outc<LS> y = x; y.done(t, fail_res(op.fail)); out.push_back(y); }
      o.cnt++; x.done(t, RES_TRUE); out.push_back(x); return; }
    if (o.owner == t || (o.sh >> t & 1)) { x.done(t, RES_EXC + EDEADLK); out.push_back(x); return; }
    if (op.fail) { Outc<LS> y = x; y.done(t, fail_res(op.fail)); out.push_back(y); }   // without effect
    bool is_try = op.op == TRY || op.op == STRY;
    bool ok;
    if (eager(b)) ok = (sh ? (o.owner < 0 && o.nq == 0) : (o.owner < 0 && !o.sh && o.nq == 0));
    else ok = admissible(b, o, sh);
    if (is_try) {
      if (ok) {
        Outc<LS> y = x;
        take(y.s.o[b], t, sh); y.done(t, RES_TRUE); out.push_back(y);
      }
      if (!ok || spurious_try || rx_false) { Outc<LS> y = x; y.done(t, RES_FALSE); out.push_back(y); }
      return;
    }
    if (ok) { Outc<LS> y = x; take(y.s.o[b], t, sh); y.done(t, RES_TRUE); out.push_back(y); if (!rx_false && !rx_grant) return; }
    LW w; w.th = (int8_t)t; w.sh = sh; w.timed = 0; w.isreal = 0; w.cv = 0; w.fail = op.fail & FAIL_CLOCK ? FAIL_CLOCK : op.fail != 0; w.dl = 0; w.unc = 0;
    if (op.op == TRYFOR || op.op == STRYFOR) {
      w.timed = 1; w.isreal = c.for_system;
      w.dl = satadd(now(s, w), op.ta.ns); w.unc = s.adv;
    } else if (op.op == TRYUNTIL || op.op == STRYUNTIL) {
      w.timed = 1;
      bool ir; w.dl = until_dl(c.conv, op.ta, mono + s.adv, real + s.adv, ir); w.isreal = ir;
      if (conv_at_call(c.conv, op.ta.clk)) { w.cv = 1; w.unc = s.adv; }   // translated: time may pass between the translation and the wait
    }
    o.q[o.nq++] = w;
    out.push_back(x);
  }
  void internal(const LS& s, std::vector<Outc<LS>>& out) const {
    for (int b = 0; b < nobj; b++) {
      const LO& o = s.o[b];
      for (int t = 0; o.cf >> t; t++) if (o.cf >> t & 1) {
        Outc<LS> x; x.s = s; LO& y = x.s.o[b]; y.cf &= (uint16_t)~(1u << t);
        { Outc<LS> z = x; z.done(t, RES_TRUE); out.push_back(z); }
        x.done(t, RES_EXC_CLOCK);                                  // the grant is given up again
        if (y.owner == t) { y.owner = -1; y.cnt = 0; grant(b, x, true); }
        else { y.sh &= (uint16_t)~(1u << t); if (!y.sh) grant(b, x, false); }
        out.push_back(x);
      }
      for (int i = 0; i < o.nq; i++) {
        const LW& w = o.q[i];
        bool adm = eager(b) ? false : admissible_waiter(b, o, i);
        if (adm) {
          Outc<LS> x; x.s = s; x.s.o[b].erase(i); take(x.s.o[b], w.th, w.sh); x.done(w.th, RES_TRUE); out.push_back(x);
        }
        if (w.timed && satadd(w.dl, -w.unc) <= now(s, w) + slop && (!adm || rx_false)) {
          Outc<LS> x; x.s = s; x.s.o[b].erase(i); x.done(w.th, RES_FALSE); grant(b, x, false); out.push_back(x);
        }
        if (w.fail) { Outc<LS> x; x.s = s; x.s.o[b].erase(i); x.done(w.th, fail_res(w.fail)); grant(b, x, false); out.push_back(x); }
        if (!w.timed && caps[b].detect && (rx_dead_any || in_cycle(s, w.th))) {
          Outc<LS> x; x.s = s; x.s.o[b].erase(i); x.done(w.th, RES_EXC + EDEADLK); out.push_back(x);
        }
      }
    }
  }
  bool admissible_waiter(int b, const LO& o, int i) const {
    if (!o.q[i].sh) return compat(o, false);
    return admissible(b, o, true);
  }
  bool settled(const LS& s) const {
    for (int b = 0; b < nobj; b++) {
      const LO& o = s.o[b];
      if (o.cf) return false;
      for (int i = 0; i < o.nq; i++) {
        const LW& w = o.q[i];
        if (w.timed && !rx_late && w.dl <= now(s, w) - late - (w.cv ? w.unc : 0)) return false;
        if (!rx_grant && !eager(b)) {
          if (caps[b].pol == ANY || rx_policy) {
            // weakest obligation: a free lock leaves nobody waiting; readers do not wait behind readers only
            if (o.owner < 0 && o.sh == 0) return false;
            if (o.owner < 0 && w.sh && !o.excl_waiting()) return false;
          } else if (admissible_waiter(b, o, i)) return false;
        }
        if (!w.timed && caps[b].detect && !rx_dead && in_cycle(s, w.th)) return false;
      }
    }
    return true;
  }
  void key(const LS& s, std::string& k) const {
    if (s.adv) k.append((const char*)&s.adv, 8);
    for (int b = 0; b < nobj; b++) {
      const LO& o = s.o[b];
      k.push_back(o.owner); k.append((const char*)&o.cnt, 4); k.append((const char*)&o.sh, 2); k.append((const char*)&o.cf, 2); k.push_back((char)o.nq);
      LW q[MAXT];
      for (int i = 0; i < o.nq; i++) q[i] = o.q[i];
      if (!eager(b)) std::sort(q, q + o.nq, [](const LW& a, const LW& c) { return a.th < c.th; });
      for (int i = 0; i < o.nq; i++) { k.push_back(q[i].th); k.push_back((char)(q[i].sh | q[i].timed << 1 | q[i].isreal << 2 | q[i].cv << 3 | (q[i].fail != 0) << 4)); k.append((const char*)&q[i].dl, 16); }
    }
  }
};

// Windows/macOS wrappers: failing native calls, resource accounting, and waits that end early on a coarse tick.
#include "common.h"
#include "../shim/platform.h"
#include "sync.h"
#include "times.h"
#include <algorithm>
#include <system_error>
std::vector<ISync*>& sync_registry() { static std::vector<ISync*> v; return v; }
#ifndef WIN_EARLY
#define WIN_EARLY 0   // ticks a timed call may end early
#endif
namespace {
[[noreturn]] void fail(const char* kind, const std::string& what, const char* who) { vs::violation(kind, what + "\nobject: " + who + "\n"); }
bool native_error(int r) { return r == RES_EXC + EINVAL || r == RES_EXC + EAGAIN; }   // what the wrappers report
TimeArg when(vs::Rng& r, bool until) { TimeGen g; g.past = 0; g.lng = 0; g.preepoch = 0; g.never = 0; return gen_time(r, g, until, false); }
const char* inj_name(int k) { return k == PF_CREATE ? "creation" : k == PF_WAIT ? "wait" : "release"; }

// one thread; some native calls are made to fail
template <class EXEC> int with_failure(int kind, bool& happened, EXEC f) {
  plat_fail = kind; int r = f(); happened = kind != PF_NONE && plat_fail == PF_NONE; plat_fail = PF_NONE;
  if (happened) cov.add(strf("native_%s_failures", inj_name(kind)));
  return r;
}
void err_lock(vs::Rng& r, ILock* L, void* p) {
  const Caps& c = L->caps; PlatStats s0 = plat_stats; bool handle = c.timed;   // the others cannot fail
  ev("%s", c.name);
  if (handle && r.chance(150)) {
    plat_fail = PF_CREATE; bool threw = false;
    try { L->construct(p); } catch (const std::system_error&) { threw = true; }
    bool consumed = plat_fail == PF_NONE; plat_fail = PF_NONE;
    if (consumed) { cov.add("native_creation_failures"); if (!threw) fail("platform-error", "the native mutex could not be created but the constructor reported nothing", c.name); if (plat_stats.created - s0.created != plat_stats.destroyed - s0.destroyed) fail("platform-leak", "a failed construction closed or leaked a native object", c.name); return; }
  } else L->construct(p);
  int depth = 0, sh = 0;
  for (int i = 0, n = 1 + (int)r.below(12); i < n; i++) {
    bool rel = (depth || sh) && r.chance(400); Op o; TimeArg a;
    if (rel) o = sh ? SUNLOCK : UNLOCK;
    else {
      if (sh || (depth && !c.recursive)) continue;
      bool s = c.shared && !depth && r.chance(512);
      o = s ? (r.chance(512) ? SLOCK : STRY) : c.timed && r.chance(500) ? (r.chance(512) ? TRYFOR : TRYUNTIL) : r.chance(512) ? LOCK : TRY;
      if (o == TRYFOR || o == TRYUNTIL) a = when(r, o == TRYUNTIL);
    }
    a.via = 0; bool happened = false;
    int k = handle && !rel && r.chance(300) ? PF_WAIT : PF_NONE;
    int res = with_failure(k, happened, [&] { return L->exec(p, o, a, nullptr); });
    ev("  %s%s -> %s", op_names[o], happened ? " (native wait fails)" : "", res_str(res).c_str());
    cov.add(strf("%s.%s", op_names[o], happened ? "native_failure" : "ok"));
    if (happened) {
      bool ok = o == TRY ? res == RES_FALSE || native_error(res) : native_error(res);
      if (!ok) fail("platform-error", strf("%s: the native wait failed but the call ended with: ", op_names[o]) + res_str(res), c.name);
    } else {
      if (res != RES_TRUE) fail("platform-error", strf("%s must succeed here but ended with: ", op_names[o]) + res_str(res), c.name);
      if (o == UNLOCK) depth--; else if (o == SUNLOCK) sh--; else if (o >= SLOCK) sh++; else depth++;
    }
  }
  TimeArg a;
  while (depth--) if (L->exec(p, UNLOCK, a, nullptr) != RES_TRUE) fail("platform-error", "unlock() by the owner failed", c.name);
  if (sh) L->exec(p, SUNLOCK, a, nullptr);
  L->destroy(p);
  if (plat_stats.created - s0.created != plat_stats.destroyed - s0.destroyed) fail("platform-leak", strf("%ld native objects were created and %ld destroyed", plat_stats.created - s0.created, plat_stats.destroyed - s0.destroyed), c.name);
  cov.add("error_histories"); vs::stats.execs++;
}
void err_sem(vs::Rng& r, ISync* I, void* p) {
  const SCaps& c = I->caps; PlatStats s0 = plat_stats;
  int64_t cnt = r.below(3); bool many = r.chance(60); if (r.chance(60)) cnt = c.maxv - r.below(2); else if (many) cnt = 200 + r.below(600); if (cnt > c.maxv) cnt = c.maxv;
  bool dead = false;
  ev("%s(%ld)", c.name, (long)cnt);
  if (r.chance(150)) { plat_fail = PF_CREATE; I->construct(p, cnt, nullptr, nullptr); dead = plat_fail == PF_NONE; plat_fail = PF_NONE; if (dead) cov.add("native_creation_failures"); }
  else I->construct(p, cnt, nullptr, nullptr);
  for (int i = 0, n = 1 + (int)r.below(14); i < n; i++) {
    SOpK o; TimeArg a; int64_t m = 1;
    if (r.chance(400)) { o = REL; int64_t room = c.maxv - cnt; m = room < 1 ? 0 : r.chance(600) ? 1 : (int64_t)r.below((uint32_t)std::min<int64_t>(room, 5) + 1); if (m == 0 && r.chance(700)) continue; }
    else { o = r.chance(300) ? TRYA : cnt > 0 && r.chance(400) ? ACQ : r.chance(512) ? TRYAFOR : TRYAUNTIL; if (o > TRYA) { a = when(r, o == TRYAUNTIL); if (cnt == 0) { a.ns = 0; a.rep = R_NS; if (o == TRYAUNTIL) a.clk = C_STEADY; } } }
    bool happened = false; int k = !dead && r.chance(250) ? (o == REL ? PF_RELEASE : PF_WAIT) : PF_NONE;
    if (k == PF_RELEASE && (c.loop_release || m == 0)) k = PF_NONE;
    int res = with_failure(k, happened, [&] { return I->exec(p, o, m, a, nullptr); });
    ev("  %s(%ld)%s -> %s", sop_names[o], (long)m, happened ? " (native call fails)" : "", res_str(res).c_str());
    cov.add(strf("%s.%s", sop_names[o], dead ? "not_created" : happened ? "native_failure" : "ok"));
    if (dead || happened) {
      bool ok = o == TRYA ? res == RES_FALSE || native_error(res) : native_error(res) || (dead && o == REL && m == 0);
      if (!ok) fail("platform-error", strf("%s: %s but the call ended with: ", sop_names[o], dead ? "the native semaphore could not be created" : "the native call failed") + res_str(res), c.name);
      continue;
    }
    if (o == REL) { if (res != RES_TRUE) fail("platform-error", strf("release(%ld) is legal but ended with: ", (long)m) + res_str(res), c.name); cnt += m; continue; }
    int want = cnt > 0 ? RES_TRUE : RES_FALSE;
    if (res != want) fail("platform-error", strf("%s with %ld permits ended with: ", sop_names[o], (long)cnt) + res_str(res), c.name);
    if (want == RES_TRUE) cnt--;
  }
  if (!dead) {   // every permit is there, and no other
    TimeArg a; int64_t lim = std::min<int64_t>(cnt, 1000), got = 0;
    while (got < lim && I->exec(p, TRYA, 1, a, nullptr) == RES_TRUE) got++;
    if (got != lim) fail("platform-error", strf("%ld permits were left but only %ld could be taken", (long)cnt, (long)got), c.name);
    if (lim == cnt && I->exec(p, TRYA, 1, a, nullptr) != RES_FALSE) fail("platform-error", strf("more than the %ld permits left could be taken", (long)cnt), c.name);
    cov.add("drained", (uint64_t)got);
  }
  I->destroy(p);
  if (plat_stats.created - s0.created != plat_stats.destroyed - s0.destroyed) fail("platform-leak", strf("%ld native objects were created and %ld destroyed", plat_stats.created - s0.created, plat_stats.destroyed - s0.destroyed), c.name);
  cov.add("error_histories"); vs::stats.execs++;
}
}  // namespace

int main(int argc, char** argv) {
  Args a(argc, argv); Shard sh; shard_begin(a, sh);
  std::vector<ILock*> locks, timed; std::vector<ISync*> sems, wsems;
  for (auto* l : lock_registry()) if (!strcmp(l->caps.family, "plat")) { locks.push_back(l); if (l->caps.timed) timed.push_back(l); }
  for (auto* s : sync_registry()) { sems.push_back(s); if (!strcmp(s->caps.family, "wsem")) wsems.push_back(s); }
  void* mem = vs::obj_alloc(256); vs::obj_unpoison(mem, 256);
  for (long e = sh.start; e < sh.execs; e++) {
    if (!exec_begin(sh, e)) break;
    vs::Rng r = exec_rng(sh, e);
    memset(mem, 0xA5, 256);
    plat_tick = 0;
    uint64_t mode = r.below(3), h = 0;
    if (mode == 0) err_lock(r, locks[r.below((uint32_t)locks.size())], mem);
    else if (mode == 1) err_sem(r, sems[r.below((uint32_t)sems.size())], mem);
    else {
      static const int64_t ticks[] = {15625000, 15625000, 1000000, 10000000};
      int64_t tick = ticks[r.below(4)]; plat_tick = tick;
      bool lk = r.chance(512); ILock* L = timed[r.below((uint32_t)timed.size())]; ISync* I = wsems[r.below((uint32_t)wsems.size())];
      const char* who = lk ? L->caps.name : I->caps.name; Conv cv = lk ? L->caps.conv : I->caps.conv;
      vs::Opts o = vs::random_opts(r); o.autotime = true; o.race = false;
      bool held = false, done = false; int idle = 0;
      ev("%s, tick %ld ns", who, (long)tick);
      vs::Rng r2(r.next());
      TimeArg none;
      h = vs::run(2, o, [&](int t) {
        if (t == 0) {
          if (lk) { L->construct(mem); L->exec(mem, LOCK, none, nullptr); } else I->construct(mem, 0, nullptr, nullptr);
          held = true;
          while (!done) vs::park();
          if (lk) { L->exec(mem, UNLOCK, none, nullptr); vs::join_all(); L->destroy(mem); } else { vs::join_all(); I->destroy(mem); }
          return;
        }
        while (!held) vs::park();
        for (int k = 1 + (int)r2.below(4); k > 0; k--) {
          vs::advance_to(vs::mono_now() + (int64_t)r2.below((uint32_t)tick));
          bool until = r2.chance(512); TimeArg w = when(r2, until);
          int64_t m0 = vs::mono_now(), q0 = vs::real_now(); bool isreal = false;
          int64_t dl = until ? until_dl(cv, w, m0, q0, isreal) : satadd(m0, w.ns);
          int res = lk ? L->exec(mem, until ? TRYUNTIL : TRYFOR, w, nullptr) : I->exec(mem, until ? TRYAUNTIL : TRYAFOR, 1, w, nullptr);
          int64_t m1 = vs::mono_now();
          vs::Quiet z;
          ev("  %s(%s%ldns) at %ld -> %s at %ld", until ? "try_*_until" : "try_*_for", until ? clk_name(w.clk) : "", (long)w.ns, (long)m0, res_str(res).c_str(), (long)m1);
          if (res != RES_FALSE) fail(res == RES_TRUE ? "exclusion" : "unexpected-throw", "an unavailable object: the call ended with: " + res_str(res), who);
          if (m1 + 2 + rep_slop(w) + WIN_EARLY * tick < dl) fail("timeout-early", strf("gave up %ld ns before its deadline (native waits end up to a tick early)", (long)(dl - m1)), who);
          if (m1 > dl + 3 * tick + 25000000) fail("timeout-late", strf("gave up %ld ns after its deadline", (long)(m1 - dl)), who);
          cov.add("timeouts_with_ticks");
        }
        done = true;
      }, [&] {
        for (int t = 0; t < 2; t++) if (vs::is_parked(t)) vs::unpark(t);
        if (++idle > 200) fail("timeout-late", "a timed call does not end", who);
        return true;
      });
    }
    std::string k; for (auto& x : evlog) k += x;
    cov.scheds.insert(fnv(k.data(), k.size()) ^ h);
    cov.states.insert(fnv(k.data(), k.size()));
    if (cov.samples.size() < 3 && evlog.size() > 4) { std::string s; for (auto& x : evlog) s += x + " / "; cov.samples.push_back(s); }
  }
  shard_end(a);
}

// How contended spin mutexes wait. A holder keeps the lock while contenders spin; the runtime reports every
// fruitless access and every yield of each contender to the monitor below, which judges the yield pattern of
// each acquisition against the policy in the type's name.
#include "common.h"
#include "ops.h"
#include <algorithm>
struct Seg { std::vector<uint32_t> gaps; uint32_t loads = 0, rmws = 0; uint64_t attempts = 0, events = 0, need = 0; uint32_t maxy = 0, races = 0; bool done = false, active = false; uint64_t at() const { return attempts + std::max(loads, rmws); } };
static const ILock* L;
static Seg seg[8];
static int nc;
static bool judging;
static int remaining;
// the token is held between the test and park(), so no wakeup is lost
static void wake(int t) { if (vs::is_parked(t)) vs::unpark(t); }
template <class F> static void await(F f) { while (!f()) vs::park(); }
static void observe(int w, vs::SpinEv e) {
  if (!judging || w < 1 || w > nc) return;
  Seg& s = seg[w];
  if (!s.active) return;
  s.events++;
  if (e == vs::EV_YIELD) { uint32_t g = std::max(s.loads, s.rmws); s.gaps.push_back(g); s.attempts += g; s.loads = s.rmws = 0; }
  else if (e == vs::EV_LOAD) s.loads++; else s.rmws++;
  if (!s.done && (s.at() >= s.need || s.gaps.size() > s.maxy)) { s.done = true; if (--remaining == 0) wake(0); }
}
[[noreturn]] static void bad(const Seg& s, const std::string& why) {
  std::string d = std::string(L->caps.name) + ": " + why + "\nfailed attempts before each yield:";
  for (size_t i = 0; i < s.gaps.size() && i < 60; i++) d += " " + std::to_string(s.gaps[i]);
  d += strf(" ...; %zu yields, then %u attempts without one\n", s.gaps.size(), std::max(s.loads, s.rmws));
  vs::violation("backoff", d);
}
// s.races: how often the lock was free for a moment, so that an attempt may have ended in a lost race instead of waiting
static void judge(const Seg& s, const std::string& pol) {
  uint32_t tail = std::max(s.loads, s.rmws);
  if (pol == "busy") { if (!s.gaps.empty()) bad(s, "the busy policy yielded"); return; }
  if (pol == "yield") {
    for (uint32_t g : s.gaps) if (g > 1 + s.races) bad(s, "the yield policy made several attempts without yielding");
    if (tail > 2 + s.races) bad(s, "the yield policy made several attempts without yielding");
    return;
  }
  long N = atol(pol.c_str() + 4);
  if (s.gaps.empty()) bad(s, strf("no yield although the initial interval is %ld", N));
  long g0 = s.gaps[0];
  if (g0 < N - 2 || g0 > N + 3) bad(s, strf("the first yield came after %ld failed attempts, the initial interval is %ld", g0, N));
  for (size_t i = 1; i < s.gaps.size(); i++) {
    long p = s.gaps[i - 1], g = (long)s.gaps[i] - (long)s.races;
    if (p <= 3 ? g > p + 1 || g > 3 : g >= p) bad(s, strf("interval #%zu (%ld attempts) does not shrink from %ld", i, g, p));
    if (p > 16 && g > p * 3 / 4) bad(s, strf("interval #%zu (%ld attempts) is not an exponential decrease from %ld", i, g, p));
    if (p > 16 && g < p / 16) bad(s, strf("interval #%zu (%ld attempts) collapsed from %ld", i, g, p));
  }
  long lim = (s.gaps.back() <= 3 ? 4 : s.gaps.back() + 4) + s.races;
  if (tail > lim) bad(s, strf("stopped yielding: %u attempts since the last yield, the interval before was %u", tail, s.gaps.back()));
}
int main(int argc, char** argv) {
  Args a(argc, argv);
  Shard sh; shard_begin(a, sh);
  vs::spin_observer = observe;
  std::vector<ILock*> types;
  for (auto* l : lock_registry()) { bool k = !a.has("only"); for (auto& o : split(a.s("only"))) k |= std::string(l->caps.name).find(o) != std::string::npos; if (k) types.push_back(l); }
  static void* mem[2] = {vs::obj_alloc(256), vs::obj_alloc(256)};
  for (long e = sh.start; e < sh.execs; e++) {
    if (!exec_begin(sh, e)) break;
    vs::Rng r = exec_rng(sh, e);
    L = types[(size_t)(e + sh.shard) % types.size()];
    std::string pol = L->caps.name; pol = pol.substr(pol.rfind('/') + 1);
    long N = pol.compare(0, 4, "exp:") ? 0 : atol(pol.c_str() + 4);
    if (N > 5000 && e >= (long)types.size() * 2 && r.below(8)) { N = -1; }
    if (N < 0) { cov.add("skipped_long"); continue; }
    nc = 1 + (int)r.below(3);
    int rounds = N > 5000 ? 1 : 1 + (int)r.below(3);
    vs::Opts o = vs::random_opts(r);
    o.pcasfail = 0; o.pplain = 0; o.maxsteps = 1ull << 40;
    void* p = mem[0]; void* q = mem[1];
    vs::obj_unpoison(p, 256); vs::obj_unpoison(q, 256);
    memset(p, 0xA5, 256); memset(q, 0xA5, 256);
    { vs::Quiet z; L->construct(p); L->construct(q); }
    bool swaps = r.chance(300);   // the contenders also meet another lock of the same type in between
    int out = 0, round = 0;
    ev("%s contenders=%d rounds=%d", L->caps.name, nc, rounds);
    TimeArg ta;
    uint64_t h = vs::run(nc + 1, o, [&](int t) {
      if (t == 0) {
        for (int k = 0; k < rounds; k++) {
          uint64_t y0 = vs::yields(0);
          L->exec(p, LOCK, ta, nullptr);
          if (vs::yields(0) != y0) { vs::violation("backoff", std::string(L->caps.name) + ": an uncontended lock() yielded\n"); }
          for (int i = 0; i < 8; i++) seg[i] = Seg();
          remaining = nc; out = nc;
          for (int i = 1; i <= nc; i++) {
            seg[i].active = true;
            seg[i].need = pol == "busy" ? 3000 + r.below(3000) : pol == "yield" ? 3000 : (uint64_t)N * 3 + 600;
            seg[i].maxy = pol == "yield" ? 20 + r.below(300) : pol == "busy" ? 1 : 40 + r.below(300);
          }
          judging = true; round = k + 1;
          for (int i = 1; i <= nc; i++) wake(i);
          await([&] { return remaining == 0; });
          // the lock is free for a moment: a contender either gets it or goes on waiting as before
          for (int c = N > 5000 ? 0 : (int)r.below(4); c > 0; c--) {
            { vs::Quiet z; for (int i = 1; i <= nc; i++) if (seg[i].active) { judge(seg[i], pol); seg[i].races++; seg[i].done = true; } }
            L->exec(p, UNLOCK, ta, nullptr);
            L->exec(p, LOCK, ta, nullptr);
            remaining = 0;
            for (int i = 1; i <= nc; i++) if (seg[i].active) { seg[i].need = seg[i].at() + (uint64_t)N + 40; seg[i].maxy = (uint32_t)(seg[i].gaps.size() + (size_t)N + 40); seg[i].done = false; remaining++; cov.add("passed_over"); }
            if (!remaining) break;
            await([&] { return remaining == 0; });
          }
          for (int i = 1; i <= nc; i++) { vs::Quiet z; judge(seg[i], pol); seg[i].active = false; cov.add("judged_acquisitions"); cov.add("judged_yields", seg[i].gaps.size()); cov.add("judged_attempts", seg[i].attempts); uint64_t sg[2] = {(uint64_t)(e % types.size()), seg[i].gaps.size()}; cov.states.insert(fnv(sg, sizeof sg)); }
          L->exec(p, UNLOCK, ta, nullptr);
          await([&] { return out == 0; });   // every contender had its turn
        }
      } else {
        for (int k = 0; k < rounds; k++) {
          await([&] { return round > k; });
          L->exec(p, LOCK, ta, nullptr);
          { Seg& s = seg[t]; if (s.active) { s.active = false; for (int i = 1; i <= nc; i++) if (seg[i].active) seg[i].races++; cov.add("overtaking_holder"); if (!s.done) { s.done = true; remaining--; } } }
          if (swaps && nc == 1) { uint64_t y0 = vs::yields(t); L->exec(q, LOCK, ta, nullptr); if (vs::yields(t) != y0) vs::violation("backoff", std::string(L->caps.name) + ": an uncontended lock() yielded (state of an earlier acquisition?)\n"); L->exec(q, UNLOCK, ta, nullptr); }
          L->exec(p, UNLOCK, ta, nullptr);
          if (--out == 0) wake(0);
        }
      }
    }, [&] { return false; });
    { vs::Quiet z; L->destroy(p); L->destroy(q); }
    cov.scheds.insert(h ^ fnv(L->caps.name, strlen(L->caps.name)));
    if (cov.samples.size() < 3) cov.samples.push_back(std::string(L->caps.name) + strf(": holder keeps the lock, %d contenders, %d rounds ", nc, rounds) + vs::opts_str(o));
  }
  shard_end(a);
}

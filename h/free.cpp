// Driver for the free-running programs: every thread runs ahead under the seeded scheduler,
// virtual time advances when nothing else can run (or at random), and the monitors below watch.
#include "common.h"
#include "free.h"
#include <stdarg.h>
std::vector<ProgDef>& prog_registry() { static std::vector<ProgDef> v; return v; }
std::vector<ISync*>& sync_registry() { static std::vector<ISync*> v; return v; }
static const int NMON = 512;
static int mw[NMON], mr[NMON], wdepth[NMON], nmon;
void mon_reset(int n) { nmon = n; for (int i = 0; i < n; i++) mw[i] = -1, mr[i] = 0, wdepth[i] = 0; }
void mon_acq(int o, bool sh) {
  int t = vs::self();
  if (sh) {
    if (mw[o] >= 0) prog_fail("rw-exclusion", "thread %d got a shared lock on object %d while thread %d holds it exclusively", t, o, mw[o]);
    mr[o]++;
    static uint64_t shared2; if (mr[o] > 1) shared2++;
    if (mr[o] > 1) prog_count("concurrent_readers");
  } else {
    if (mw[o] >= 0 && mw[o] != t) prog_fail("exclusion", "thread %d got object %d while thread %d holds it", t, o, mw[o]);
    if (mr[o]) prog_fail("rw-exclusion", "thread %d got object %d exclusively while %d readers hold it", t, o, mr[o]);
    mw[o] = t; wdepth[o]++;
  }
}
void mon_rel(int o, bool sh) { if (sh) mr[o]--; else if (--wdepth[o] == 0) mw[o] = -1; }
bool mon_held(int o) { return mw[o] == vs::self(); }
static std::string vfmt(const char* f, va_list ap) { char b[1024]; vsnprintf(b, sizeof b, f, ap); return b; }
static std::string curdesc;
void prog_fail(const char* kind, const char* f, ...) { vs::Quiet q; va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); vs::violation(kind, s + "\nprogram: " + curdesc + "\n"); }
void prog_count(const char* w, uint64_t n) { vs::Quiet q; cov.add(w, n); }
void prog_note(const char* f, ...) { vs::Quiet q; va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); ev("%s", s.c_str()); }
static std::vector<void*> mem;
void* prog_mem(int i) { while ((int)mem.size() <= i) mem.push_back(vs::obj_alloc(1024)); return mem[(size_t)i]; }
void prog_place(int i, size_t n) { vs::Quiet q; void* p = prog_mem(i); memset(p, 0xA5, 1024); vs::obj_unpoison(p, n); }
void prog_gone(int i, size_t n) { vs::Quiet q; vs::obj_poison(prog_mem(i), n); }

int main(int argc, char** argv) {
  Args a(argc, argv);
  Shard sh;
  shard_begin(a, sh);
  Sel sel;
  auto has = [&](const std::string& f, const char* x) { for (auto& k : split(f)) if (k == x) return true; return false; };
  std::string only = a.s("only");
  for (auto& n : split(a.s("types", "all"))) {
    for (auto* l : lock_registry()) if (n == l->caps.family || n == l->caps.name || n == "all") {
      if (has(only, "shared") && !l->caps.shared) continue;
      if (has(only, "excl") && l->caps.shared) continue;
      if (has(only, "timed") && !l->caps.timed) continue;
      if (has(only, "recursive") && !l->caps.recursive) continue;
      sel.locks.push_back(l);
    }
    for (auto* i : sync_registry()) if (n == i->caps.family || n == i->caps.name || n == "all") sel.syncs.push_back(i);
  }
  std::vector<ProgDef> progs;
  for (auto& n : split(a.s("progs", "all"))) for (auto& p : prog_registry()) if (n == p.name || n == p.group || n == "all") {
    if ((p.needs_lock && sel.locks.empty()) || (p.needs_sync && sel.syncs.empty())) continue;
    progs.push_back(p);
  }
  if (progs.empty()) { fprintf(stderr, "no programs\n"); return 3; }
  for (int i = 0; i < 8; i++) prog_mem(i);
  for (long e = sh.start; e < sh.execs; e++) {
    if (!exec_begin(sh, e)) break;
    vs::Rng r = exec_rng(sh, e);
    const ProgDef& d = progs[(size_t)e % progs.size()];
    vs::Opts o = vs::random_opts(r);
    static const int ei[] = {0, 0, 300, 900};
    o.peintr = ei[r.below(4)];
    o.autotime = true;
    curdesc = d.name; mon_reset(NMON);
    Prog* p = d.make(r, sel, e / (long)progs.size());
    curdesc = std::string(d.name) + ": " + p->desc;
    ev("%s", curdesc.c_str());
    if (p->slow_timers) o.ptimer = 0;
    o.autotime = p->autotime;
    if (p->maxsteps) o.maxsteps = p->maxsteps;
    uint64_t h = vs::run(p->nt, o, [&](int t) { p->body(t); }, [&] { return p->quiescent(); });
    p->final();
    cov.scheds.insert(h);
    { std::string k = curdesc; cov.states.insert(fnv(k.data(), k.size())); }
    cov.add(std::string("prog.") + d.name);
    if (cov.samples.size() < 3) cov.samples.push_back(curdesc + vs::opts_str(o));
    delete p;
  }
  shard_end(a);
}

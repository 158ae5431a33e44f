// Runs the programs of h/pr_free.cpp on real threads (TSan or ASan+UBSan builds).
#include "../h/common.h"
#include "../h/free.h"
#include "rstub.h"
#include <atomic>
#include <stdarg.h>
#include <thread>
#include <unistd.h>
std::vector<ProgDef>& prog_registry() { static std::vector<ProgDef> v; return v; }
std::vector<ISync*>& sync_registry() { static std::vector<ISync*> v; return v; }
static const int NMON = 512;
static std::atomic<int> mw[NMON], mr[NMON], wdepth[NMON];
static const auto R = std::memory_order_relaxed;
void mon_reset(int n) { for (int i = 0; i < n; i++) mw[i].store(-1, R), mr[i].store(0, R), wdepth[i].store(0, R); }
static std::atomic<uint64_t> ncount;
void mon_acq(int o, bool sh) {
  int t = vs::self();
  if (sh) {
    if (mw[o].load(R) >= 0) prog_fail("rw-exclusion", "thread %d got a shared lock on object %d while thread %d holds it exclusively", t, o, mw[o].load(R));
    mr[o].fetch_add(1, R);
  } else {
    int w = mw[o].load(R);
    if (w >= 0 && w != t) prog_fail("exclusion", "thread %d got object %d while thread %d holds it", t, o, w);
    if (mr[o].load(R)) prog_fail("rw-exclusion", "thread %d got object %d exclusively while %d readers hold it", t, o, mr[o].load(R));
    mw[o].store(t, R); wdepth[o].fetch_add(1, R);
  }
}
void mon_rel(int o, bool sh) { if (sh) mr[o].fetch_sub(1, R); else if (wdepth[o].fetch_sub(1, R) == 1) mw[o].store(-1, R); }
bool mon_held(int o) { return mw[o].load(R) == vs::self(); }
static std::string curdesc;
void prog_fail(const char* kind, const char* f, ...) { char b[1024]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); vs::violation(kind, std::string(b) + "\nprogram: " + curdesc + "\n"); }
void prog_count(const char*, uint64_t n) { ncount.fetch_add(n, R); }
void prog_note(const char*, ...) {}
static std::vector<void*> mem;
void* prog_mem(int i) { return mem[(size_t)i]; }
void prog_place(int i, size_t n) { void* p = prog_mem(i); vs::obj_unpoison(p, 1024); memset(p, 0xA5, 1024); vs::obj_poison((char*)p + (n + 7) / 8 * 8, 1024 - (n + 7) / 8 * 8); }
void prog_gone(int i, size_t) { vs::obj_poison(prog_mem(i), 1024); }

int main(int argc, char** argv) {
  Args a(argc, argv);
  Shard sh;
  shard_begin(a, sh);
  Sel sel;
  for (auto* l : lock_registry()) if (!l->caps.busy) sel.locks.push_back(l);
  for (auto* i : sync_registry()) sel.syncs.push_back(i);
  std::vector<ProgDef> progs;
  for (auto& n : split(a.s("progs", "all"))) for (auto& p : prog_registry()) if (n == p.name || n == p.group || n == "all") progs.push_back(p);
  if (progs.empty()) return 3;
  for (int i = 0; i < 64; i++) mem.push_back(vs::obj_alloc(1024));
  uint64_t threads = 0;
  for (long e = sh.start; e < sh.execs; e++) {
    if (!exec_begin(sh, e)) break;
    alarm(100);
    vs::Rng r = exec_rng(sh, e);
    const ProgDef& d = progs[(size_t)e % progs.size()];
    mon_reset(NMON);
    Prog* p = d.make(r, sel, e / (long)progs.size());
    curdesc = std::string(d.name) + ": " + p->desc;
    ev("%s", curdesc.c_str());
    std::vector<std::thread> th;
    uint64_t seed = r.next();
    for (int t = 0; t < p->nt; t++) th.emplace_back([=] { vs::set_self(t, seed + (uint64_t)t * 31); p->body(t); });
    for (auto& x : th) x.join();
    threads += (uint64_t)p->nt;
    p->final();
    std::string k = curdesc + std::to_string(seed);
    cov.scheds.insert(fnv(k.data(), k.size()));
    cov.add(std::string("prog.") + d.name);
    cov.add("execs");
    if (cov.samples.size() < 3) cov.samples.push_back(curdesc);
    delete p;
  }
  cov.add("native_threads_run", threads); cov.add("native_operations", vs::progress_count()); cov.add("native_acquisition_attempts", ncount.load());
  shard_end(a);
}

#include "common.h"
#include <stdarg.h>
#include <unistd.h>
#include <time.h>
#include <iostream>
#include <streambuf>
Cov cov;
long cur_exec = -1;
std::vector<std::string> evlog;
std::string strf(const char* f, ...) { char b[1024]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
void ev(const char* f, ...) {
  char b[512]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
  if (evlog.size() < 4000) evlog.push_back(b);
  if (vs::trace) fprintf(stderr, "%s\n", b);
}
struct NullBuf : std::streambuf { int overflow(int c) override { return c == EOF ? 0 : c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
static NullBuf nullbuf;
static double wall();
void shard_begin(const Args& a, Shard& s) {
  s.seed = (uint64_t)a.n("seed", 1);
  s.start = a.n("start", 0);
  s.execs = a.n("execs", 100);
  s.shard = (int)a.n("shard", 0);
  s.trace_at = a.n("trace-at", -1);
  s.tag = a.s("tag");
  s.until = wall() + (double)a.n("maxtime", 1000000);
  setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
  vs::pin((int)a.n("cpu", s.shard));
  vs::install_handlers();
  std::cout.rdbuf(&nullbuf);
  vs::describe = [] {
    std::string r = "exec " + std::to_string(cur_exec) + "\n";
    size_t n = evlog.size(), from = n > 120 ? n - 120 : 0;
    for (size_t i = from; i < n; i++) r += evlog[i] + "\n";
    return r;
  };
}
static double wall() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return (double)ts.tv_sec + ts.tv_nsec * 1e-9; }
bool exec_begin(const Shard& s, long e) {
  if ((e & 15) == 0 && wall() > s.until) { cov.add("stopped_by_time_budget"); return false; }
  cur_exec = e; evlog.clear(); vs::trace = e == s.trace_at;
  return true;
}
void shard_end(const Args& a) {
  cov.add("execs", vs::stats.execs); cov.add("steps", vs::stats.steps); cov.add("switches", vs::stats.switches);
  cov.add("atomic_ops", vs::stats.atomics); cov.add("plain_accesses", vs::stats.plain); cov.add("sync_calls", vs::stats.syncops);
  cov.add("blocks", vs::stats.blocks); cov.add("timer_expiries", vs::stats.timeouts); cov.add("spurious_wakeups", vs::stats.spurious);
  cov.add("weak_cas_failures", vs::stats.casfail); cov.add("eintr", vs::stats.eintr); cov.add("race_checks", vs::stats.races_checked);
  cov.add("quiescent_points", vs::stats.quiescent);
  for (auto& k : cov.c) printf("STAT %s %lu\n", k.first.c_str(), (unsigned long)k.second);
  for (auto& s : cov.samples) { std::string t; for (char c : s) t += c == '\n' ? '|' : c; printf("SAMPLE %s\n", t.c_str()); }
  std::string f = a.s("hashes");
  if (!f.empty()) {
    FILE* o = fopen(f.c_str(), "wb");
    if (o) { uint64_t n = cov.scheds.size(); fwrite(&n, 8, 1, o); for (uint64_t h : cov.scheds) fwrite(&h, 8, 1, o); n = cov.states.size(); fwrite(&n, 8, 1, o); for (uint64_t h : cov.states) fwrite(&h, 8, 1, o); fclose(o); }
  }
  printf("SHARD-DONE\n");
  fflush(stdout);
  _exit(0);
}

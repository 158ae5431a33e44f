// vs:: interface for native binaries: real threads, real time, real sanitizers.
// Compiled without instrumentation, so nothing here orders anything in the eyes of TSan.
#include "../rt/vs.h"
#include "../h/free.h"
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <cstdarg>
#include <ctime>
#include <sched.h>
#include <unistd.h>
#include <sys/mman.h>
#include "rstub.h"
extern "C" __attribute__((weak)) void __asan_poison_memory_region(void const volatile*, size_t);
extern "C" __attribute__((weak)) void __asan_unpoison_memory_region(void const volatile*, size_t);
namespace vs {
Stats stats;
std::function<std::string()> describe;
std::function<void()> on_exec_abort;
bool trace = false;
thread_local int fail_alloc_in = 0;
thread_local int fail_clock_in = 0;
bool allow_pthread_errors = false;
thread_local int t_self = -1;
static thread_local uint64_t t_rng = 1;
static std::atomic<uint64_t> n_progress{0}, n_points{0};
int self() { return t_self; }
bool active() { return t_self >= 0; }
void set_self(int t, uint64_t seed) { t_self = t; t_rng = seed * 2 + 1; }
void progress() { n_progress.fetch_add(1, std::memory_order_relaxed); }
void point() {
  t_rng = t_rng * 6364136223846793005ull + 1442695040888963407ull;
  n_points.fetch_add(1, std::memory_order_relaxed);
  unsigned k = (unsigned)(t_rng >> 60);
  if (k < 6) sched_yield(); else if (k < 7) { struct timespec ts = {0, 50000}; nanosleep(&ts, nullptr); } else for (volatile int i = 0; i < (int)k * 20; i = i + 1) {}
}
void note(uint64_t) {}
static int64_t clk(clockid_t c) { struct timespec ts; clock_gettime(c, &ts); return ts.tv_sec * 1000000000ll + ts.tv_nsec; }
int64_t mono_now() { return clk(CLOCK_MONOTONIC); }
int64_t real_now() { return clk(CLOCK_REALTIME); }
void pin(int) {}
static void put(const char* s, size_t n) { while (n) { ssize_t w = write(1, s, n); if (w <= 0) break; s += w; n -= (size_t)w; } }
static std::atomic<int> reporting{0};
void violation(const char* kind, const std::string& d) {
  if (reporting.exchange(1)) { for (;;) pause(); }
  std::string s = std::string("VS-VIOLATION kind=") + kind + "\n" + d + "\n" + (describe ? describe() : "") + "VS-END\n";
  put(s.data(), s.size());
  _exit(10);
}
static void on_sig(int sig) {
  if (sig == SIGALRM) violation("hang", "no progress for a very long time: threads are stuck");
  violation(sig == SIGABRT ? "abort" : "crash", std::string("signal ") + strsignal(sig));
}
void install_handlers() {
  for (int s : {SIGALRM, SIGABRT, SIGILL, SIGBUS, SIGFPE}) signal(s, on_sig);
  if (!__asan_poison_memory_region) signal(SIGSEGV, on_sig);
}
void* obj_alloc(size_t n) { void* p = aligned_alloc(64, (n + 63) / 64 * 64); return p; }
void obj_poison(void* p, size_t n) { if (__asan_poison_memory_region) __asan_poison_memory_region(p, (n + 7) / 8 * 8); }
void obj_unpoison(void* p, size_t n) { if (__asan_unpoison_memory_region) __asan_unpoison_memory_region(p, (n + 7) / 8 * 8); }
bool is_poisoned(const void*) { return false; }
Quiet::Quiet() : was(false) {}
Quiet::~Quiet() {}
std::string opts_str(const Opts&) { return ""; }
uint64_t progress_count() { return n_progress.load(std::memory_order_relaxed); }
uint64_t point_count() { return n_points.load(std::memory_order_relaxed); }
}  // namespace vs

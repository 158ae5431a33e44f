#include "statics.h"
#include "../h/common.h"
#include <chrono>
#include <condition_variable>
#include <fcntl.h>
#include <iostream>
#include <poll.h>
#include <signal.h>
#include <spawn.h>
#include <sys/wait.h>
#include <system_error>
#include <thread>
#include <unistd.h>
extern char** environ;
namespace st {
static uint64_t from_env() { const char* e = getenv("VERIF_STATICS"); return e ? strtoull(e, nullptr, 10) : 0; }
uint64_t seed = 0;
static thread_local const char* now_at = "?";
static void say(const char* s) { ssize_t r = write(2, s, strlen(s)); (void)r; }
[[noreturn]] void fail(const char* what) { char b[300]; snprintf(b, sizeof b, "STATICS-FAIL %s [%s]\n", what, now_at); say(b); _exit(70); }
void log(const char* f, const char* a, int b) { char x[300]; snprintf(x, sizeof x, f, a, b); say(x); }
Bundle* make() { return new Bundle; }
void drop(Bundle* b) { delete b; }
using msec = std::chrono::milliseconds;
#define MUST(c) do { if (!(c)) fail(#c); } while (0)
template <class M> void must_get(M& m) { bool ok = m.try_lock(); MUST(ok && "try_lock of a free mutex"); m.unlock(); }
template <class M> void k_E(M& m) { m.lock(); m.unlock(); must_get(m); }
template <class M> void k_W(M& m) { m.lock(); m.unlock(); for (int i = 0; !m.try_lock(); i++) MUST(i < 1000 && "try_lock of a free mutex"); m.unlock(); }
template <class M> void k_T(M& m) { k_E(m); MUST(m.try_lock_for(msec(1))); m.unlock(); MUST(m.try_lock_until(std::chrono::steady_clock::now())); m.unlock(); }
template <class F> void deadlk(F f) { try { f(); } catch (const std::system_error& e) { MUST(e.code() == std::errc::resource_deadlock_would_occur); return; } fail("a second lock() by the owner of a checked mutex was accepted"); }
template <class F> void perm(F f) { try { f(); } catch (const std::system_error& e) { MUST(e.code() == std::errc::operation_not_permitted); return; } fail("unlock() of a checked mutex by somebody else was accepted"); }
template <class M> void k_C(M& m) { k_E(m); m.lock(); deadlk([&] { m.lock(); }); m.unlock(); perm([&] { m.unlock(); }); }
template <class M> void k_CT(M& m) { k_T(m); k_C(m); }
template <class M> void k_R(M& m) { m.lock(); m.lock(); MUST(m.try_lock()); m.unlock(); m.unlock(); m.unlock(); must_get(m); }
template <class M> void k_RT(M& m) { k_R(m); m.lock(); MUST(m.try_lock_for(msec(1))); m.unlock(); m.unlock(); }
template <class M> void k_S(M& m) { k_E(m); m.lock_shared(); m.unlock_shared(); MUST(m.try_lock_shared()); m.unlock_shared(); }
template <class M> void k_CS(M& m) { k_S(m); k_C(m); m.lock_shared(); deadlk([&] { m.lock(); }); m.unlock_shared(); }
template <class M> void k_ST(M& m) { k_S(m); k_T(m); MUST(m.try_lock_shared_for(msec(1))); m.unlock_shared(); }
template <class S> void k_sem(S& s) { MUST(s.try_acquire()); s.release(); s.acquire(); s.release(); MUST(s.try_acquire_for(msec(1))); MUST(!s.try_acquire()); s.release(); }
static std::atomic<unsigned> busy{0};
void use(Bundle& b, Rng& r, int n) {
  for (; n > 0; n--) switch (r.below(28)) {
    int c;
#define X(nm, t, k) case __COUNTER__: k_##k(b.nm); break;
    ST_TYPES(X)
#undef X
    case 24: k_sem(b.s0); break;
    case 25: k_sem(b.s1); break;
    case 26: k_sem(b.s2); break;
    case 27: c = b.l.try_wait(); if (!c) b.l.count_down(); b.l.wait(); b.b.arrive_and_wait(); break;
  }
}
static_assert(__COUNTER__ == 24, "the switch above enumerates the types");
template <class M> void pair_on(M& m) {   // a second thread waits for the mutex while the caller owns it
  int protect = 0; std::atomic<bool> in{false};
  m.lock();
  std::thread t([&] { in = true; m.lock(); protect++; m.unlock(); });
  while (!in) std::this_thread::yield();
  std::this_thread::sleep_for(std::chrono::microseconds(200));
  protect++;
  m.unlock();
  t.join();
  MUST(protect == 2);
}
void contend(Bundle& b, Rng& r) {
  switch (r.below(24)) {
#define X(nm, t, k) case __COUNTER__ - 25: pair_on(b.nm); break;
    ST_TYPES(X)
#undef X
  }
}
template <class A, class B> void cross(A& a, B& b) {
  std::atomic<int> n{0}, told{0}, got{0};
  auto run = [&](auto& x, auto& y) { x.lock(); n++; while (n < 2) std::this_thread::yield(); try { y.lock(); got++; y.unlock(); } catch (const std::system_error& e) { MUST(e.code() == std::errc::resource_deadlock_would_occur); told++; } x.unlock(); };
  std::thread t([&] { run(b, a); });
  run(a, b);
  t.join();
  MUST(told == 1 && got == 1 && "exactly one of two threads locking in opposite order is told");
}
void deadlock(Bundle& x, Bundle& y, Rng& r) { switch (r.below(3)) { case 0: cross(x.b0, y.b2); break; case 1: cross(x.b4, y.b1); break; default: cross(x.b0, y.b5); } }
// thread-local objects, destroyed when the thread (or the process) ends
struct TL { Bundle b; Rng r; ~TL() { now_at = "destructor of a thread-local object"; use(b, r, 4); use(leaked(r.below(2)), r, 4); } };
static Rng& site_rng() { static Rng* r = new Rng{seed * 77 + 5}; return *r; }
static std::recursive_mutex& big() { static auto* m = new std::recursive_mutex; return *m; }
static int handlers = 0, visits = 0, background = 0;
static bool ending = false;
static void at_exit() { ending = true; site("exit handler", 9, nullptr, 0); }
void site(const char* where, int tu, Bundle* own, int depth) {
  if (!seed) { seed = from_env(); if (!seed) return; }
  std::lock_guard<std::recursive_mutex> g(big());   // sites run one at a time; what runs at a time inside a site is up to the site
  const char* was = now_at; now_at = where;
  if (tu >= 0) log("  at: %s (unit %d)\n", where, tu);
  Rng& r = site_rng();
  visits++;
  int n = (int)r.below(5);
  for (int i = 0; i < n; i++) switch (r.below(12)) {
    case 0: { Bundle b; use(b, r, 3); } break;
    case 1: case 2: log("    leaked %s%d\n", "", 0); use(leaked(r.below(2)), r, 6); break;
    case 3: { Bundle* p = make(); use(*p, r, 3); drop(p); } break;
    case 4: if (own) use(*own, r, 6); break;
    case 5: { int k = (int)r.below(2); if (meyers_born(k) ? meyers_state(k) : !ending && r.below(2)) { meyers_born(k) = true; log("    function-local static %s%d\n", "", k); use(k ? meyers<1>() : meyers<0>(), r, 4); } } break;
    case 6: if (handlers++ < 12) { log("    registers an exit handler %s%d\n", "", handlers); atexit(at_exit); } break;
    case 7: if (depth < 2) { uint64_t s2 = r.next(); big().unlock(); { std::thread t([&] { static thread_local TL tl{{}, Rng{s2}}; Rng q{s2 + 1}; use(tl.b, q, 4); }); t.join(); } big().lock(); } break;
    case 8: { static thread_local TL tl{{}, Rng{r.next()}}; if (!ending) use(tl.b, r, 2); } break;
    case 9: contend(own && r.below(2) ? *own : leaked(r.below(2)), r); break;
    case 11: if (!background++) { log("    starts a background thread %s%d\n", "", 0); uint64_t s2 = r.next(); std::thread([s2] { now_at = "background thread"; Bundle* b = make(); Rng q{s2}; for (;;) { use(*b, q, 3); std::this_thread::sleep_for(std::chrono::microseconds(q.below(300))); } }).detach(); } break;   // runs until the process has ended
    case 10: deadlock(own && r.below(2) ? *own : leaked(0), leaked(1), r); break;
  }
  now_at = was;
}
}
// the thread-local of case 8 dies with the main thread, before statics: it is not used when the process ends
int main(int argc, char** argv) {
  if (getenv("VERIF_STATICS")) { std::cout.setstate(std::ios::failbit); st::site("main", -1, nullptr, 0); st::log("main %s%d\n", "", 0); st::site("main", 3, nullptr, 0); st::ending = true; return 0; }
  Args a(argc, argv);
  Shard sh; shard_begin(a, sh);
  for (long e = sh.start; e < sh.execs; e++) {
    if (!exec_begin(sh, e)) break;
    uint64_t sd = exec_rng(sh, e).next() >> 8 | 1;
    int pp[2]; if (pipe(pp)) _exit(3);
    std::string v = "VERIF_STATICS=" + std::to_string(sd);
    std::vector<char*> env{&v[0]}; for (char** p = environ; *p; p++) env.push_back(*p);
    env.push_back(nullptr);
    posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_addopen(&fa, 1, "/dev/null", O_WRONLY, 0); posix_spawn_file_actions_adddup2(&fa, pp[1], 2); posix_spawn_file_actions_addclose(&fa, pp[0]);
    pid_t pid; char* av[] = {argv[0], nullptr};
    if (posix_spawn(&pid, "/proc/self/exe", &fa, nullptr, av, env.data())) _exit(3);
    posix_spawn_file_actions_destroy(&fa);
    close(pp[1]);
    std::string out; bool hung = false; char b[4096];
    for (;;) { struct pollfd pf = {pp[0], POLLIN, 0}; int k = poll(&pf, 1, 30000); if (k == 0) { hung = true; kill(pid, SIGKILL); break; } ssize_t r = read(pp[0], b, sizeof b); if (r <= 0) break; if (out.size() < 60000) out.append(b, (size_t)r); }
    close(pp[0]);
    int ws; waitpid(pid, &ws, 0);
    bool bad = hung || !WIFEXITED(ws) || WEXITSTATUS(ws);
    if (bad) {
      bool f = out.find("STATICS-FAIL") != std::string::npos;
      for (auto& l : split(out, '\n')) if (evlog.size() < 110) ev("%s", l.substr(0, 400).c_str());
      vs::violation(hung ? "hang" : f ? "statics" : out.find("Sanitizer") != std::string::npos || out.find("runtime error") != std::string::npos ? "sanitizer" : "crash", strf("a process using yamc objects while it starts and ends %s (scenario VERIF_STATICS=%lu)\n", hung ? "hangs" : f ? "got a wrong answer" : "fails", (unsigned long)sd));
    }
    cov.add("execs"); cov.add("processes"); for (auto& l : split(out, '\n')) { size_t p = l.find("at: "); if (p != std::string::npos) cov.add("sites:" + l.substr(p + 4, l.find(" (", p) - p - 4)); else if (l.find("background") != std::string::npos) cov.add("background_threads_at_exit"); else if (l.find("leaked") != std::string::npos) cov.add("uses_of_leaked_objects"); else if (l.find("function-local") != std::string::npos) cov.add("uses_of_function_local_statics"); }
    cov.scheds.insert(fnv(out.data(), out.size()));
    if (cov.samples.size() < 2) cov.samples.push_back(out.substr(0, 600));
  }
  shard_end(a);
}

// shared_lock and scoped_lock over recording mock mutexes: random operation sequences, compared step by step
// with an executable specification (calls made on the mutex, ownership, results, exceptions).
#include "../h/common.h"
#include "yamc_shared_lock.hpp"
#include "yamc_scoped_lock.hpp"
#include <chrono>
#include <mutex>
#include <optional>
#include <system_error>
#include <type_traits>
#include <utility>
using vs::Rng;
static Rng R;
struct MockError { int n; };
[[noreturn]] static void fail(const char* kind, const std::string& d) { vs::violation(kind, d + "\n"); }

// ------------------------------------------------------------------ shared_lock
struct Plan { int result = 1; bool thr = false; bool syserr = false; };
struct Mock;
static std::vector<std::string> calls;
static Plan plan;
static int throws;
struct Mock {
  int id; long shared = 0, excl = 0;
  explicit Mock(int i) : id(i) {}
  void rec(const std::string& s) { calls.push_back("m" + std::to_string(id) + "." + s); }
  bool act(const std::string& s) {
    rec(s);
    if (plan.thr) { throws++; if (plan.syserr) throw std::system_error(std::make_error_code(std::errc::device_or_resource_busy)); throw MockError{7}; }
    if (plan.result) shared++;
    return plan.result;
  }
  void lock_shared() { plan.result = 1; act("lock_shared"); }
  bool try_lock_shared() { return act("try_lock_shared"); }
  void unlock_shared() { rec("unlock_shared"); if (shared <= 0) fail("wrapper-calls", "unlock_shared on a mutex that is not share-locked"); shared--; }
  // exclusive operations must never be used by shared_lock
  void lock() { rec("lock"); fail("wrapper-calls", "shared_lock locked exclusively"); }
  bool try_lock() { rec("try_lock"); fail("wrapper-calls", "shared_lock locked exclusively"); }
  void unlock() { rec("unlock"); fail("wrapper-calls", "shared_lock unlocked exclusively"); }
  template <class Rp, class Pd> bool try_lock_shared_for(const std::chrono::duration<Rp, Pd>& d) { return act(std::string("for:") + typeid(std::chrono::duration<Rp, Pd>).name() + ":" + std::to_string((long double)d.count())); }
  template <class C, class D> bool try_lock_shared_until(const std::chrono::time_point<C, D>& t) { return act(std::string("until:") + typeid(std::chrono::time_point<C, D>).name() + ":" + std::to_string((long double)t.time_since_epoch().count())); }
};
using SL = yamc::shared_lock<Mock>;
static_assert(!std::is_copy_constructible<SL>::value && !std::is_copy_assignable<SL>::value, "shared_lock must not be copyable");
static_assert(std::is_nothrow_move_constructible<SL>::value && std::is_nothrow_move_assignable<SL>::value, "shared_lock must be nothrow movable");
static_assert(std::is_same<SL::mutex_type, Mock>::value, "mutex_type");
static_assert(!std::is_convertible<Mock&, SL>::value && !std::is_convertible<SL, bool>::value, "explicit");
struct Spec { int pm = -1; bool owns = false; bool live = false; };

static std::string tstr(const std::string& s) { return s; }
static void shared_lock_exec() {
  Mock M[2] = {Mock(0), Mock(1)};
  std::optional<SL> L[3];
  Spec S[3];
  std::vector<std::string> want;
  auto rec = [&](int m, const std::string& s) { want.push_back("m" + std::to_string(m) + "." + s); };
  auto unl = [&](Spec& s) { if (s.owns) rec(s.pm, "unlock_shared"); s.owns = false; };
  int steps = 4 + (int)R.below(40);
  auto compare = [&](const char* op) {
    if (calls != want) {
      std::string d = std::string("after ") + op + ": calls on the mutexes differ from std::shared_lock's; expected";
      for (auto& c : want) d += " " + c; d += "; got"; for (auto& c : calls) d += " " + c;
      fail("wrapper-calls", d);
    }
    for (int i = 0; i < 3; i++) {
      if (!S[i].live) continue;
      const SL& l = *L[i];
      if (l.owns_lock() != S[i].owns || (bool)l != S[i].owns || l.mutex() != (S[i].pm < 0 ? nullptr : &M[S[i].pm]))
        fail("wrapper-state", strf("after %s lock #%d: owns_lock()=%d mutex()=%s, expected owns=%d mutex=%d", op, i, l.owns_lock(), l.mutex() ? (l.mutex() == &M[0] ? "0" : "1") : "none", S[i].owns, S[i].pm));
    }
    for (int m = 0; m < 2; m++) { long n = 0; for (auto& s : S) n += s.live && s.owns && s.pm == m; if (M[m].shared != n + 0 && M[m].shared < n) fail("wrapper-state", "ownership lost"); }
    calls.clear(); want.clear();
    cov.add(std::string("op.") + op);
    { char k[9]; for (int i = 0; i < 3; i++) { k[3 * i] = (char)S[i].pm; k[3 * i + 1] = (char)S[i].owns; k[3 * i + 2] = (char)S[i].live; } cov.states.insert(fnv(k, sizeof k)); }
  };
  long leaked[2] = {0, 0};   // ownership given up by release()
  uint64_t h = 1;
  for (int k = 0; k < steps; k++) {
    int i = (int)R.below(3), m = (int)R.below(2), j = (i + 1 + (int)R.below(2)) % 3;
    plan.result = R.chance(600); plan.thr = R.chance(130); plan.syserr = R.chance(512);
    int op = (int)R.below(16);
    h = h * 31 + (uint64_t)(op * 16 + i * 4 + m * 2) + (uint64_t)plan.result + (uint64_t)plan.thr * 7;
    Spec& s = S[i];
    int err = 0;    // expected errno of a system_error, -1: the mutex's own exception
    auto catching = [&](const char* name, auto&& f) {
      int got = 0; int before = throws;
      try { f(); } catch (const std::system_error& e) { got = e.code() == std::errc::operation_not_permitted ? EPERM : e.code() == std::errc::resource_deadlock_would_occur ? EDEADLK : e.code() == std::errc::device_or_resource_busy ? -1 : 9999; if (got > 0 && e.code().category() != std::generic_category()) got = 8888; } catch (const MockError&) { got = -1; }
      (void)before;
      if (got != err) fail("wrapper-error", strf("%s: expected error %d, got %d (-1: the exception of the mutex, 0: none)", name, err, got));
    };
    if (op < 7) {  // (re)construct
      if (s.live) { unl(s); L[i].reset(); s = Spec(); compare("destructor"); }
      switch (op) {
        case 0: plan.thr = false; L[i].emplace(); s.live = true; compare("default constructor"); break;
        case 1: {
          err = plan.thr ? -1 : 0; plan.result = 1; rec(m, "lock_shared");
          catching("constructor", [&] { L[i].emplace(M[m]); });
          if (!plan.thr) { s.live = true; s.pm = m; s.owns = true; } else L[i].reset();
          compare("constructor(m)"); break;
        }
        case 2: L[i].emplace(M[m], std::defer_lock); s.live = true; s.pm = m; compare("constructor(defer)"); break;
        case 3: {
          err = plan.thr ? -1 : 0; rec(m, "try_lock_shared");
          catching("constructor", [&] { L[i].emplace(M[m], std::try_to_lock); });
          if (!plan.thr) { s.live = true; s.pm = m; s.owns = plan.result; } else L[i].reset();
          compare("constructor(try)"); break;
        }
        case 4: M[m].shared++; L[i].emplace(M[m], std::adopt_lock); s.live = true; s.pm = m; s.owns = true; compare("constructor(adopt)"); break;
        case 5: {
          auto d = std::chrono::duration<int, std::milli>((int)R.below(1000));
          err = plan.thr ? -1 : 0; rec(m, std::string("for:") + typeid(d).name() + ":" + std::to_string((long double)d.count()));
          catching("constructor", [&] { L[i].emplace(M[m], d); });
          if (!plan.thr) { s.live = true; s.pm = m; s.owns = plan.result; } else L[i].reset();
          compare("constructor(duration)"); break;
        }
        case 6: {
          auto t = std::chrono::time_point<std::chrono::system_clock, std::chrono::seconds>(std::chrono::seconds(R.below(100000)));
          err = plan.thr ? -1 : 0; rec(m, std::string("until:") + typeid(t).name() + ":" + std::to_string((long double)t.time_since_epoch().count()));
          catching("constructor", [&] { L[i].emplace(M[m], t); });
          if (!plan.thr) { s.live = true; s.pm = m; s.owns = plan.result; } else L[i].reset();
          compare("constructor(time_point)"); break;
        }
      }
      continue;
    }
    if (!s.live) continue;
    SL& l = *L[i];
    int pre = s.pm < 0 ? EPERM : s.owns ? EDEADLK : 0;
    auto locking = [&](const char* name, const std::string& call, bool isbool, auto&& f) {
      err = pre ? pre : plan.thr ? -1 : 0;
      if (!pre) rec(s.pm, call);
      bool got = false;
      if (!isbool) plan.result = 1;
      bool was = s.owns;
      catching(name, [&] { got = f(); });
      if (!err) { s.owns = plan.result; if (isbool && got != (bool)plan.result) fail("wrapper-state", strf("%s returned %d but the mutex said %d", name, got, plan.result)); } else s.owns = was;
      compare(name);
    };
    switch (op) {
      case 7: locking("lock", "lock_shared", false, [&] { l.lock(); return true; }); break;
      case 8: locking("try_lock", "try_lock_shared", true, [&] { return l.try_lock(); }); break;
      case 9: { auto d = std::chrono::duration<double, std::micro>(R.below(1000)); locking("try_lock_for", std::string("for:") + typeid(d).name() + ":" + std::to_string((long double)d.count()), true, [&] { return l.try_lock_for(d); }); break; }
      case 10: { auto t = std::chrono::steady_clock::time_point(std::chrono::nanoseconds((int64_t)R.below(1000000) - 500000)); locking("try_lock_until", std::string("until:") + typeid(t).name() + ":" + std::to_string((long double)t.time_since_epoch().count()), true, [&] { return l.try_lock_until(t); }); break; }
      case 11: case 12:
        err = s.owns ? 0 : EPERM; if (s.owns) rec(s.pm, "unlock_shared");
        catching("unlock", [&] { l.unlock(); });
        s.owns = false; compare("unlock"); break;
      case 13: {
        if (!S[j].live) { L[j].emplace(std::move(l)); S[j] = s; s.pm = -1; s.owns = false; compare("move constructor"); }
        else { unl(S[j]); *L[j] = std::move(l); S[j] = s; s.pm = -1; s.owns = false; compare("move assignment"); }
        break;
      }
      case 14:
        if (!S[j].live) break;
        if (R.chance(400)) l.swap(*L[j]); else if (R.chance(512)) std::swap(l, *L[j]); else { using std::swap; swap(l, *L[j]); }
        std::swap(s, S[j]); compare("swap"); break;
      default: {
        Mock* r = l.release();
        if (r != (s.pm < 0 ? nullptr : &M[s.pm])) fail("wrapper-state", "release returned the wrong mutex");
        if (s.owns) leaked[s.pm]++;
        s.pm = -1; s.owns = false; compare("release");
      }
    }
  }
  plan.thr = false;
  for (int i = 0; i < 3; i++) if (S[i].live) { unl(S[i]); L[i].reset(); S[i] = Spec(); compare("destructor"); }
  for (int m = 0; m < 2; m++) if (M[m].shared != leaked[m]) fail("wrapper-state", strf("mutex %d ends with %ld shared locks, expected %ld", m, M[m].shared, leaked[m]));
  cov.scheds.insert(h);
}

// ------------------------------------------------------------------ scoped_lock
struct SMock {
  int id = 0; bool held = false; int locks = 0, unlocks = 0, fails = 0; bool ext = false;
  static int calls_left;   // throw when it reaches 0
  void thr() { if (calls_left > 0 && --calls_left == 0) throw MockError{1}; }
  void lock() { thr(); if (held) fail("scoped", strf("mutex %d locked twice", id)); held = true; locks++; }
  bool try_lock() { thr(); if (held) fail("scoped", strf("mutex %d: try_lock while already held by the same scoped_lock", id)); if (fails > 0) { fails--; return false; } held = true; locks++; return true; }
  void unlock() { if (!held) fail("scoped", strf("mutex %d unlocked while not locked", id)); held = false; unlocks++; }
};
int SMock::calls_left = 0;
struct SMock2 : SMock { };   // a second mutex type in the same scoped_lock
template <class... M> static void scoped_one(M&... m) {
  SMock* v[] = {&m..., nullptr}; int n = (int)sizeof...(M);
  bool adopt = R.chance(250), thrown = false;
  if (adopt) for (int i = 0; i < n; i++) { v[i]->held = true; v[i]->locks++; }
  else if (R.chance(450)) SMock::calls_left = 1 + (int)R.below((uint32_t)n * 3);
  for (int i = 0; i < n; i++) v[i]->fails = n > 1 && !adopt ? (int)R.below(4) * (int)R.below(2) : 0;
  auto inside = [&] {
    SMock::calls_left = 0;
    for (int i = 0; i < n; i++) if (!v[i]->held) fail("scoped", strf("mutex %d of %d is not locked inside scoped_lock%s", i, n, adopt ? " (adopted)" : ""));
    if (R.chance(200)) throw MockError{2};   // leaving by an exception releases as well
  };
  bool started = false;
  try {
    if (adopt) { yamc::scoped_lock<M...> g(std::adopt_lock, m...); started = true; inside(); }
    else { yamc::scoped_lock<M...> g(m...); started = true; inside(); }
  } catch (const MockError& e) { thrown = true; if (e.n == 1 && started) fail("scoped", "a lock call after construction"); }
  SMock::calls_left = 0;
  for (int i = 0; i < n; i++) {
    if (v[i]->held) fail("scoped", strf("mutex %d of %d is still locked after %s", i, n, started ? "the scoped_lock was destroyed" : "the constructor threw"));
    if (v[i]->locks != v[i]->unlocks) fail("scoped", strf("mutex %d: %d locks, %d unlocks", i, v[i]->locks, v[i]->unlocks));
    if (started && v[i]->locks == 0) fail("scoped", "never locked");
  }
  cov.add(strf("scoped.%d.%s%s", n, adopt ? "adopt" : "lock", thrown ? (started ? ".body_threw" : ".ctor_threw") : ""));
}
static_assert(!std::is_copy_constructible<yamc::scoped_lock<SMock>>::value && !std::is_copy_constructible<yamc::scoped_lock<SMock, SMock2>>::value, "not copyable");
static_assert(std::is_same<yamc::scoped_lock<SMock>::mutex_type, SMock>::value, "mutex_type");
static void scoped_exec() {
  for (int k = 0; k < 20; k++) {
    SMock a, b; SMock2 c, d; SMock e; a.id = 0; b.id = 1; c.id = 2; d.id = 3; e.id = 4;
    switch (R.below(6)) {
      case 0: { yamc::scoped_lock<> g; yamc::scoped_lock<> h{std::adopt_lock}; (void)g; (void)h; cov.add("scoped.0"); break; }
      case 1: scoped_one(a); break;
      case 2: scoped_one(a, c); break;
      case 3: scoped_one(a, b, c); break;
      case 4: scoped_one(d, a, b, c); break;
      default: scoped_one(a, c, b, d, e);
    }
  }
  cov.scheds.insert(R.next());
}
int main(int argc, char** argv) {
  Args a(argc, argv);
  Shard sh; shard_begin(a, sh);
  std::string what = a.s("progs", "shared_lock");
  for (long e = sh.start; e < sh.execs; e++) {
    if (!exec_begin(sh, e)) break;
    R = exec_rng(sh, e);
    calls.clear(); throws = 0;
    if (what == "shared_lock") shared_lock_exec(); else scoped_exec();
    cov.add("execs");
  }
  cov.samples.push_back(what + ": random constructor/lock/move/swap/release/unlock sequences over 2 mock mutexes with refused and throwing calls");
  shard_end(a);
}

// Controlled-execution runtime: real threads, one token, seeded scheduler,
// virtual time, interposed pthread/sem/clock/yield calls, tsan-ABI hooks with a
// happens-before race detector.  See DESIGN.md "Runtime".
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>

namespace vs {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint32_t below(uint32_t n) { return n ? (uint32_t)((next() >> 32) * n >> 32) : 0; }
  bool chance(uint32_t per1024) { return (next() & 1023) < per1024; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below((uint32_t)v.size())]; }
};

enum Strat { RANDOM_WALK, PCT, ROUND_ROBIN };

struct Opts {
  uint64_t seed = 1;
  Strat strat = RANDOM_WALK;
  int pswitch = 256;    // /1024 at sync points
  int pplain = 0;       // /1024 scheduling point at plain accesses
  int pspur = 0;        // /1024 spurious condvar wakeup when blocking
  int pcasfail = 0;     // /1024 spurious weak-CAS failure
  int peintr = 0;       // /1024 EINTR from sem_wait family when it would block
  int ptimer = 0;       // /1024 at sync points: fire the earliest timer (autotime only)
  int sigpick = 0;      // cond_signal victim: 0 random 1 fifo 2 lifo
  bool autotime = false;
  bool race = true;
  uint64_t maxsteps = 400000;
};
Opts random_opts(Rng& r);
std::string opts_str(const Opts& o);

struct Stats {  // cumulative over the process
  uint64_t execs = 0, steps = 0, switches = 0, syncops = 0, atomics = 0, plain = 0;
  uint64_t blocks = 0, timeouts = 0, spurious = 0, casfail = 0, eintr = 0, signals = 0, races_checked = 0;
  uint64_t quiescent = 0, allocs = 0, hb_edges = 0;
};
extern Stats stats;

// Runs n workers to completion. quiescent() is called (on some worker thread, with
// hooks off) whenever nothing can run; it must make something runnable (unpark /
// advance) and return true, or return false: then blocked workers are stuck.
// Returns the schedule hash.
uint64_t run(int n, const Opts& o, const std::function<void(int)>& body,
             const std::function<bool()>& quiescent);

bool active();               // current thread is a worker of a running execution
int self();                  // worker index, -1 otherwise
void join_all();             // current worker synchronises with everything the others did (as if it had joined them)
void park();                 // wait for unpark
void unpark(int t);
bool is_parked(int t);
bool is_done(int t);
bool is_blocked(int t);      // neither runnable nor parked nor done (or spinning without progress)
const char* block_reason(int t);
enum Wait { W_NONE, W_SPIN, W_ASLEEP, W_TIMER };
Wait wait_of(int t, int64_t& mono_until);   // how worker t waits; W_TIMER: woken at that (monotonic) time at the latest
void progress();             // an operation started/completed
void point();                // explicit scheduling point
void note(uint64_t v);       // mix into the schedule hash (observable outcome)

// virtual time (ns)
int64_t mono_now();
int64_t real_now();
void advance_to(int64_t mono_abs);   // moves both clocks, fires timers
void jump_real(int64_t delta);       // system clock adjustment
int64_t next_timer();                // earliest mono-equivalent deadline or -1
uint64_t yields(int t);              // sched_yield calls made by worker t in this execution

// arena objects with poisoning
void* obj_alloc(size_t n);           // per-execution arena (recycled between executions)
void obj_poison(void* p, size_t n);  // destroyed: any access is a violation
void obj_unpoison(void* p, size_t n);
bool is_poisoned(const void* p);
void pin(int cpu_index);
void install_handlers();

// RAII: hooks off on this thread (harness code)
struct Quiet { Quiet(); ~Quiet(); bool was; };

// reporting. ends the process (exit 10)
[[noreturn]] void violation(const char* kind, const std::string& detail);
extern std::function<std::string()> describe;   // appended to the report
extern std::function<void()> on_exec_abort;
extern bool trace;
void tracef(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// fault injection: nth operator new inside a worker throws bad_alloc (0 = off)
extern thread_local int fail_alloc_in;
extern thread_local int fail_clock_in;   // that reading of a user-defined clock throws
extern bool allow_pthread_errors;
// While set, called for every access that made no progress (the caller keeps spinning instead of being
// set aside until something changes) and for every yield.
enum SpinEv { EV_YIELD, EV_LOAD, EV_RMW, EV_OTHER };
extern void (*spin_observer)(int worker, SpinEv);
}

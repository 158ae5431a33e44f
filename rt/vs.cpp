#include "vs.h"
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <time.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <dlfcn.h>
#include <errno.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <atomic>
#include <new>
#include <map>

#define NS __attribute__((no_sanitize("thread")))
#define LIKELY(x) __builtin_expect(!!(x), 1)

// ---------------------------------------------------------------- real functions
template <class F> static F real_sym(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
#define REAL(ret, name, args) \
  static ret(*r_##name) args = nullptr; \
  static inline ret(*get_##name()) args { if (!r_##name) r_##name = real_sym<ret(*) args>(#name); return r_##name; }

REAL(int, pthread_mutex_init, (pthread_mutex_t*, const pthread_mutexattr_t*))
REAL(int, pthread_mutex_destroy, (pthread_mutex_t*))
REAL(int, pthread_mutex_lock, (pthread_mutex_t*))
REAL(int, pthread_mutex_trylock, (pthread_mutex_t*))
REAL(int, pthread_mutex_timedlock, (pthread_mutex_t*, const struct timespec*))
REAL(int, pthread_mutex_clocklock, (pthread_mutex_t*, clockid_t, const struct timespec*))
REAL(int, pthread_mutex_unlock, (pthread_mutex_t*))
REAL(int, pthread_cond_init, (pthread_cond_t*, const pthread_condattr_t*))
REAL(int, pthread_cond_destroy, (pthread_cond_t*))
REAL(int, pthread_cond_wait, (pthread_cond_t*, pthread_mutex_t*))
REAL(int, pthread_cond_timedwait, (pthread_cond_t*, pthread_mutex_t*, const struct timespec*))
REAL(int, pthread_cond_clockwait, (pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*))
REAL(int, pthread_cond_signal, (pthread_cond_t*))
REAL(int, pthread_cond_broadcast, (pthread_cond_t*))
REAL(int, pthread_rwlock_init, (pthread_rwlock_t*, const pthread_rwlockattr_t*))
REAL(int, pthread_rwlock_destroy, (pthread_rwlock_t*))
REAL(int, pthread_rwlock_rdlock, (pthread_rwlock_t*))
REAL(int, pthread_rwlock_wrlock, (pthread_rwlock_t*))
REAL(int, pthread_rwlock_tryrdlock, (pthread_rwlock_t*))
REAL(int, pthread_rwlock_trywrlock, (pthread_rwlock_t*))
REAL(int, pthread_rwlock_timedrdlock, (pthread_rwlock_t*, const struct timespec*))
REAL(int, pthread_rwlock_timedwrlock, (pthread_rwlock_t*, const struct timespec*))
REAL(int, pthread_rwlock_clockrdlock, (pthread_rwlock_t*, clockid_t, const struct timespec*))
REAL(int, pthread_rwlock_clockwrlock, (pthread_rwlock_t*, clockid_t, const struct timespec*))
REAL(int, pthread_rwlock_unlock, (pthread_rwlock_t*))
REAL(int, pthread_spin_init, (pthread_spinlock_t*, int))
REAL(int, pthread_spin_destroy, (pthread_spinlock_t*))
REAL(int, pthread_spin_lock, (pthread_spinlock_t*))
REAL(int, pthread_spin_trylock, (pthread_spinlock_t*))
REAL(int, pthread_spin_unlock, (pthread_spinlock_t*))
REAL(int, sem_init, (sem_t*, int, unsigned))
REAL(int, sem_destroy, (sem_t*))
REAL(int, sem_wait, (sem_t*))
REAL(int, sem_trywait, (sem_t*))
REAL(int, sem_timedwait, (sem_t*, const struct timespec*))
REAL(int, sem_clockwait, (sem_t*, clockid_t, const struct timespec*))
REAL(int, sem_post, (sem_t*))
REAL(int, sem_getvalue, (sem_t*, int*))
REAL(int, pthread_once, (pthread_once_t*, void (*)(void)))
REAL(int, sched_yield, (void))
REAL(int, clock_gettime, (clockid_t, struct timespec*))
REAL(int, gettimeofday, (struct timeval*, void*))
REAL(int, nanosleep, (const struct timespec*, struct timespec*))
REAL(int, clock_nanosleep, (clockid_t, int, const struct timespec*, struct timespec*))

namespace vs {

Stats stats;
std::function<std::string()> describe;
std::function<void()> on_exec_abort;
bool trace = false;
bool allow_pthread_errors = false;
void (*spin_observer)(int, SpinEv) = nullptr;
thread_local int fail_alloc_in = 0;
thread_local int fail_clock_in = 0;

constexpr int NV = 16;            // vector-clock width (race detection only up to NV workers)
constexpr int MAXTH = 512;
constexpr unsigned SPINK = 128;   // non-progress steps before a spinner counts as blocked
constexpr int CONSEC = 400;

struct VC {
  uint32_t c[NV];
  void reset() { memset(c, 0, sizeof c); }
  void join(const VC& o) { for (int i = 0; i < NV; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};

enum St : uint8_t { UNUSED, RUNNABLE, BLOCKED, PARKED, DONE };

struct Th {
  int id = 0;
  pthread_t pt;
  std::atomic<int> go{0};
  St st = UNUSED;
  const char* why = "";
  const void* obj = nullptr;
  bool timed = false, fired = false, spur = false;
  bool real_clk = false;
  int64_t dl = 0;
  unsigned spin = 0;
  uint64_t spin_epoch = 0;
  int consec = 0;
  int prio = 0;
  int spur_budget = 0, eintr_budget = 0;
  uint64_t yields = 0;
  VC vc, acqp, relf;
  bool has_relf = false;
  char *stk_lo = nullptr, *stk_hi = nullptr;
  char* altstk = nullptr;
};

static Th* th[MAXTH];
static int n_pool = 0;

struct Glob {
  int n = 0, live = 0;
  bool running = false;
  Opts o;
  Rng rng{1};
  uint64_t epoch = 1;
  uint64_t steps = 0, last_op = 0;
  uint64_t hash = 0;
  bool fair = false, fairrand = false;
  bool race = false;
  int64_t mono = 0, roff = 0;
  const std::function<void(int)>* body = nullptr;
  const std::function<bool()>* quiescent = nullptr;
  std::atomic<int> done{0};
  uint32_t gen = 1;
  int fault_quiet = 0;
  uint64_t plain_run = 0;
} G;

static thread_local Th* tl __attribute__((tls_model("initial-exec"))) = nullptr;
static thread_local int tl_rt __attribute__((tls_model("initial-exec"))) = 0;

struct RT { RT() { ++tl_rt; } ~RT() { --tl_rt; } };
static inline Th* me() { return (tl && tl_rt == 0) ? tl : nullptr; }

Quiet::Quiet() : was(true) { ++tl_rt; }
Quiet::~Quiet() { --tl_rt; }

static void fwait(std::atomic<int>& f) {
  while (f.load(std::memory_order_acquire) == 0) syscall(SYS_futex, &f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  f.store(0, std::memory_order_relaxed);
}
static void fwake(std::atomic<int>& f) {
  f.store(1, std::memory_order_release);
  syscall(SYS_futex, &f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

// ---------------------------------------------------------------- reporting
static std::atomic<bool> reported{false};
void tracef(const char* fmt, ...) {
  if (!trace) return;
  RT rt;
  char b[512];
  int k = snprintf(b, sizeof b, "  [%8lu T%d] ", (unsigned long)G.steps, tl ? tl->id : -1);
  va_list ap; va_start(ap, fmt);
  k += vsnprintf(b + k, sizeof b - k - 2, fmt, ap);
  va_end(ap);
  if (k > (int)sizeof b - 2) k = sizeof b - 2;
  b[k++] = '\n';
  (void)!write(2, b, k);
}
static void put(const std::string& s) { size_t o = 0; while (o < s.size()) { ssize_t w = write(1, s.data() + o, s.size() - o); if (w <= 0) break; o += w; } }

static std::string threads_str() {
  std::string s;
  char b[200];
  for (int i = 0; i < G.n && i < 24; i++) {
    Th* t = th[i];
    const char* st = t->st == RUNNABLE ? "runnable" : t->st == BLOCKED ? "blocked" : t->st == PARKED ? "idle" : t->st == DONE ? "done" : "?";
    snprintf(b, sizeof b, "  worker %d: %s%s%s%s\n", i, st, t->st == BLOCKED ? " in " : "", t->st == BLOCKED ? t->why : "",
             (t->st == RUNNABLE && t->spin_epoch == G.epoch && t->spin >= SPINK) ? " (spinning, no progress)" : "");
    s += b;
  }
  return s;
}

void violation(const char* kind, const std::string& detail) {
  ++tl_rt;
  if (reported.exchange(true)) _exit(11);
  std::string s = std::string("VS-VIOLATION kind=") + kind + "\n" + detail + "\n";
  if (G.running) {
    s += "schedule: " + opts_str(G.o) + " steps=" + std::to_string(G.steps) + "\n" + threads_str();
  }
  if (describe) s += describe();
  if (s.empty() || s.back() != '\n') s += "\n";
  s += "VS-END\n";
  fflush(stdout);
  put(s);
  _exit(10);
}

static void crash_handler(int sig, siginfo_t* si, void*) {
  ++tl_rt;
  if (reported.exchange(true)) _exit(11);
  char b[256];
  int k = snprintf(b, sizeof b, "VS-VIOLATION kind=%s\nsignal %d addr %p\n", sig == SIGABRT ? "abort" : "crash", sig, si ? si->si_addr : nullptr);
  (void)!write(1, b, k);
  static volatile sig_atomic_t once = 0;
  if (!once) {
    once = 1;
    signal(SIGSEGV, SIG_DFL);
    if (G.running) { std::string s = "schedule: " + opts_str(G.o) + "\n" + threads_str(); put(s); }
    if (describe) put(describe());
  }
  (void)!write(1, "\nVS-END\n", 8);
  _exit(10);
}
void install_handlers() {
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = crash_handler;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
}

std::string opts_str(const Opts& o) {
  char b[256];
  snprintf(b, sizeof b, "seed=%lu strat=%s psw=%d pplain=%d pspur=%d pcas=%d peintr=%d ptimer=%d sigpick=%d autotime=%d",
           (unsigned long)o.seed, o.strat == RANDOM_WALK ? "rw" : o.strat == PCT ? "pct" : "rr", o.pswitch, o.pplain, o.pspur, o.pcasfail, o.peintr, o.ptimer, o.sigpick, (int)o.autotime);
  return b;
}
Opts random_opts(Rng& r) {
  Opts o;
  o.seed = r.next() >> 1;
  switch (r.below(8)) {
    case 0: case 1: o.strat = PCT; break;
    case 2: o.strat = ROUND_ROBIN; break;
    default: o.strat = RANDOM_WALK;
  }
  static const int ps[] = {20, 100, 256, 512, 1024};
  o.pswitch = ps[r.below(5)];
  static const int pp[] = {0, 0, 0, 60, 400};
  o.pplain = pp[r.below(5)];
  static const int sp[] = {0, 0, 100, 400};
  o.pspur = sp[r.below(4)];
  static const int cf[] = {0, 0, 200};
  o.pcasfail = cf[r.below(3)];
  static const int pt[] = {0, 10, 60, 200};
  o.ptimer = pt[r.below(4)];
  o.sigpick = r.below(3);
  return o;
}

// ---------------------------------------------------------------- maps keyed by address
template <class V> struct AMap {
  struct Slot { uintptr_t key; uint32_t gen; V v; };
  Slot* t = nullptr;
  size_t cap = 0, cnt = 0;
  explicit AMap(size_t c) : cap(c) { t = (Slot*)calloc(c, sizeof(Slot)); }
  static size_t h(uintptr_t k) { return (size_t)((k >> 2) * 0x9E3779B97F4A7C15ull >> 20); }
  void clear() { cnt = 0; }
  V* find(uintptr_t k) {
    for (size_t i = h(k);; i++) {
      Slot& s = t[i & (cap - 1)];
      if (s.gen != G.gen) return nullptr;
      if (s.key == k) return &s.v;
    }
  }
  V* get(uintptr_t k, bool* fresh = nullptr) {
    for (size_t i = h(k);; i++) {
      Slot& s = t[i & (cap - 1)];
      if (s.gen != G.gen) {
        if (cnt * 2 >= cap) { grow(); return get(k, fresh); }
        s.gen = G.gen; s.key = k; s.v.reset(); cnt++;
        if (fresh) *fresh = true;
        return &s.v;
      }
      if (s.key == k) { if (fresh) *fresh = false; return &s.v; }
    }
  }
  void grow() {
    Slot* o = t; size_t oc = cap;
    cap *= 2; t = (Slot*)calloc(cap, sizeof(Slot)); cnt = 0;
    for (size_t j = 0; j < oc; j++) if (o[j].gen == G.gen) {
      for (size_t i = h(o[j].key);; i++) { Slot& s = t[i & (cap - 1)]; if (s.gen != G.gen) { memcpy((void*)&s, (void*)&o[j], sizeof s); cnt++; break; } }
    }
    free(o);
  }
};

struct Wl {  // waiter list
  uint16_t n; int16_t a[MAXTH];
  void add(int i) { a[n++] = (int16_t)i; }
  bool has(int i) const { for (int k = 0; k < n; k++) if (a[k] == i) return true; return false; }
  bool del(int i) { for (int k = 0; k < n; k++) if (a[k] == i) { memmove(a + k, a + k + 1, (n - k - 1) * sizeof a[0]); n--; return true; } return false; }
};
struct Obj {
  enum K : uint8_t { NONE, MUTEX, COND, RW, SPIN, SEM, ONCE } k;
  bool inited;
  int owner; int cnt; int kind;
  uint32_t val;
  int readers;
  VC vc, rvc;
  Wl* w; Wl* rd;
  void reset() { k = NONE; inited = false; owner = -1; cnt = 0; kind = 0; val = 0; readers = 0; vc.reset(); rvc.reset(); if (!w) w = (Wl*)malloc(sizeof(Wl)); w->n = 0; if (!rd) rd = (Wl*)malloc(sizeof(Wl)); rd->n = 0; }
};
static AMap<Obj> objs(1024);

struct AtomS { VC rel; bool any; void reset() { rel.reset(); any = false; } };
static AMap<AtomS> atoms(1024);

struct Ent { uint8_t tid, mask, wr, at; uint32_t clk; uint32_t pc; };
struct Gran { uint8_t n; Ent e[20]; void reset() { n = 0; } };
static AMap<Gran> grans(8192);

// ---------------------------------------------------------------- arena
static char* const AR_BASE = (char*)0x200000000000ull;
static const size_t AR_SIZE = 512ull << 20;
static uint8_t* ar_shadow = nullptr;  // one byte per 8 bytes: 0 ok, 1 redzone/unallocated, 2 freed, 3 destroyed
static size_t ar_top = 0;
static std::map<size_t, std::vector<char*>>* ar_free = nullptr;
static std::vector<std::pair<char*, size_t>>* ar_quar = nullptr;
static inline bool in_arena(const void* p) { return (size_t)((const char*)p - AR_BASE) < AR_SIZE; }
static void ar_init() {
  if (ar_shadow) return;
  void* p = mmap(AR_BASE, AR_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != AR_BASE) { fprintf(stderr, "arena mmap failed\n"); _exit(3); }
  ar_shadow = (uint8_t*)mmap(nullptr, AR_SIZE / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  ar_free = new std::map<size_t, std::vector<char*>>();
  ar_quar = new std::vector<std::pair<char*, size_t>>();
}
static void set_shadow(void* p, size_t n, uint8_t v) {
  size_t o = ((char*)p - AR_BASE) / 8;
  memset(ar_shadow + o, v, (n + 7) / 8);
}
// block layout: [32 header: size | redzone][payload][16+ redzone]; block size is a multiple of 64
static void* ar_alloc(size_t n) {
  RT rt;
  ar_init();
  size_t blk = ((n + 7) / 8 * 8 + 32 + 32 + 63) / 64 * 64;
  char* b = nullptr;
  auto it = ar_free->find(blk);
  if (it != ar_free->end() && !it->second.empty()) { b = it->second.back(); it->second.pop_back(); }
  else {
    if (ar_top + blk > AR_SIZE) { fprintf(stderr, "arena exhausted\n"); _exit(3); }
    b = AR_BASE + ar_top; ar_top += blk;
  }
  *(size_t*)b = n;
  *(size_t*)(b + 8) = blk;
  set_shadow(b, blk, 1);
  set_shadow(b + 32, n, 0);
  stats.allocs++;
  return b + 32;
}
static void clear_gran(void* p, size_t n) {
  for (uintptr_t g = (uintptr_t)p >> 3; g <= ((uintptr_t)p + n - 1) >> 3; g++) { Gran* x = grans.find(g << 3); if (x) x->n = 0; AtomS* a = atoms.find(g << 3); if (a) a->reset(); AtomS* a2 = atoms.find((g << 3) + 4); if (a2) a2->reset(); }
}
static void ar_release(char* b) { size_t n = *(size_t*)b, blk = *(size_t*)(b + 8); (void)n; set_shadow(b, blk, 1); (*ar_free)[blk].push_back(b); }
static void ar_dealloc(void* p) {
  RT rt;
  char* b = (char*)p - 32;
  size_t n = *(size_t*)b;
  if (G.running) {
    if (ar_shadow[((char*)p - AR_BASE) / 8] == 2) violation("uaf", "double delete of a heap block");
    clear_gran(p, n ? n : 1);
    set_shadow(p, n ? n : 1, 2);
    ar_quar->push_back({b, n});
  } else {
    ar_release(b);
  }
}
void* obj_alloc(size_t n) { return ar_alloc(n); }
void obj_poison(void* p, size_t n) { RT rt; if (in_arena(p)) set_shadow(p, n, 3); clear_gran(p, n); for (uintptr_t a = (uintptr_t)p; a < (uintptr_t)p + n; a += 4) { Obj* o = objs.find(a); if (o) {
      if (o->w->n) violation("uaf", std::string("object destroyed while a thread is still blocked inside it"));
      o->reset(); } } }
void obj_unpoison(void* p, size_t n) { RT rt; if (in_arena(p)) set_shadow(p, n, 0); }
bool is_poisoned(const void* p) { return in_arena(p) && ar_shadow && ar_shadow[((const char*)p - AR_BASE) / 8] != 0; }

static void check_poison(const void* p, const char* what, void* pc) {
  if (!in_arena(p) || !ar_shadow) return;
  uint8_t v = ar_shadow[((const char*)p - AR_BASE) / 8];
  if (v == 0) return;
  char b[200];
  snprintf(b, sizeof b, "%s touches %s memory %p (pc %p)", what, v == 1 ? "out-of-bounds" : v == 2 ? "freed" : "destroyed-object", p, pc);
  violation(v == 1 ? "oob" : "uaf", b);
}

// ---------------------------------------------------------------- scheduler
static inline bool spinparked(Th* t) { return t->spin_epoch == G.epoch && t->spin >= SPINK; }
static inline bool can_run(Th* t) { return t->st == RUNNABLE && !spinparked(t); }
static void bump() { G.epoch++; }
void progress() { G.epoch++; G.last_op = G.steps; G.plain_run = 0; G.fair = G.fairrand = false; if (tl) { tl->spur_budget = 2; tl->eintr_budget = 2; } }

static int64_t dl_mono(Th* t) { return t->real_clk ? t->dl - G.roff : t->dl; }
static void fire_expired() {
  for (int i = 0; i < G.n; i++) {
    Th* t = th[i];
    if (t->st == BLOCKED && t->timed && dl_mono(t) <= G.mono) { t->fired = true; t->st = RUNNABLE; bump(); }
  }
}
int64_t next_timer() {
  int64_t best = -1;
  for (int i = 0; i < G.n; i++) { Th* t = th[i]; if (t->st == BLOCKED && t->timed) { int64_t d = dl_mono(t); if (d < 0) d = 0; if (best < 0 || d < best) best = d; } }
  return best;
}
int64_t mono_now() { return G.mono; }
int64_t real_now() { return G.mono + G.roff; }
void advance_to(int64_t t) { if (t > G.mono) G.mono = t; fire_expired(); }
void jump_real(int64_t d) { G.roff += d; fire_expired(); }
static void fire_earliest() { int64_t d = next_timer(); if (d >= 0) advance_to(d > G.mono ? d : G.mono); }

static Th* choose(Th* s, bool yielding) {
  Th* c[MAXTH];
  int n = 0;
  for (int i = 0; i < G.n; i++) if (can_run(th[i])) c[n++] = th[i];
  if (n == 0) return nullptr;
  if (n == 1) return c[0];
  bool cs = can_run(s);
  if (G.fair) {  // strict round robin, later uniformly random (breaks lockstep between back-off loops)
    if (G.fairrand) return c[G.rng.below((uint32_t)n)];
    for (int k = 1; k <= G.n; k++) { Th* t = th[(s->id + k) % G.n]; if (can_run(t)) return t; }
  }
  switch (G.o.strat) {
    case RANDOM_WALK:
      if (cs && !yielding && s->consec < CONSEC && !G.rng.chance(G.o.pswitch)) return s;
      if (yielding && cs) { // somebody else
        int k = G.rng.below(n - 1);
        for (int i = 0; i < n; i++) { if (c[i] == s) continue; if (k-- == 0) return c[i]; }
      }
      return c[G.rng.below(n)];
    case PCT: {
      if (yielding || s->consec >= CONSEC || G.rng.chance(12)) { int lo = 0; for (int i = 0; i < G.n; i++) if (th[i]->prio < lo) lo = th[i]->prio; s->prio = lo - 1; }
      Th* b = c[0];
      for (int i = 1; i < n; i++) if (c[i]->prio > b->prio) b = c[i];
      return b;
    }
    case ROUND_ROBIN:
      if (cs && !yielding && s->consec < 1 + (1024 - G.o.pswitch) / 64) return s;
      for (int k = 1; k <= G.n; k++) { Th* t = th[(s->id + k) % G.n]; if (can_run(t)) return t; }
  }
  return c[0];
}

static void stuck() {
  violation("stuck", "no worker can make progress but not all of them are finished");
}

static void quiesce() {
  if (G.o.autotime && next_timer() >= 0) { fire_earliest(); return; }
  stats.quiescent++;
  bool ok;
  { RT rt; G.fault_quiet++; ok = (*G.quiescent)(); G.fault_quiet--; }
  if (!ok) stuck();
  bump();
}

static void hand_to(Th* s, Th* n, bool wait) {
  stats.switches++;
  G.hash = (G.hash ^ (uint64_t)(n->id + 1)) * 0x100000001B3ull ^ (G.steps << 1);
  n->consec = 0;
  fwake(n->go);
  if (wait) fwait(s->go);
}

static void resched(Th* s, bool yielding) {
  for (;;) {
    Th* n = choose(s, yielding);
    if (n) {
      if (n != s) hand_to(s, n, true);
      else s->consec++;
      return;
    }
    quiesce();
  }
}

static void step_limits() {
  uint64_t d = G.steps - G.last_op;
  if (d > G.o.maxsteps) {
    G.fair = true;
    if (d > 2 * G.o.maxsteps) G.fairrand = true;
    if (d > 3 * G.o.maxsteps) violation("livelock", "an operation keeps executing without completing under a fair fault-free schedule");
  }
}

static void sp(Th* s, bool yielding = false) {
  G.steps++; stats.steps++;
  if ((G.steps & 1023) == 0) step_limits();
  if (G.o.autotime && G.o.ptimer && !G.fair && G.rng.chance(G.o.ptimer)) fire_earliest();
  resched(s, yielding);
}
static void spin_note(Th* s, SpinEv e) {
  if (spin_observer) { RT rt; spin_observer(s->id, e); return; }
  if (s->spin_epoch != G.epoch) { s->spin_epoch = G.epoch; s->spin = 0; }
  s->spin++;
  if (s->spin >= SPINK) resched(s, true);  // parked until somebody makes progress
}

// block current thread; returns when made RUNNABLE and scheduled
static void block(Th* s, const char* why, const void* obj) {
  s->st = BLOCKED; s->why = why; s->obj = obj;
  stats.blocks++;
  resched(s, false);
}
static void arm(Th* s, bool real, const struct timespec* ts) {
  s->timed = true; s->fired = false; s->real_clk = real;
  __int128 v = (__int128)ts->tv_sec * 1000000000 + ts->tv_nsec;
  const int64_t lim = INT64_MAX / 2;
  if (v > lim) { s->timed = false; s->dl = INT64_MAX; return; }   // more than a century from now: does not expire
  if (v < -lim) v = -lim;
  s->dl = (int64_t)v;
}
static void disarm(Th* s) { s->timed = false; s->fired = false; }
static bool expired(Th* s) { return dl_mono(s) <= G.mono; }
static bool bad_ts(const struct timespec* ts) { return ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000; }

void point() { Th* s = me(); if (s) sp(s); }
void note(uint64_t v) { G.hash = (G.hash ^ v) * 0x100000001B3ull; }
bool active() { return tl != nullptr && G.running; }
int self() { return tl ? tl->id : -1; }
void park() {
  Th* s = tl;
  RT rt;
  s->st = PARKED; s->why = "park";
  resched(s, false);
}
void join_all() { if (tl) for (int i = 0; i < G.n && i < NV; i++) if (i != tl->id) { tl->vc.join(th[i]->vc); th[i]->vc.c[i]++; } }
void unpark(int i) { th[i]->st = RUNNABLE; th[i]->spur_budget = 2; th[i]->eintr_budget = 2; progress(); }
bool is_parked(int t) { return th[t]->st == PARKED; }
bool is_done(int t) { return th[t]->st == DONE; }
bool is_blocked(int t) { return th[t]->st == BLOCKED || th[t]->st == RUNNABLE; }
const char* block_reason(int t) { return th[t]->st == BLOCKED ? th[t]->why : "spin"; }
Wait wait_of(int t, int64_t& until) {
  Th* s = th[t];
  if (s->st == RUNNABLE) return W_SPIN;
  if (s->st != BLOCKED) return W_NONE;
  if (!s->timed) return W_ASLEEP;
  until = dl_mono(s);
  return W_TIMER;
}
uint64_t yields(int t) { return th[t]->yields; }

static void* pool_main(void* a) {
  Th* s = (Th*)a;
  pthread_attr_t at;
  pthread_getattr_np(pthread_self(), &at);
  void* lo; size_t sz;
  pthread_attr_getstack(&at, &lo, &sz);
  pthread_attr_destroy(&at);
  s->stk_lo = (char*)lo; s->stk_hi = (char*)lo + sz;
  s->altstk = (char*)malloc(65536);
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = s->altstk; ss.ss_size = 65536;
  sigaltstack(&ss, nullptr);
  for (;;) {
    fwait(s->go);
    tl = s;
    (*G.body)(s->id);
    tl_rt++;
    s->st = DONE;
    bump();
    G.live--;
    G.last_op = G.steps;
    if (G.live == 0) {
      tl = nullptr; tl_rt--;
      fwake(G.done);
    } else {
      Th* n;
      tl_rt--;
      while (!(n = choose(s, false))) quiesce();
      tl = nullptr;
      hand_to(s, n, false);
    }
  }
  return nullptr;
}

static void ensure_pool(int n) {
  while (n_pool < n) {
    Th* t = new Th();
    t->id = n_pool;
    th[n_pool] = t;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 512 * 1024);
    if (pthread_create(&t->pt, &at, pool_main, t) != 0) { fprintf(stderr, "pthread_create failed\n"); _exit(3); }
    pthread_attr_destroy(&at);
    n_pool++;
  }
}

void pin(int cpu_index) {
  cpu_set_t have, s;
  if (sched_getaffinity(0, sizeof have, &have)) return;
  int n = CPU_COUNT(&have);
  if (n < 1) return;
  int k = cpu_index % n;
  for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &have) && k-- == 0) { CPU_ZERO(&s); CPU_SET(i, &s); sched_setaffinity(0, sizeof s, &s); return; }
}

uint64_t run(int n, const Opts& o, const std::function<void(int)>& body, const std::function<bool()>& quiescent) {
  ar_init();
  ensure_pool(n);
  G.n = n; G.live = n; G.o = o;
  G.rng = Rng(o.seed ^ 0xABCDEF);
  G.epoch = 1; G.plain_run = 0; G.steps = 0; G.last_op = 0; G.hash = 0xcbf29ce484222325ull; G.fair = G.fairrand = false;
  G.race = o.race && n <= NV;
  G.mono = 1000ll * 1000000000;
  G.roff = 1700000000ll * 1000000000 - G.mono + 123456789;
  G.body = &body; G.quiescent = &quiescent;
  G.fault_quiet = 0;
  G.gen++;
  objs.clear(); atoms.clear(); grans.clear();
  for (int i = 0; i < n; i++) {
    Th* t = th[i];
    t->st = RUNNABLE; t->timed = t->fired = t->spur = false;
    t->spin = 0; t->spin_epoch = 0; t->consec = 0; t->prio = (int)G.rng.below(1000); t->yields = 0;
    t->spur_budget = 2; t->eintr_budget = 2;
    t->vc.reset(); t->acqp.reset(); t->relf.reset(); t->has_relf = false;
    if (i < NV) t->vc.c[i] = 1;
  }
  G.running = true;
  Th* f = th[G.rng.below(n)];
  f->consec = 0;
  fwake(f->go);
  fwait(G.done);
  G.running = false;
  for (auto& q : *ar_quar) ar_release(q.first);
  ar_quar->clear();
  stats.execs++;
  return G.hash;
}

// ---------------------------------------------------------------- happens-before helpers
static inline void hb_acq(Th* s, const VC& v) { if (G.race) { s->vc.join(v); stats.hb_edges++; } }
static inline void hb_rel(Th* s, VC& v) { if (G.race) { v.join(s->vc); s->vc.c[s->id]++; } }

static Obj* obj(const void* p, Obj::K k) {
  check_poison(p, "synchronisation call", __builtin_return_address(0));
  Obj* o = objs.get((uintptr_t)p);
  if (o->k == Obj::NONE) {
    o->k = k; o->inited = true;
    RT rt;
    if (k == Obj::MUTEX) o->kind = ((pthread_mutex_t*)p)->__data.__kind & 3;
    if (k == Obj::SEM) { int v = 0; get_sem_getvalue()((sem_t*)p, &v); o->val = (uint32_t)v; }
  }
  return o;
}
static void wake_all(Wl* w) { for (int i = 0; i < w->n; i++) { Th* t = th[w->a[i]]; if (t->st == BLOCKED) t->st = RUNNABLE; } if (w->n) bump(); }

static void misuse(const char* m) { if (!allow_pthread_errors) violation("pthread-misuse", m); }

// mutex ---------------------------------------------------------
static int m_lock(Th* s, pthread_mutex_t* m, bool timed, bool isreal, const struct timespec* ts, const char* why) {
  Obj* o = obj(m, Obj::MUTEX);
  if (o->owner == s->id) {
    if (o->kind == PTHREAD_MUTEX_RECURSIVE) { o->cnt++; return 0; }
    if (o->kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
  }
  if (o->owner < 0) { o->owner = s->id; o->cnt = 1; hb_acq(s, o->vc); bump(); return 0; }
  if (timed) { if (bad_ts(ts)) return EINVAL; arm(s, isreal, ts); }
  for (;;) {
    if (timed && expired(s)) { disarm(s); stats.timeouts++; return ETIMEDOUT; }
    o->w->add(s->id);
    block(s, why, m);
    o = objs.get((uintptr_t)m);
    o->w->del(s->id);
    if (o->owner < 0) break;
  }
  disarm(s);
  o->owner = s->id; o->cnt = 1; hb_acq(s, o->vc); bump();
  return 0;
}
static int m_unlock(Th* s, pthread_mutex_t* m) {
  Obj* o = obj(m, Obj::MUTEX);
  if (o->owner != s->id) {
    if (o->kind == PTHREAD_MUTEX_RECURSIVE || o->kind == PTHREAD_MUTEX_ERRORCHECK) return EPERM;
    misuse(o->owner < 0 ? "pthread_mutex_unlock of an unlocked mutex" : "pthread_mutex_unlock by a thread that does not own it");
    if (o->owner < 0) return 0;
  }
  if (--o->cnt > 0) return 0;
  o->owner = -1; hb_rel(s, o->vc);
  wake_all(o->w);
  bump();
  return 0;
}
static int c_wait(Th* s, pthread_cond_t* c, pthread_mutex_t* m, bool timed, bool isreal, const struct timespec* ts) {
  stats.syncops++;
  if (timed && bad_ts(ts)) return EINVAL;
  Obj* mo = obj(m, Obj::MUTEX);
  if (mo->owner != s->id) misuse("condition wait without owning the mutex");
  sp(s);
  Obj* o = obj(c, Obj::COND);
  o->w->add(s->id);
  bool imm = false;
  if (timed) { arm(s, isreal, ts); if (expired(s)) { imm = true; G.mono++; fire_expired(); } }  // even an expired wait takes a moment
  s->spur = false;
  if (!imm && s->spur_budget > 0 && !G.fair && G.o.pspur && G.rng.chance(G.o.pspur)) { s->spur_budget--; s->spur = true; imm = true; stats.spurious++; }
  int savecnt = mo->cnt;
  mo = obj(m, Obj::MUTEX);
  mo->cnt = 1;
  m_unlock(s, m);
  if (imm) resched(s, true);
  else block(s, "condvar wait", c);
  int r = 0;
  Obj* o2 = objs.find((uintptr_t)c);
  if (o2 && o2->k == Obj::COND && o2->w->has(s->id)) {
    o2->w->del(s->id);
    if (!s->spur && timed) { r = ETIMEDOUT; stats.timeouts++; }
  }
  disarm(s);
  s->spur = false;
  m_lock(s, m, false, false, nullptr, "mutex reacquire after wait");
  mo = obj(m, Obj::MUTEX);
  mo->cnt = savecnt;
  return r;
}
static void c_signal(Th* s, pthread_cond_t* c, bool all) {
  stats.syncops++;
  sp(s);
  Obj* o = obj(c, Obj::COND);
  stats.signals++;
  if (!o->w->n) return;
  if (all) {
    for (int i = 0; i < o->w->n; i++) { Th* t = th[o->w->a[i]]; t->st = RUNNABLE; }
    o->w->n = 0;
  } else {
    int k = G.o.sigpick == 1 ? 0 : G.o.sigpick == 2 ? o->w->n - 1 : (int)G.rng.below(o->w->n);
    Th* t = th[o->w->a[k]];
    o->w->del(t->id);
    t->st = RUNNABLE;
  }
  bump();
}
// rwlock --------------------------------------------------------
static int rw_rd(Th* s, pthread_rwlock_t* l, int mode, bool isreal, const struct timespec* ts) {  // mode 0 block 1 try 2 timed
  stats.syncops++; sp(s);
  Obj* o = obj(l, Obj::RW);
  if (mode == 2 && bad_ts(ts)) return EINVAL;
  if (o->owner == s->id) return mode == 1 ? EBUSY : EDEADLK;
  if (o->owner >= 0) {
    if (mode == 1) return EBUSY;
    if (mode == 2) arm(s, isreal, ts);
    for (;;) {
      if (mode == 2 && expired(s)) { disarm(s); stats.timeouts++; return ETIMEDOUT; }
      o->w->add(s->id); block(s, "rwlock rdlock", l);
      o = objs.get((uintptr_t)l); o->w->del(s->id);
      if (o->owner < 0) break;
    }
    disarm(s);
  }
  o->rd->add(s->id);
  hb_acq(s, o->vc); bump();
  return 0;
}
static int rw_wr(Th* s, pthread_rwlock_t* l, int mode, bool isreal, const struct timespec* ts) {
  stats.syncops++; sp(s);
  Obj* o = obj(l, Obj::RW);
  if (mode == 2 && bad_ts(ts)) return EINVAL;
  if (o->owner == s->id) return mode == 1 ? EBUSY : EDEADLK;
  if (o->owner >= 0 || o->rd->n) {
    if (mode == 1) return EBUSY;
    if (mode == 2) arm(s, isreal, ts);
    for (;;) {
      if (mode == 2 && expired(s)) { disarm(s); stats.timeouts++; return ETIMEDOUT; }
      o->w->add(s->id); block(s, "rwlock wrlock", l);
      o = objs.get((uintptr_t)l); o->w->del(s->id);
      if (o->owner < 0 && !o->rd->n) break;
    }
    disarm(s);
  }
  o->owner = s->id;
  hb_acq(s, o->vc); hb_acq(s, o->rvc); bump();
  return 0;
}
static int rw_un(Th* s, pthread_rwlock_t* l) {
  stats.syncops++; sp(s);
  Obj* o = obj(l, Obj::RW);
  if (o->owner == s->id) { o->owner = -1; hb_rel(s, o->vc); }
  else if (o->rd->del(s->id)) { hb_rel(s, o->rvc); }
  else { misuse("pthread_rwlock_unlock by a thread that holds nothing"); return EPERM; }
  wake_all(o->w); bump();
  return 0;
}
// sem -----------------------------------------------------------
static int sm_wait(Th* s, sem_t* p, int mode, bool isreal, const struct timespec* ts) {
  stats.syncops++; sp(s);
  Obj* o = obj(p, Obj::SEM);
  if (mode == 2 && bad_ts(ts)) { errno = EINVAL; return -1; }
  if (o->val == 0) {
    if (mode == 1) { errno = EAGAIN; return -1; }
    if (mode == 2) arm(s, isreal, ts);
    for (;;) {
      if (mode == 2 && expired(s)) { disarm(s); stats.timeouts++; errno = ETIMEDOUT; return -1; }
      if (s->eintr_budget > 0 && !G.fair && G.o.peintr && G.rng.chance(G.o.peintr)) { s->eintr_budget--; stats.eintr++; disarm(s); bump(); errno = EINTR; return -1; }
      o->w->add(s->id); block(s, "semaphore wait", p);
      o = objs.get((uintptr_t)p); o->w->del(s->id);
      if (o->val > 0) break;
    }
    disarm(s);
  }
  o->val--;
  hb_acq(s, o->vc); bump();
  return 0;
}

// ---------------------------------------------------------------- race detector
static void race_report(const Ent& e, Th* s, uintptr_t a, bool wr, bool at, void* pc) {
  char b[300];
  snprintf(b, sizeof b, "data race at %p: worker %d %s%s (pc 0x%lx) is unordered with worker %d %s%s (pc 0x%x)",
           (void*)a, s->id, at ? "atomic " : "", wr ? "write" : "read", (unsigned long)pc, e.tid, e.at ? "atomic " : "", e.wr ? "write" : "read", e.pc);
  violation("race", b);
}
static void rec(Th* s, uintptr_t a, unsigned size, bool wr, bool at, void* pc) {
  while (size) {
    uintptr_t g = a & ~(uintptr_t)7;
    unsigned off = a - g, k = 8 - off < size ? 8 - off : size;
    uint8_t mask = (uint8_t)(((1u << k) - 1) << off);
    Gran* G_ = grans.get(g);
    stats.races_checked++;
    int w = 0;
    bool merged = false;
    for (int i = 0; i < G_->n; i++) {
      Ent& e = G_->e[i];
      bool keep = true;
      if (e.tid != s->id) {
        bool ordered = e.clk <= s->vc.c[e.tid];
        if ((e.mask & mask) && (wr || e.wr) && !(e.at && at) && !ordered) race_report(e, s, a, wr, at, pc);
        if (ordered && wr && !at && (e.mask & ~mask) == 0) keep = false;
      } else if (e.wr == wr && e.at == at) {
        if ((e.mask & ~mask) == 0) { if (merged) keep = false; else { e.mask = mask; e.clk = s->vc.c[s->id]; e.pc = (uint32_t)(uintptr_t)pc; merged = true; } }
      } else if (wr && !at && (e.mask & ~mask) == 0) keep = false;
      if (keep) { if (w != i) G_->e[w] = G_->e[i]; w++; }
    }
    G_->n = (uint8_t)w;
    if (!merged) {
      if (G_->n == 20) { memmove(G_->e, G_->e + 1, sizeof(Ent) * 19); G_->n--; }
      Ent& e = G_->e[G_->n++];
      e.tid = (uint8_t)s->id; e.mask = mask; e.wr = wr; e.at = at; e.clk = s->vc.c[s->id]; e.pc = (uint32_t)(uintptr_t)pc;
    }
    a += k; size -= k;
  }
}
static void step_plain() { if (G.plain_run > (1u << 26)) violation("livelock", "an operation keeps executing without reaching any synchronisation point or completing"); }
static void plain(void* p, unsigned n, bool wr, void* pc) {
  Th* s = me();
  if (!s) return;
  stats.plain++;
  if ((++G.plain_run & 0xffffff) == 0) step_plain();
  check_poison(p, wr ? "write" : "read", pc);
  if (n > 8) check_poison((char*)p + n - 1, wr ? "write" : "read", pc);
  if (G.o.pplain && !((char*)p >= s->stk_lo && (char*)p < s->stk_hi) && !G.fair && G.rng.chance(G.o.pplain)) sp(s);
  if (G.race) rec(s, (uintptr_t)p, n, wr, false, pc);
}

enum { MO_RLX, MO_CON, MO_ACQ, MO_REL, MO_AR, MO_SC };
static inline bool is_acq(int m) { return m == MO_CON || m == MO_ACQ || m == MO_AR || m == MO_SC; }
static inline bool is_rel(int m) { return m == MO_REL || m == MO_AR || m == MO_SC; }

static void at_load(Th* s, uintptr_t a, unsigned sz, int mo, void* pc) {
  if (!G.race) return;
  AtomS* x = atoms.find(a);
  if (x && x->any) { if (is_acq(mo)) hb_acq(s, x->rel); else s->acqp.join(x->rel); }
  rec(s, a, sz, false, true, pc);
}
static void at_store(Th* s, uintptr_t a, unsigned sz, int mo, bool rmw, void* pc) {
  if (!G.race) return;
  AtomS* x = atoms.get(a);
  if (!rmw) { x->rel.reset(); x->any = false; }
  if (is_rel(mo)) { x->rel.join(s->vc); x->any = true; }
  else if (s->has_relf) { x->rel.join(s->relf); x->any = true; }
  rec(s, a, sz, true, true, pc);
  if (is_rel(mo)) s->vc.c[s->id]++;
}
static void fence(int mo) {
  Th* s = me();
  if (!s || !G.race) return;
  if (is_acq(mo)) s->vc.join(s->acqp);
  if (is_rel(mo)) { s->relf = s->vc; s->has_relf = true; s->vc.c[s->id]++; }
}
static Th* at_begin(const volatile void* p, const char* w, void* pc) {
  Th* s = me();
  if (!s) return nullptr;
  stats.atomics++;
  sp(s);
  check_poison((const void*)p, w, pc);
  return s;
}
template <class T> static T a_load(const volatile T* p, int mo, void* pc) {
  Th* s = at_begin(p, "atomic load", pc);
  T v = __atomic_load_n(p, __ATOMIC_SEQ_CST);
  if (s) { at_load(s, (uintptr_t)p, sizeof(T), mo, pc); spin_note(s, EV_LOAD); }
  return v;
}
template <class T> static void a_store(volatile T* p, T v, int mo, void* pc) {
  Th* s = at_begin(p, "atomic store", pc);
  T old = __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);
  if (s) { at_store(s, (uintptr_t)p, sizeof(T), mo, false, pc); if (old != v) bump(); else spin_note(s, EV_RMW); }
}
template <class T, class F> static T a_rmw(volatile T* p, int mo, F f, void* pc) {
  Th* s = at_begin(p, "atomic rmw", pc);
  T old = __atomic_load_n(p, __ATOMIC_SEQ_CST), nw;
  do { nw = f(old); } while (!__atomic_compare_exchange_n(p, &old, nw, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST));
  if (s) { at_load(s, (uintptr_t)p, sizeof(T), mo, pc); at_store(s, (uintptr_t)p, sizeof(T), mo, true, pc); if (old != nw) bump(); else spin_note(s, EV_RMW); }
  return old;
}
template <class T> static bool a_cas(volatile T* p, T* exp, T v, bool weak, int mo, int fmo, void* pc) {
  Th* s = at_begin(p, "atomic cas", pc);
  if (s && weak && G.o.pcasfail && !G.fair && G.rng.chance(G.o.pcasfail)) {
    T cur = __atomic_load_n(p, __ATOMIC_SEQ_CST);
    stats.casfail++;
    *exp = cur;
    at_load(s, (uintptr_t)p, sizeof(T), fmo, pc);
    spin_note(s, EV_RMW);
    return false;
  }
  T e = *exp;
  bool ok = __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
  if (s) {
    if (ok) { at_load(s, (uintptr_t)p, sizeof(T), mo, pc); at_store(s, (uintptr_t)p, sizeof(T), mo, true, pc); if (*exp != v) bump(); else spin_note(s, EV_RMW); }
    else { at_load(s, (uintptr_t)p, sizeof(T), fmo, pc); }
  }
  if (!ok) { *exp = e; if (s) spin_note(s, EV_RMW); }
  return ok;
}
}  // namespace vs

using namespace vs;

// ---------------------------------------------------------------- tsan ABI
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
  void __tsan_read##n(void* p) { plain(p, n, false, PC); } \
  void __tsan_write##n(void* p) { plain(p, n, true, PC); } \
  void __tsan_unaligned_read##n(void* p) { plain(p, n, false, PC); } \
  void __tsan_unaligned_write##n(void* p) { plain(p, n, true, PC); } \
  void __tsan_volatile_read##n(void* p) { plain(p, n, false, PC); } \
  void __tsan_volatile_write##n(void* p) { plain(p, n, true, PC); } \
  void __tsan_unaligned_read_write##n(void* p) { plain(p, n, true, PC); } \
  void __tsan_read_write##n(void* p) { plain(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { if (n) plain(p, (unsigned)n, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { if (n) plain(p, (unsigned)n, true, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) plain(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { plain(p, 8, false, PC); }
void* __tsan_memcpy(void* d, const void* s, unsigned long n) { if (n) { plain((void*)s, n, false, PC); plain(d, n, true, PC); } return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, unsigned long n) { if (n) { plain((void*)s, n, false, PC); plain(d, n, true, PC); } return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, unsigned long n) { if (n) plain(d, n, true, PC); return memset(d, c, n); }
void __tsan_atomic_thread_fence(int mo) { Th* s = me(); if (s) { sp(s); fence(mo); } __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}
#define AT(N, T) \
  T __tsan_atomic##N##_load(const volatile T* p, int mo) { return a_load<T>(p, mo, PC); } \
  void __tsan_atomic##N##_store(volatile T* p, T v, int mo) { a_store<T>(p, v, mo, PC); } \
  T __tsan_atomic##N##_exchange(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, [v](T) { return v; }, PC); } \
  T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, [v](T o) { return (T)(o + v); }, PC); } \
  T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, [v](T o) { return (T)(o - v); }, PC); } \
  T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, [v](T o) { return (T)(o & v); }, PC); } \
  T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, [v](T o) { return (T)(o | v); }, PC); } \
  T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, [v](T o) { return (T)(o ^ v); }, PC); } \
  T __tsan_atomic##N##_fetch_nand(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, [v](T o) { return (T)~(o & v); }, PC); } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo) { return a_cas<T>(p, e, v, false, mo, fmo, PC); } \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo) { return a_cas<T>(p, e, v, true, mo, fmo, PC); } \
  T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo) { a_cas<T>(p, &e, v, false, mo, fmo, PC); return e; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, unsigned long)

// ---------------------------------------------------------------- pthread interposition
#define PASS(name, ...) if (!me()) return get_##name()(__VA_ARGS__); Th* s = tl; stats.syncops++

int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { if (me()) { check_poison(m, "mutex init", PC); Obj* o = objs.find((uintptr_t)m); if (o) o->reset(); } return get_pthread_mutex_init()(m, a); }
int pthread_mutex_destroy(pthread_mutex_t* m) {
  if (me()) { Obj* o = obj(m, Obj::MUTEX); if (o->owner >= 0) misuse("pthread_mutex_destroy of a locked mutex"); o->reset(); }
  return get_pthread_mutex_destroy()(m);
}
int pthread_mutex_lock(pthread_mutex_t* m) { PASS(pthread_mutex_lock, m); sp(s); return m_lock(s, m, false, false, nullptr, "mutex lock"); }
int pthread_mutex_trylock(pthread_mutex_t* m) {
  PASS(pthread_mutex_trylock, m); sp(s);
  Obj* o = obj(m, Obj::MUTEX);
  if (o->owner == s->id && o->kind == PTHREAD_MUTEX_RECURSIVE) { o->cnt++; return 0; }
  if (o->owner >= 0) { spin_note(s, EV_OTHER); return EBUSY; }
  o->owner = s->id; o->cnt = 1; hb_acq(s, o->vc); bump();
  return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) { PASS(pthread_mutex_timedlock, m, ts); sp(s); return m_lock(s, m, true, true, ts, "mutex timedlock"); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) { PASS(pthread_mutex_clocklock, m, c, ts); sp(s); return m_lock(s, m, true, c == CLOCK_REALTIME, ts, "mutex clocklock"); }
int pthread_mutex_unlock(pthread_mutex_t* m) { PASS(pthread_mutex_unlock, m); sp(s); return m_unlock(s, m); }

int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) { if (me()) { check_poison(c, "cond init", PC); Obj* o = objs.find((uintptr_t)c); if (o) o->reset(); } return get_pthread_cond_init()(c, a); }
int pthread_cond_destroy(pthread_cond_t* c) {
  if (me()) { Obj* o = obj(c, Obj::COND); if (o->w->n) violation("uaf", "condition variable destroyed while a thread still waits on it"); o->reset(); return 0; }
  return get_pthread_cond_destroy()(c);
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { PASS(pthread_cond_wait, c, m); return c_wait(s, c, m, false, false, nullptr); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { PASS(pthread_cond_timedwait, c, m, ts); return c_wait(s, c, m, true, true, ts); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) { PASS(pthread_cond_clockwait, c, m, k, ts); return c_wait(s, c, m, true, k == CLOCK_REALTIME, ts); }
int pthread_cond_signal(pthread_cond_t* c) { PASS(pthread_cond_signal, c); c_signal(s, c, false); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { PASS(pthread_cond_broadcast, c); c_signal(s, c, true); return 0; }

int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t* a) { if (me()) { Obj* o = objs.find((uintptr_t)l); if (o) o->reset(); } return get_pthread_rwlock_init()(l, a); }
int pthread_rwlock_destroy(pthread_rwlock_t* l) {
  if (me()) { Obj* o = obj(l, Obj::RW); if (o->owner >= 0 || o->rd->n) misuse("pthread_rwlock_destroy of a held lock"); o->reset(); return 0; }
  return get_pthread_rwlock_destroy()(l);
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { PASS(pthread_rwlock_rdlock, l); return rw_rd(s, l, 0, false, nullptr); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { PASS(pthread_rwlock_wrlock, l); return rw_wr(s, l, 0, false, nullptr); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { PASS(pthread_rwlock_tryrdlock, l); return rw_rd(s, l, 1, false, nullptr); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { PASS(pthread_rwlock_trywrlock, l); return rw_wr(s, l, 1, false, nullptr); }
int pthread_rwlock_timedrdlock(pthread_rwlock_t* l, const struct timespec* ts) { PASS(pthread_rwlock_timedrdlock, l, ts); return rw_rd(s, l, 2, true, ts); }
int pthread_rwlock_timedwrlock(pthread_rwlock_t* l, const struct timespec* ts) { PASS(pthread_rwlock_timedwrlock, l, ts); return rw_wr(s, l, 2, true, ts); }
int pthread_rwlock_clockrdlock(pthread_rwlock_t* l, clockid_t c, const struct timespec* ts) { PASS(pthread_rwlock_clockrdlock, l, c, ts); return rw_rd(s, l, 2, c == CLOCK_REALTIME, ts); }
int pthread_rwlock_clockwrlock(pthread_rwlock_t* l, clockid_t c, const struct timespec* ts) { PASS(pthread_rwlock_clockwrlock, l, c, ts); return rw_wr(s, l, 2, c == CLOCK_REALTIME, ts); }
int pthread_rwlock_unlock(pthread_rwlock_t* l) { PASS(pthread_rwlock_unlock, l); return rw_un(s, l); }

int pthread_spin_init(pthread_spinlock_t* l, int a) { if (me()) { Obj* o = objs.find((uintptr_t)l); if (o) o->reset(); } return get_pthread_spin_init()(l, a); }
int pthread_spin_destroy(pthread_spinlock_t* l) { if (me()) { Obj* o = obj((void*)l, Obj::SPIN); if (o->owner >= 0) misuse("pthread_spin_destroy of a held lock"); o->reset(); return 0; } return get_pthread_spin_destroy()(l); }
int pthread_spin_lock(pthread_spinlock_t* l) {
  PASS(pthread_spin_lock, l); sp(s);
  Obj* o = obj((void*)l, Obj::SPIN);
  while (o->owner >= 0) { o->w->add(s->id); block(s, "spin lock", (void*)l); o = objs.get((uintptr_t)l); o->w->del(s->id); }
  o->owner = s->id; hb_acq(s, o->vc); bump();
  return 0;
}
int pthread_spin_trylock(pthread_spinlock_t* l) {
  PASS(pthread_spin_trylock, l); sp(s);
  Obj* o = obj((void*)l, Obj::SPIN);
  if (o->owner >= 0) { spin_note(s, EV_OTHER); return EBUSY; }
  o->owner = s->id; hb_acq(s, o->vc); bump();
  return 0;
}
int pthread_spin_unlock(pthread_spinlock_t* l) {
  PASS(pthread_spin_unlock, l); sp(s);
  Obj* o = obj((void*)l, Obj::SPIN);
  if (o->owner != s->id) misuse("pthread_spin_unlock by a thread that does not hold it");
  o->owner = -1; hb_rel(s, o->vc); wake_all(o->w); bump();
  return 0;
}
int sem_init(sem_t* p, int sh, unsigned v) { if (me()) { check_poison(p, "sem init", PC); Obj* o = objs.find((uintptr_t)p); if (o) o->reset(); } return get_sem_init()(p, sh, v); }
int sem_destroy(sem_t* p) { if (me()) { Obj* o = obj(p, Obj::SEM); if (o->w->n) violation("uaf", "semaphore destroyed while a thread waits on it"); o->reset(); } return get_sem_destroy()(p); }
int sem_wait(sem_t* p) { PASS(sem_wait, p); return sm_wait(s, p, 0, false, nullptr); }
int sem_trywait(sem_t* p) { PASS(sem_trywait, p); return sm_wait(s, p, 1, false, nullptr); }
int sem_timedwait(sem_t* p, const struct timespec* ts) { PASS(sem_timedwait, p, ts); return sm_wait(s, p, 2, true, ts); }
int sem_clockwait(sem_t* p, clockid_t c, const struct timespec* ts) { PASS(sem_clockwait, p, c, ts); return sm_wait(s, p, 2, c == CLOCK_REALTIME, ts); }
int sem_post(sem_t* p) {
  PASS(sem_post, p); sp(s);
  Obj* o = obj(p, Obj::SEM);
  if (o->val == SEM_VALUE_MAX) { errno = EOVERFLOW; return -1; }
  o->val++; hb_rel(s, o->vc); wake_all(o->w); bump();
  return 0;
}
int sem_getvalue(sem_t* p, int* v) { PASS(sem_getvalue, p, v); sp(s); *v = (int)obj(p, Obj::SEM)->val; return 0; }

int pthread_once(pthread_once_t* c, void (*f)(void)) {
  PASS(pthread_once, c, f); sp(s);
  Obj* o = obj(c, Obj::ONCE);
  while (o->owner >= 0 && o->owner != s->id) { o->w->add(s->id); block(s, "once", c); o = objs.get((uintptr_t)c); o->w->del(s->id); }
  hb_acq(s, o->vc);
  o->owner = s->id;
  struct Fin { Th* s; pthread_once_t* c; ~Fin() { Obj* o = objs.get((uintptr_t)c); o->owner = -1; hb_rel(s, o->vc); wake_all(o->w); bump(); } } fin{s, c};
  return get_pthread_once()(c, f);
}
int sched_yield(void) { PASS(sched_yield); s->yields++; sp(s, true); spin_note(s, EV_YIELD); return 0; }

static void to_ts(int64_t v, struct timespec* ts) { ts->tv_sec = v / 1000000000; ts->tv_nsec = v % 1000000000; }
int clock_gettime(clockid_t c, struct timespec* ts) {
  if (!me() || (c != CLOCK_REALTIME && c != CLOCK_MONOTONIC && c != CLOCK_REALTIME_COARSE && c != CLOCK_MONOTONIC_COARSE && c != CLOCK_BOOTTIME && c != CLOCK_MONOTONIC_RAW))
    return get_clock_gettime()(c, ts);
  to_ts(c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? real_now() : mono_now(), ts);
  return 0;
}
int gettimeofday(struct timeval* tv, void* z) noexcept {
  if (!me()) return get_gettimeofday()(tv, z);
  int64_t v = real_now(); tv->tv_sec = v / 1000000000; tv->tv_usec = v % 1000000000 / 1000; return 0;
}
static int v_sleep(bool real, const struct timespec* abs) {
  Th* s = tl;
  arm(s, real, abs);
  if (!expired(s)) block(s, "sleep", nullptr); else sp(s, true);
  disarm(s);
  return 0;
}
int nanosleep(const struct timespec* r, struct timespec* rem) {
  PASS(nanosleep, r, rem);
  (void)s;
  struct timespec t; to_ts(mono_now() + r->tv_sec * 1000000000ll + r->tv_nsec, &t);
  return v_sleep(false, &t);
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec* r, struct timespec* rem) {
  PASS(clock_nanosleep, c, fl, r, rem);
  (void)s;
  if (fl & TIMER_ABSTIME) return v_sleep(c == CLOCK_REALTIME, r);
  struct timespec t; to_ts(mono_now() + r->tv_sec * 1000000000ll + r->tv_nsec, &t);
  return v_sleep(false, &t);
}

// guards of function-local statics
int __cxa_guard_acquire(unsigned long* g) {
  unsigned char* b = (unsigned char*)g;
  Th* s = me();
  if (!s) return *b == 0;
  sp(s);
  Obj* o = obj(g, Obj::ONCE);
  for (;;) {
    if (*b) { hb_acq(s, o->vc); return 0; }
    if (o->owner < 0) break;
    o->w->add(s->id); block(s, "static initialisation", g); o = objs.get((uintptr_t)g); o->w->del(s->id);
  }
  o->owner = s->id;
  return 1;
}
void __cxa_guard_release(unsigned long* g) noexcept {
  Th* s = me();
  if (s) { a_store<unsigned char>((unsigned char*)g, 1, MO_REL, PC); Obj* o = obj(g, Obj::ONCE); o->owner = -1; hb_rel(s, o->vc); wake_all(o->w); bump(); }
  *(unsigned char*)g = 1;
}
void __cxa_guard_abort(unsigned long* g) noexcept {
  Th* s = me();
  if (s) { Obj* o = obj(g, Obj::ONCE); o->owner = -1; wake_all(o->w); bump(); }
}
#ifndef VS_ASAN
void __assert_fail(const char* e, const char* f, unsigned l, const char* fn) noexcept {
  violation("assert", std::string("assertion failed: ") + e + " at " + f + ":" + std::to_string(l) + " " + fn);
}
#endif
}  // extern C

#ifndef VS_ASAN
static void* do_new(size_t n) {
  if (me()) {
    if (fail_alloc_in > 0 && --fail_alloc_in == 0) throw std::bad_alloc();
    return ar_alloc(n);
  }
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
static void do_del(void* p) { if (!p) return; if (in_arena(p)) ar_dealloc(p); else free(p); }
void* operator new(size_t n) { return do_new(n); }
void* operator new[](size_t n) { return do_new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return do_new(n); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return do_new(n); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { do_del(p); }
void operator delete[](void* p) noexcept { do_del(p); }
void operator delete(void* p, size_t) noexcept { do_del(p); }
void operator delete[](void* p, size_t) noexcept { do_del(p); }
#endif

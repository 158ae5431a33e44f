// Long and large histories on the real types: tens of thousands of recursion levels, readers, objects, phases,
// and permit counts around and beyond every integer width. One real thread speaks for many logical threads
// (pthread_self is answered by this file), so only calls that the specification says do not block are made;
// the result of each is compared with a model, and other logical threads probe the object on the way.
#include "../h/common.h"
#include "../h/free.h"
#include "rstub.h"
#include <pthread.h>
#include <new>
#include <stdarg.h>
#include <unistd.h>
static long live_allocs = 0;
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); live_allocs++; return p; }
void operator delete(void* p) noexcept { if (p) { live_allocs--; free(p); } }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
static unsigned long g_id = 0x10000;
extern "C" __attribute__((noinline)) pthread_t pthread_self(void) noexcept { return (pthread_t)(0x7f0000000000ul + g_id * 64); }
std::vector<ProgDef>& prog_registry() { static std::vector<ProgDef> v; return v; }
std::vector<ISync*>& sync_registry() { static std::vector<ISync*> v; return v; }
using vs::Rng;
static std::string desc;
static uint64_t ops, probes;
[[noreturn]] static void fail(const char* kind, const char* f, ...) { char b[1024]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); vs::violation(kind, std::string(b) + "\nprogram: " + desc + "\n"); }
static void* fresh(size_t n) { void* p = vs::obj_alloc(n); memset(p, 0xA5, (n + 63) / 64 * 64); return p; }
struct Obj { ILock* l; void* p; Obj() : l(nullptr), p(nullptr) {} Obj(ILock* x) : l(x), p(fresh(x->size)) { l->construct(p); } };
static void gone(Obj& o) { int r = o.l->destroy(o.p); if (r != RES_TRUE) fail("unexpected-throw", "destroying an unowned %s: %s", o.l->caps.name, res_str(r).c_str()); free(o.p); o.p = nullptr; }
static int as(unsigned long id, const Obj& o, Op op, int64_t ns = 0) {
  g_id = id; TimeArg a; a.ns = ns; ops++;
  if (op == TRYUNTIL || op == STRYUNTIL) a.ns += o.l->caps.until_system_only ? (a.clk = C_SYSTEM, vs::real_now()) : vs::mono_now();
  return o.l->exec(o.p, op, a, nullptr);
}
// an acquisition that must succeed at once
static Op acqop(Rng& r, const Caps& c, bool sh) {
  uint32_t k = r.below(8);
  if (c.timed && k == 0) return sh ? STRYFOR : TRYFOR;
  if (c.timed && k == 1) return sh ? STRYUNTIL : TRYUNTIL;
  if (k == 2 && !c.spin) return sh ? STRY : TRY;
  return sh ? SLOCK : LOCK;
}
static void must(const char* kind, unsigned long id, const Obj& o, Op op, const char* when, long n) {
  int x = as(id, o, op, 3600ll * 1000000000);
  if (x != RES_TRUE) fail(x >= RES_EXC ? "unexpected-throw" : kind, "%s: %s by thread %lu %s (%ld): %s", o.l->caps.name, op_names[op], id, when, n, res_str(x).c_str());
}
static void mustnot(const char* kind, unsigned long id, const Obj& o, Op op, const char* when, long n) {
  probes++;
  int x = as(id, o, op, 0);
  if (x != RES_FALSE) fail(x >= RES_EXC ? "unexpected-throw" : kind, "%s: %s by thread %lu %s (%ld): %s", o.l->caps.name, op_names[op], id, when, n, res_str(x).c_str());
}
static void must_exc(unsigned long id, const Obj& o, Op op, int code, const char* when, long n) {
  probes++;
  int x = as(id, o, op, 0);
  if (x != RES_EXC + code) fail("misuse-undetected", "%s: %s by thread %lu %s (%ld): %s", o.l->caps.name, op_names[op], id, when, n, res_str(x).c_str());
}
static bool landmark(long i) { return (i & (i - 1)) == 0 || (i & (i + 1)) == 0 || ((i - 1) & (i - 2)) == 0; }
static const long SIZES[] = {3, 100, 127, 128, 129, 255, 256, 257, 300, 1000, 1023, 1025, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 66000, 70000, 131073};
static long size_for(Rng& r, long maxn) { long n; do n = SIZES[r.below(sizeof SIZES / sizeof *SIZES)]; while (n > maxn); return n; }
static long T_mult = 1;

static void p_rec(Rng& r, const Sel& s, long e) {
  std::vector<ILock*> v; for (auto* l : s.locks) if (l->caps.recursive) v.push_back(l);
  if (v.empty()) return;
  ILock* l = v[(size_t)e % v.size()]; long n = size_for(r, 1 << 30); desc = strf("%s to depth %ld", l->caps.name, n);
  Obj o(l); unsigned long A = 5, B = 7;
  for (int round = 0; round < 2; round++) {
    for (long i = 1; i <= n; i++) { must("recursion", A, o, i == 1 ? LOCK : acqop(r, l->caps, false), "at depth", i); if (landmark(i) || i == n || r.below(4096) == 0) mustnot("exclusion", B, o, l->caps.timed && (i & 1) ? TRYFOR : TRY, "while held at depth", i); }
    for (long i = n; i >= 1; i--) {
      must("recursion", A, o, UNLOCK, "leaving depth", i);
      if (i > 1 && (landmark(i) || i == 2 || r.below(4096) == 0)) mustnot("exclusion", B, o, TRY, "while held after leaving depth", i);
      if (i > 1 && l->caps.checked && r.below(9000) == 0) must_exc(B, o, UNLOCK, EPERM, "foreign unlock at depth", i);
    }
    must("recursion", B, o, TRY, "after the outermost unlock from depth", n); mustnot("exclusion", A, o, TRY, "while another holds it", 0); must("recursion", B, o, UNLOCK, "", 0);
    unsigned long t = A; A = B; B = t;
  }
  gone(o);
}
static void p_readers(Rng& r, const Sel& s, long e) {
  std::vector<ILock*> v; for (auto* l : s.locks) if (l->caps.shared) v.push_back(l);
  if (v.empty()) return;
  ILock* l = v[(size_t)e % v.size()];
  long n = size_for(r, !l->caps.checked ? 1 << 30 : r.chance(8) ? 66000 : r.chance(100) ? 5000 : 1100);
  desc = strf("%s with %ld readers", l->caps.name, n);
  Obj o(l);
  std::vector<unsigned long> ids((size_t)n); for (long i = 0; i < n; i++) ids[(size_t)i] = 10 + (unsigned long)i;
  const unsigned long W = 3;
  for (int round = 0; round < 2; round++) {
    for (long i = 1; i <= n; i++) {
      must("false-fail", ids[(size_t)i - 1], o, acqop(r, l->caps, true), "as reader number", i);
      if (landmark(i) || i == n || r.below(4096) == 0) {
        mustnot("rw-exclusion", W, o, l->caps.timed && (i & 1) ? TRYFOR : TRY, "while readers hold it", i);
        if (l->caps.checked) { unsigned long x = ids[r.below((uint32_t)i)]; must_exc(x, o, r.chance(512) ? SLOCK : STRY, EDEADLK, "which is one of the readers", i); must_exc(x, o, UNLOCK, EPERM, "which is one of the readers", i); must_exc(W, o, SUNLOCK, EPERM, "which is no reader", i); }
      }
    }
    int order = (int)r.below(n > 5000 ? 2 : 3);
    if (order == 1) for (long i = 0; i < n / 2; i++) std::swap(ids[(size_t)i], ids[(size_t)(n - 1 - i)]);
    if (order == 2) for (long i = n - 1; i > 0; i--) std::swap(ids[(size_t)i], ids[r.below((uint32_t)i + 1)]);
    for (long i = n; i >= 1; i--) {
      unsigned long x = ids[(size_t)(n - i)];
      must("unexpected-throw", x, o, SUNLOCK, "when readers are", i);
      if (i > 1 && (landmark(i) || i == 2 || r.below(4096) == 0)) {
        mustnot("rw-exclusion", W, o, TRY, "while readers remain", i - 1);
        if (l->caps.checked) { must_exc(x, o, SUNLOCK, EPERM, "which is no longer a reader", i - 1); unsigned long y = ids[(size_t)(n - i + 1) + r.below((uint32_t)i - 1)]; must_exc(y, o, LOCK, EDEADLK, "which is still a reader", i - 1); }
      }
    }
    must("false-fail", W, o, TRY, "after the last reader left, of", n); mustnot("rw-exclusion", ids[0], o, STRY, "while the writer holds it", 0); must("false-fail", W, o, UNLOCK, "", 0);
  }
  gone(o);
}
// many short critical sections
static void p_cycles(Rng& r, const Sel& s, long e) {
  ILock* l = s.locks[(size_t)e % s.locks.size()];
  long n = (l->caps.checked ? 70000 : 140000) * T_mult; desc = strf("%s for %ld critical sections", l->caps.name, n);
  Obj o(l);
  for (long i = 1; i <= n; i++) {
    bool sh = l->caps.shared && (r.next() & 3) == 1; unsigned long id = 10 + (unsigned long)(i % 1000);
    Op op = l->caps.spin ? (i % 3 ? LOCK : TRY) : acqop(r, l->caps, sh);
    must("false-fail", id, o, op, "alone, number", i);
    if (landmark(i) || (i & 1023) == 0) { mustnot(sh ? "rw-exclusion" : "exclusion", 5, o, TRY, "while held, number", i); if (l->caps.shared && !sh) mustnot("rw-exclusion", 5, o, STRY, "while held, number", i); if (sh) { must("false-fail", 5, o, STRY, "beside a reader, number", i); must("unexpected-throw", 5, o, SUNLOCK, "number", i); } }
    must("unexpected-throw", id, o, sh ? SUNLOCK : UNLOCK, "number", i);
  }
  must("false-fail", 7, o, LOCK, "in the end", n); must("false-fail", 7, o, UNLOCK, "in the end", n);
  gone(o);
}
// one thread owning many objects of many types; others own others
static void p_objects(Rng& r, const Sel& s, long e) {
  long n = r.chance(200) ? 5000 : (long)(2 + r.below(1500)); unsigned long nid = 1 + r.below(6); desc = strf("%ld objects among %lu threads", n, nid);
  std::vector<Obj> v; std::vector<unsigned long> own; std::vector<char> sh;
  bool mix = r.chance(512);
  for (long i = 0; i < n; i++) { v.emplace_back(mix ? s.locks[r.below((uint32_t)s.locks.size())] : s.locks[(size_t)e % s.locks.size()]); own.push_back(0); sh.push_back(0); }
  for (long step = 0; step < 4 * n; step++) {
    size_t i = r.below((uint32_t)n); unsigned long id = 10 + r.below((uint32_t)nid);
    const Caps& c = v[i].l->caps;
    if (!own[i]) { bool h = c.shared && r.chance(400); must("independence", id, v[i], acqop(r, c, h), "on a free object", (long)i); own[i] = id; sh[i] = h; }
    else if (r.chance(300)) { mustnot(sh[i] ? "rw-exclusion" : "exclusion", 5, v[i], TRY, "on an owned object", (long)i); if (sh[i]) { must("independence", 5, v[i], STRY, "beside a reader", (long)i); must("unexpected-throw", 5, v[i], SUNLOCK, "", (long)i); } }
    else { must("unexpected-throw", own[i], v[i], sh[i] ? SUNLOCK : UNLOCK, "by the owner", (long)i); own[i] = 0; if (r.chance(250)) { gone(v[i]); v[i] = Obj(s.locks[r.below((uint32_t)s.locks.size())]); } }
  }
  for (size_t i = 0; i < v.size(); i++) {
    if (own[i]) must("unexpected-throw", own[i], v[i], sh[i] ? SUNLOCK : UNLOCK, "by the owner", (long)i);
    must("independence", 7, v[i], LOCK, "in the end", (long)i); must("unexpected-throw", 7, v[i], UNLOCK, "in the end", (long)i);
    gone(v[i]);
  }
}
// creating, using and destroying objects over and over leaves nothing behind
static int sx(const ISync* s, void* p, SOpK op, int64_t n = 1, Tok* tok = nullptr, int64_t ns = 0);
static void p_leak(Rng& r, const Sel& s, long e) {
  ILock* l = s.locks[(size_t)e % s.locks.size()]; ISync* y = s.syncs[(size_t)e % s.syncs.size()];
  const int n = 64; desc = strf("%s and %s created and destroyed", l->caps.name, y->caps.name);
  { Obj w(l); must("independence", 4, w, LOCK, "", 0); must("unexpected-throw", 4, w, UNLOCK, "", 0); gone(w); }
  long base = live_allocs, first = 0; std::vector<void*> keep; keep.reserve((size_t)n * 8);   // no address is used twice
  std::vector<Obj> v; v.reserve(n); long mine = live_allocs - base;
  for (int round = 0; round < 6; round++) {
    for (int i = 0; i < n; i++) {
      v.emplace_back(l); Obj& o = v.back(); unsigned long id = 10 + (unsigned long)r.below(50);
      bool sh = l->caps.shared && r.chance(500); int k = (int)r.below(4);
      must("independence", id, o, acqop(r, l->caps, sh), "on a new object", i);
      mustnot(sh ? "rw-exclusion" : "exclusion", 5, o, TRY, "on an owned object", i);
      if (sh && k) { must("independence", 5, o, STRY, "", i); must("unexpected-throw", 5, o, SUNLOCK, "", i); }
      if (l->caps.checked && k == 2) must_exc(5, o, UNLOCK, EPERM, "which is no owner", i);
      must("unexpected-throw", id, o, sh ? SUNLOCK : UNLOCK, "", i);
    }
    for (auto& o : v) { keep.push_back(o.p); int x = o.l->destroy(o.p); if (x != RES_TRUE) fail("unexpected-throw", "destroying an unowned %s: %s", o.l->caps.name, res_str(x).c_str()); }
    v.clear();
    int64_t c = y->caps.kind == K_BARRIER ? 1 : y->caps.kind == K_SEM ? 1 : 0; long comps = 0; void* p = fresh(y->size); y->construct(p, c, [](void* x) { ++*(long*)x; }, &comps);
    if (c && y->caps.kind == K_BARRIER) sx(y, p, BAAW); else if (c) { sx(y, p, ACQ); sx(y, p, REL); } else sx(y, p, WAIT);
    y->destroy(p); free(p);
    long left = live_allocs - base - mine; probes++;
    if (round == 1) first = left;
    if (round == 5 && left - first > n) fail("leak", "heap blocks still allocated went from %ld to %ld while %d objects were created and destroyed", first, left, n * 4);
  }
  for (void* p : keep) free(p);
}
static int64_t big(Rng& r, int64_t maxv) {
  static const int64_t B[] = {0, 1, 2, 3, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, (1ll << 31) - 1, 1ll << 31, (1ll << 31) + 1, (1ll << 32) - 1, 1ll << 32, (1ll << 32) + 1, 1ll << 33, 1ll << 53, (1ll << 53) + 1, 1ll << 62, INT64_MAX - 1, INT64_MAX};
  int64_t v = r.chance(300) ? maxv - (int64_t)r.below(4) : r.chance(100) ? (int64_t)(r.next() >> (1 + r.below(62))) : B[r.below(sizeof B / sizeof *B)];
  return v < 0 ? 0 : v > maxv ? maxv : v;
}
static int sx(const ISync* s, void* p, SOpK op, int64_t n, Tok* tok, int64_t ns) {
  TimeArg a; a.ns = ns; if (op == TRYAUNTIL) { a.clk = C_SYSTEM; a.ns += vs::real_now(); }
  ops++;
  int r = s->exec(p, op, n, a, tok);
  if (r >= RES_EXC) fail("unexpected-throw", "%s.%s(%ld): %s", s->caps.name, sop_names[op], (long)n, res_str(r).c_str());
  return r;
}
static void p_sem(Rng& r, const Sel& s, long e) {
  std::vector<ISync*> v; for (auto* x : s.syncs) if (x->caps.kind == K_SEM) v.push_back(x);
  ISync* m = v[(size_t)e % v.size()];
  int64_t c = big(r, m->caps.maxv); desc = strf("%s starting with %ld of at most %ld", m->caps.name, (long)c, (long)m->caps.maxv);
  void* p = fresh(m->size); m->construct(p, c, nullptr, nullptr);
  long steps = 40 + (long)r.below(400);
  auto drain = [&](long k) {
    for (long i = 0; i < k; i++) {
      bool ok = c > 0; SOpK op = ok && r.chance(300) ? ACQ : r.chance(300) ? TRYAFOR : r.chance(300) ? TRYAUNTIL : TRYA;
      int x = sx(m, p, op, 1, nullptr, ok ? 1000000000 : 0);
      if (ok && x != RES_TRUE) fail("conservation", "%s: %s failed with %ld permits", m->caps.name, sop_names[op], (long)c);
      if (!ok && x != RES_FALSE) fail("conservation", "%s: %s got a permit although there is none", m->caps.name, sop_names[op]);
      if (ok) c--;
      probes++;
    }
  };
  for (long k = 0; k < steps; k++) {
    if (r.chance(450)) { int64_t room = m->caps.maxv - c; int64_t n = big(r, room); if (m->caps.loop_release && n > 70000) n = (int64_t)r.below(300) ? 1 + (int64_t)r.below(3) : 70000; if (n > room) n = room; sx(m, p, REL, n); c += n; ev("release(%ld) -> %ld", (long)n, (long)c); drain(r.below(3)); }
    else drain(c < 70000 && r.chance(300) ? c + 2 : 1 + r.below(20));
  }
  if (c <= 200000) drain(c + 2);
  m->destroy(p); free(p);
}
static void p_latch(Rng& r, const Sel& s, long) {
  ISync* m = nullptr; for (auto* x : s.syncs) if (x->caps.kind == K_LATCH) m = x;
  int64_t c = big(r, m->caps.maxv); desc = strf("latch(%ld)", (long)c);
  void* p = fresh(m->size); m->construct(p, c, nullptr, nullptr);
  for (long k = 0; c > 0; k++) {
    probes++;
    if (sx(m, p, TW)) fail("try-wait", "latch.try_wait is true with %ld to go", (long)c);
    int64_t n = k > 200 && r.chance(200) ? c : big(r, c);
    if (n == c && r.chance(512)) sx(m, p, AAW, n); else sx(m, p, CD, n);
    c -= n; ev("count_down(%ld) -> %ld", (long)n, (long)c);
  }
  for (int i = 0; i < 3; i++) { if (!sx(m, p, TW)) fail("try-wait", "latch.try_wait is false at zero"); sx(m, p, WAIT); sx(m, p, CD, 0); }
  m->destroy(p); free(p);
}
static bool one_phase = false;
static void p_barrier(Rng& r, const Sel& s, long e) {
  std::vector<ISync*> v; for (auto* x : s.syncs) if (x->caps.kind == K_BARRIER) v.push_back(x);
  ISync* m = v[(size_t)e % v.size()]; bool comp = !strcmp(m->caps.name, "barrier<F>");
  int mode = one_phase ? 0 : (int)r.below(3); int64_t E = mode == 0 ? 1 : mode == 1 ? std::max<int64_t>(1, big(r, m->caps.maxv)) : size_for(r, 1 << 30);
  long phases = mode == 0 ? 140000 * T_mult : mode == 1 ? 1 + (long)r.below(40) : (long)E; desc = strf("%s of %ld for %ld phases%s", m->caps.name, (long)E, phases, mode == 2 ? ", one dropping in each" : "");
  void* p = fresh(m->size); long comps = 0; m->construct(p, E, [](void* c) { ++*(long*)c; }, &comps);
  for (long ph = 0; ph < phases; ph++) {
    int64_t left = E; Tok tok[8]; int nt = 0;
    while (left > 0) {
      if (comp && comps != ph) fail("completion-count", "%s: %ld completions in phase %ld with %ld arrivals missing", m->caps.name, comps, ph, (long)left);
      bool lastone = left == 1;
      if (mode == 2 && lastone) { sx(m, p, DROP); left = 0; break; }
      if (lastone && r.chance(512)) { sx(m, p, BAAW); left = 0; break; }
      int64_t n = nt >= 7 ? (mode == 2 ? left - 1 : left) : mode == 2 && !r.chance(50) ? left - 1 : big(r, left); if (n < 1) n = 1; if (mode == 2 && n == left) n = left - 1;
      sx(m, p, ARR, n, &tok[nt++]); left -= n;
      if (nt > 7 && left > 1 && mode != 2) fail("inconsistent", "harness");
    }
    if (comp && comps != ph + 1) fail("completion-count", "%s: %ld completions after phase %ld", m->caps.name, comps, ph);
    for (int i = 0; i < nt; i++) sx(m, p, BWAIT, 1, &tok[i]);
    probes++;
    if (mode == 2) E--;
  }
  m->destroy(p); free(p);
}
static void p_phases(Rng& r, const Sel& s, long e) { one_phase = true; p_barrier(r, s, e); one_phase = false; }
int main(int argc, char** argv) {
  Args a(argc, argv);
  Shard sh;
  shard_begin(a, sh);
  T_mult = a.n("mult", 1);
  Sel sel;
  std::string fam = a.s("types", "all");
  for (auto* l : lock_registry()) { if (!strncmp(l->caps.name, "posix::", 7) || strstr(l->caps.family, "posix")) continue; bool in = false; for (auto& x : split(fam)) if (x == "all" || x == l->caps.family) in = true; if (in) sel.locks.push_back(l); }
  for (auto* i : sync_registry()) sel.syncs.push_back(i);
  struct { const char* name; void (*f)(Rng&, const Sel&, long); } all[] = {{"rec", p_rec}, {"readers", p_readers}, {"cycles", p_cycles}, {"objects", p_objects}, {"sem", p_sem}, {"latch", p_latch}, {"barrier", p_barrier}, {"leak", p_leak}, {"phases", p_phases}};
  std::vector<int> progs;
  for (auto& n : split(a.s("progs", "all"))) for (int i = 0; i < 9; i++) if (n == "all" || n == all[i].name) progs.push_back(i);
  if (progs.empty()) return 3;
  for (long e = sh.start; e < sh.execs; e++) {
    if (!exec_begin(sh, e & ~15l) ) break;
    cur_exec = e;
    alarm(200 + (unsigned)(T_mult * 2));
    Rng r = exec_rng(sh, e);
    auto& d = all[progs[(size_t)e % progs.size()]];
    desc = d.name;
    d.f(r, sel, e / (long)progs.size() + sh.shard * 5);
    std::string k = desc + std::to_string(r.next()); cov.scheds.insert(fnv(k.data(), k.size())); cov.states.insert(fnv(desc.data(), desc.size()));
    cov.add(std::string("scale.") + d.name); cov.add("execs");
    if (cov.samples.size() < 3) cov.samples.push_back(desc);
  }
  cov.add("scale_calls", ops); cov.add("scale_probes", probes);
  shard_end(a);
}

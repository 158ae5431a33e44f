// Deadlines: generation of timeouts and their meaning on the virtual clocks (drivers only, not instrumented).
#pragma once
#include "ops.h"
#include "../rt/vs.h"
#include <limits>
inline int64_t satadd(int64_t a, int64_t b) { int64_t r; if (__builtin_add_overflow(a, b, &r)) return b > 0 ? INT64_MAX : INT64_MIN; return r; }
inline const char* clk_name(int k) { static const char* const n[] = {"steady", "system", "custom", "slow", "coarse"}; return n[k]; }
inline int64_t clk_read(int k, int64_t mono, int64_t real) { return k == C_SYSTEM ? real : k == C_CUSTOM ? mono + CUSTOM_OFF : k == C_SLOW ? (mono - VBASE) / 2 : k == C_COARSE ? (mono - VBASE) / 1000000 * 1000000 : mono; }
// the moment (monotonic; real time for the system clock) at which clock k reaches ns
inline int64_t clk_dl(int k, int64_t ns) { return ns == FOREVER ? FOREVER : k == C_CUSTOM ? ns - CUSTOM_OFF : k == C_SLOW ? VBASE + 2 * ns : k == C_COARSE ? VBASE + ns : ns; }
// the same for a call made at (mono, real) on a type that translates deadlines as c says
inline bool conv_at_call(Conv c, int k) { return c == U_MONO || (c == U_REAL && k != C_SYSTEM); }
inline int64_t until_dl(Conv c, const TimeArg& a, int64_t mono, int64_t real, bool& isreal) {
  if (!conv_at_call(c, a.clk)) { isreal = a.clk == C_SYSTEM; return clk_dl(a.clk, a.ns); }
  isreal = c == U_REAL;
  if (a.ns == FOREVER) return FOREVER;
  int64_t at = a.clk == C_COARSE ? mono - VBASE : clk_read(a.clk, mono, real);   // the coarse clock may tick between two readings
  return satadd(isreal ? real : mono, a.ns < 0 && at > 0 ? satadd(a.ns, -at) : a.ns - at);
}
inline int64_t rep_slop(const TimeArg& a) { return a.rep == R_DBL || a.rep == R_FMS ? 2000 : 0; }   // floating-point time points
// A timeout of any representation. sysonly: _until takes the system clock only.
struct TimeGen { int past = 80, lng = 20, preepoch = 10, forever = 0, never = 8; bool user = false; };   // user: user-defined clocks only
inline TimeArg gen_time(vs::Rng& rng, const TimeGen& g, bool until, bool sysonly) {
  TimeArg a;
  static const uint8_t reps[] = {R_NS, R_NS, R_NS, R_NS, R_MS, R_SEC, R_DBL, R_USI, R_MIN, R_FMS, R_FRAME};
  static const uint8_t ureps[] = {R_NS, R_NS, R_NS, R_MS, R_SEC, R_DBL};
  a.rep = until ? ureps[rng.below(6)] : reps[rng.below(11)];
  if (until) { static const uint8_t ck[] = {C_STEADY, C_STEADY, C_STEADY, C_SYSTEM, C_SYSTEM, C_SYSTEM, C_CUSTOM, C_SLOW, C_COARSE}; a.clk = sysonly ? (uint8_t)C_SYSTEM : g.user ? (uint8_t)(C_CUSTOM + rng.below(3)) : ck[rng.below(9)]; }
  if (g.forever && rng.chance((uint32_t)g.forever)) {
    a.ns = FOREVER;
    if (until) { a.rep = R_NS; if (a.clk == C_SLOW || a.clk == C_COARSE) a.clk = C_STEADY; }
    else if (a.rep == R_USI || a.rep == R_FRAME) a.rep = R_NS;
    return a;
  }
  if (g.never && rng.chance((uint32_t)g.never)) {
    a.ns = NEVER;
    if (until) { a.rep = R_NS; if (a.clk != C_SYSTEM) a.clk = C_STEADY; if (rng.chance(512)) a.ns = 0; }   // or the epoch
    return a;
  }
  int64_t d; uint32_t k = rng.below(1024); bool lng = false;
  if (k < (uint32_t)g.past) d = rng.chance(512) ? 0 : -(int64_t)rng.below(2000000000);
  else if (k < (uint32_t)(g.past + g.lng)) { lng = true; d = (rng.chance(512) ? 30ll * 86400 : 50ll * 365 * 86400) * 1000000000ll + (int64_t)rng.below(1000000000); }
  else { static const int64_t ds[] = {1000000, 5000000, 50000000, 400000000, 1500000000, 5000000000ll}; d = ds[rng.below(6)] + (int64_t)rng.below(1000) * 1001; }
  if (lng && (a.rep == R_USI || a.rep == R_FRAME || a.rep == R_FMS)) a.rep = R_NS;
  if (until && rng.chance((uint32_t)g.preepoch) && a.clk != C_SLOW && a.clk != C_COARSE) { a.rep = R_NS; a.ns = -1500000001ll - (int64_t)rng.below(900000000); return a; }
  if (!until && rng.chance((uint32_t)g.preepoch)) { a.rep = R_NS; a.ns = -(vs::real_now() + 1500000000ll + (int64_t)rng.below(900000000)); return a; }
  a.ns = until ? clk_read(a.clk, vs::mono_now(), vs::real_now()) + d : d;
  auto grid = [&](int64_t u) { a.ns = (a.ns / u + (a.ns > 0 && a.ns % u != 0)) * u; };
  switch (a.rep) {
    case R_MS: case R_FMS: grid(1000000); break;
    case R_SEC: grid(1000000000); break;
    case R_MIN: grid(60000000000ll); break;
    case R_FRAME: grid(50000000); break;     // three frames of 1/60 s
    case R_USI: if (a.ns < -2000000000ll) a.rep = R_NS; else grid(1000); break;
    default: if (a.clk == C_COARSE) grid(1000000);
  }
  if (a.clk == C_COARSE && a.rep == R_DBL) a.rep = R_NS;
  return a;
}

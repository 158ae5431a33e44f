// Free-running programs: interface between the instrumented programs and the driver/monitors.
#pragma once
#include "sync.h"
#include "../rt/vs.h"
#include <functional>
struct Sel { std::vector<ILock*> locks; std::vector<ISync*> syncs; };
struct Prog {
  int nt = 2;
  std::string desc;
  bool slow_timers = false;
  uint64_t maxsteps = 0;
  bool autotime = true;                       // false: time stands still unless the program moves it
  virtual ~Prog() {}
  virtual void body(int t) = 0;
  virtual bool quiescent() { return false; }  // nothing can run: true if that was intended and something was unblocked
  virtual void final() {}
};
struct ProgDef { const char* name; const char* group; bool needs_lock, needs_sync; Prog* (*make)(vs::Rng& r, const Sel& s, long e); };
std::vector<ProgDef>& prog_registry();
// Monitors: uninstrumented, so that they add no happens-before edges and no scheduling points.
void mon_reset(int nobj);
void mon_acq(int obj, bool shared);
void mon_rel(int obj, bool shared);
bool mon_held(int obj);
[[noreturn]] void prog_fail(const char* kind, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void prog_count(const char* what, uint64_t n = 1);
void prog_note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void* prog_mem(int i);         // poisoned arena block #i, 1024 bytes, unpoisoned by prog_place
void prog_place(int i, size_t size);
void prog_gone(int i, size_t size);  // the object in block i was destroyed: poison it

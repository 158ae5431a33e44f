// Interface between the instrumented semaphore/latch/barrier wrappers and the driver.
#pragma once
#include "ops.h"
enum SOpK : uint8_t { ACQ, TRYA, TRYAFOR, TRYAUNTIL, REL, CD, TW, WAIT, AAW, ARR, BWAIT, BAAW, DROP, NSOPS, SADV = NSOPS };
extern const char* const sop_names[];
enum SKind : uint8_t { K_SEM, K_LATCH, K_BARRIER };
struct SCaps { const char* name = ""; const char* family = ""; SKind kind = K_SEM; bool for_real = false, loop_release = false; Conv conv = U_OWN; int64_t maxv = 0, atleast = 0; bool exact = false; };
struct Tok { alignas(16) unsigned char b[64]; };
struct ISync {
  SCaps caps;
  size_t size = 0;
  virtual ~ISync() {}
  virtual void construct(void* p, int64_t init, void (*done)(void*), void* ctx) const = 0;
  virtual int destroy(void* p) const = 0;
  virtual int exec(void* p, SOpK op, int64_t n, const TimeArg& a, Tok* tok) const = 0;
};
std::vector<ISync*>& sync_registry();

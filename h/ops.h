// Interface between the instrumented operation wrappers (lk_*.cpp) and the
// uninstrumented drivers/oracles.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

enum Op : uint8_t { LOCK, TRY, TRYFOR, TRYUNTIL, UNLOCK, SLOCK, STRY, STRYFOR, STRYUNTIL, SUNLOCK, NOPS, ADV = NOPS };   // ADV: the worker lets time pass (ta.ns), no library call
extern const char* const op_names[];
enum Clk : uint8_t { C_STEADY, C_SYSTEM, C_CUSTOM, C_SLOW, C_COARSE, NCLK };
enum Rep : uint8_t { R_NS, R_MS, R_SEC, R_DBL, R_USI, R_MIN, R_FMS, R_FRAME, NREP };  // time representation used at the call
struct TimeArg { uint8_t clk = 0, rep = 0, via = 0; int64_t ns = 0; };  // _for: duration; _until: absolute in that clock

// results
enum { RES_FALSE = 0, RES_TRUE = 1, RES_SKIP = 2, RES_NONE = 3, RES_EXC = 1000, RES_EXC_OTHER = 5000, RES_EXC_ALLOC = 5001, RES_EXC_CLOCK = 5002 };
constexpr uint8_t FAIL_CLOCK = 0x80;   // fail: FAIL_CLOCK | n
inline int fail_res(uint8_t f) { return f & FAIL_CLOCK ? RES_EXC_CLOCK : RES_EXC_ALLOC; }
std::string res_str(int r);

enum Policy : uint8_t { ANY, READER, WRITER, FIFO, TASK, PHASE };
extern const char* const policy_names[];
// how _until treats its deadline: by its own clock, or translated once, at the call, to the system clock (time points
// of other clocks) or to a timeout (all clocks)
enum Conv : uint8_t { U_OWN, U_REAL, U_MONO };
struct Caps {
  const char* name = "";
  const char* family = "";
  Policy pol = ANY;
  bool timed = false, shared = false, recursive = false, checked = false, detect = false, spin = false;
  bool for_system = false;       // _for is documented to follow the system clock (posix wrappers)
  bool until_system_only = false;
  Conv conv = U_OWN;
  bool interop = false;          // calls may go through native_handle()
  bool busy = false;             // no yield while spinning
};

struct ILock {
  Caps caps;
  size_t size = 0;
  virtual ~ILock() {}
  virtual void construct(void* p) const = 0;
  virtual int destroy(void* p) const = 0;       // RES_TRUE or exception code
  virtual int exec(void* p, Op op, const TimeArg& a, long* pay) const = 0;  // pay: data guarded by the lock (may be null)
};
std::vector<ILock*>& lock_registry();
ILock* find_lock(const std::string& name);

constexpr int64_t FOREVER = INT64_MAX, NEVER = INT64_MIN;   // TimeArg::ns: the largest/smallest value of the type used
// custom clocks used by C_CUSTOM/C_SLOW/C_COARSE
constexpr int64_t CUSTOM_OFF = 5000000000000ll;
constexpr int64_t VBASE = 1000ll * 1000000000;

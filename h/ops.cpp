#include "sync.h"
#include <cerrno>
const char* const op_names[] = {"lock", "try_lock", "try_lock_for", "try_lock_until", "unlock", "lock_shared", "try_lock_shared", "try_lock_shared_for", "try_lock_shared_until", "unlock_shared", "let_time_pass"};
const char* const policy_names[] = {"any", "reader-prefer", "writer-prefer", "fifo", "task", "phase"};
std::vector<ILock*>& lock_registry() { static std::vector<ILock*> v; return v; }
ILock* find_lock(const std::string& n) { for (auto* l : lock_registry()) if (n == l->caps.name) return l; return nullptr; }
std::string res_str(int r) {
  switch (r) {
    case RES_FALSE: return "false"; case RES_TRUE: return "ok"; case RES_SKIP: return "skipped"; case RES_NONE: return "(blocked)";
    case RES_EXC + EPERM: return "throw EPERM"; case RES_EXC + EDEADLK: return "throw EDEADLK";
    case RES_EXC_OTHER: return "throw (other)"; case RES_EXC_ALLOC: return "throw bad_alloc"; case RES_EXC_CLOCK: return "throw (clock failure)";
  }
  if (r >= RES_EXC) return "throw errno=" + std::to_string(r - RES_EXC);
  return "ret " + std::to_string(r);
}
const char* const sop_names[] = {"acquire", "try_acquire", "try_acquire_for", "try_acquire_until", "release", "count_down", "try_wait", "wait", "arrive_and_wait", "arrive", "wait", "arrive_and_wait", "arrive_and_drop", "let_time_pass"};

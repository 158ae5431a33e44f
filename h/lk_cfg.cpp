// The unparameterised shared mutex types under a given macro configuration (EXP_RW/EXP_FAIR: what must be in effect).
#ifndef EXP_RW
#define EXP_RW READER
#endif
#ifndef EXP_FAIR
#define EXP_FAIR PHASE
#endif
#include "lk_impl.h"
#include "alternate_shared_mutex.hpp"
#include "checked_shared_mutex.hpp"
#include "fair_shared_mutex.hpp"
static int reg = [] {
  Reg::add<yamc::alternate::shared_mutex, false, true>("cfg", "alternate::shared_mutex", EXP_RW, 0);
  Reg::add<yamc::alternate::shared_timed_mutex, true, true>("cfg", "alternate::shared_timed_mutex", EXP_RW, 0);
  Reg::add<yamc::checked::shared_mutex, false, true>("cfg", "checked::shared_mutex", EXP_RW, F_CHK | F_DET);
  Reg::add<yamc::checked::shared_timed_mutex, true, true>("cfg", "checked::shared_timed_mutex", EXP_RW, F_CHK | F_DET);
  Reg::add<yamc::fair::shared_mutex, false, true>("cfgf", "fair::shared_mutex", EXP_FAIR, 0);
  Reg::add<yamc::fair::shared_timed_mutex, true, true>("cfgf", "fair::shared_timed_mutex", EXP_FAIR, 0);
  return 0;
}();

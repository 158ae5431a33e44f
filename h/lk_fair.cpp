#include <cassert>
#include "lk_impl.h"
#include "fair_mutex.hpp"
#include "fair_shared_mutex.hpp"
namespace f = yamc::fair;
namespace rw = yamc::rwlock;
static int reg = [] {
  Reg::add<f::mutex, false, false>("fair", "fair::mutex", FIFO, 0);
  Reg::add<f::recursive_mutex, false, false>("fair", "fair::recursive_mutex", FIFO, F_REC);
  Reg::add<f::timed_mutex, true, false>("fair", "fair::timed_mutex", FIFO, 0);
  Reg::add<f::recursive_timed_mutex, true, false>("fair", "fair::recursive_timed_mutex", FIFO, F_REC);
  Reg::add<f::basic_shared_mutex<rw::TaskFairness>, false, true>("fair", "fair::shared_mutex<Task>", TASK, 0);
  Reg::add<f::basic_shared_mutex<rw::PhaseFairness>, false, true>("fair", "fair::shared_mutex<Phase>", PHASE, 0);
  Reg::add<f::basic_shared_timed_mutex<rw::TaskFairness>, true, true>("fair", "fair::shared_timed_mutex<Task>", TASK, 0);
  Reg::add<f::basic_shared_timed_mutex<rw::PhaseFairness>, true, true>("fair", "fair::shared_timed_mutex<Phase>", PHASE, 0);
  Reg::add<f::shared_mutex, false, true>("fair", "fair::shared_mutex", PHASE, 0);
  Reg::add<f::shared_timed_mutex, true, true>("fair", "fair::shared_timed_mutex", PHASE, 0);
  return 0;
}();

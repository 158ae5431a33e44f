#include "lk_impl.h"
#include "naive_spin_mutex.hpp"
#include "ttas_spin_mutex.hpp"
#include "posix_native_mutex.hpp"
namespace b = yamc::backoff;
static int reg = [] {
#define SPIN(ns) \
  Reg::add<yamc::ns::mutex, false, false>("spin", #ns "::mutex", ANY, F_SPIN); \
  Reg::add<yamc::ns::basic_mutex<b::exponential<3>>, false, false>("spin", #ns "::exp3", ANY, F_SPIN); \
  Reg::add<yamc::ns::basic_mutex<b::yield>, false, false>("spin", #ns "::yield", ANY, F_SPIN); \
  Reg::add<yamc::ns::basic_mutex<b::busy>, false, false>("spin", #ns "::busy", ANY, F_SPIN | F_BUSY);
  SPIN(spin) SPIN(spin_weak) SPIN(spin_ttas)
  Reg::add<yamc::posix::native_mutex, true, false, true>("posix", "posix::native_mutex", ANY, 0);
  Reg::add<yamc::posix::native_recursive_mutex, true, false, true>("posix", "posix::native_recursive_mutex", ANY, F_REC);
  Reg::add<yamc::posix::rwlock, true, true, true>("posix", "posix::rwlock", ANY, 0);
  Reg::add<yamc::posix::spinlock, false, false>("posix", "posix::spinlock", ANY, 0);
  Reg::add<yamc::posix::mutex, true, false, true>("posix", "posix::mutex", ANY, 0);
  Reg::add<yamc::posix::recursive_timed_mutex, true, false, true>("posix", "posix::recursive_timed_mutex", ANY, F_REC);
  Reg::add<yamc::posix::shared_timed_mutex, true, true, true>("posix", "posix::shared_timed_mutex", ANY, 0);
  return 0;
}();

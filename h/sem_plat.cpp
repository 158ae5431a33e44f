// Windows and macOS semaphores over the stand-ins of ../shim.
#include "sem_impl.h"
#include "win_semaphore.hpp"
#include "gcd_semaphore.hpp"
static int reg = [] {
  SCaps w = sc("wsem", false, false, U_MONO), g = sc("gcdsem", false, true, U_REAL);
  auto& r = sync_registry();
  r.push_back(new SemImpl<yamc::win::counting_semaphore<>>("win::counting_semaphore<>", w));
  r.push_back(new SemImpl<yamc::win::binary_semaphore>("win::binary_semaphore", w, 1));
  r.push_back(new SemImpl<yamc::win::counting_semaphore<5>>("win::counting_semaphore<5>", w, 5));
  r.push_back(new SemImpl<yamc::gcd::counting_semaphore<>>("gcd::counting_semaphore<>", g));
  r.push_back(new SemImpl<yamc::gcd::binary_semaphore>("gcd::binary_semaphore", g, 1));
  r.push_back(new SemImpl<yamc::gcd::counting_semaphore<5>>("gcd::counting_semaphore<5>", g, 5));
  return 0;
}();

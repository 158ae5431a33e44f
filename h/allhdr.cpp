// Every header of the library, in more than one translation unit of one program, included in either order.
#if UNIT == 0
#include "alternate_mutex.hpp"
#include "alternate_shared_mutex.hpp"
#include "checked_mutex.hpp"
#include "checked_shared_mutex.hpp"
#include "fair_mutex.hpp"
#include "fair_shared_mutex.hpp"
#include "naive_spin_mutex.hpp"
#include "posix_native_mutex.hpp"
#include "posix_semaphore.hpp"
#include "ttas_spin_mutex.hpp"
#include "yamc_barrier.hpp"
#include "yamc_latch.hpp"
#include "yamc_scoped_lock.hpp"
#include "yamc_semaphore.hpp"
#include "yamc_shared_lock.hpp"
#include "win_native_mutex.hpp"
#include "win_semaphore.hpp"
#include "gcd_semaphore.hpp"
#include "apple_native_mutex.hpp"
#else
#include "apple_native_mutex.hpp"
#include "gcd_semaphore.hpp"
#include "win_semaphore.hpp"
#include "win_native_mutex.hpp"
#include "yamc_shared_lock.hpp"
#include "yamc_semaphore.hpp"
#include "yamc_scoped_lock.hpp"
#include "yamc_latch.hpp"
#include "yamc_barrier.hpp"
#include "ttas_spin_mutex.hpp"
#include "posix_semaphore.hpp"
#include "posix_native_mutex.hpp"
#include "naive_spin_mutex.hpp"
#include "fair_shared_mutex.hpp"
#include "fair_mutex.hpp"
#include "checked_shared_mutex.hpp"
#include "checked_mutex.hpp"
#include "alternate_shared_mutex.hpp"
#include "alternate_mutex.hpp"
#endif

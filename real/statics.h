// Objects used while the process starts and ends: one scenario per process, chosen by the environment.
#pragma once
#include "alternate_mutex.hpp"
#include "alternate_shared_mutex.hpp"
#include "checked_mutex.hpp"
#include "checked_shared_mutex.hpp"
#include "fair_mutex.hpp"
#include "fair_shared_mutex.hpp"
#include "naive_spin_mutex.hpp"
#include "ttas_spin_mutex.hpp"
#include "posix_native_mutex.hpp"
#include "posix_semaphore.hpp"
#include "yamc_semaphore.hpp"
#include "yamc_latch.hpp"
#include "yamc_barrier.hpp"
#include <atomic>
#include <cstdint>
namespace st {
struct Rng { uint64_t s; uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); } unsigned below(unsigned n) { return (unsigned)(next() % n); } };
struct Bundle;
Bundle* make(); void drop(Bundle*);            // on the heap
void use(Bundle&, Rng&, int n);                // n random operations, each of which must succeed
void contend(Bundle&, Rng&);                   // the same with a second thread
void deadlock(Bundle&, Bundle&, Rng&);         // two threads, opposite order: somebody must be told
void site(const char* where, int tu, Bundle* own, int depth);   // something happens here
extern uint64_t seed;                          // 0: no scenario in this process
[[noreturn]] void fail(const char* what);
void log(const char* f, const char* a, int b);
#define ST_TYPES(X) \
  X(a0, yamc::spin::mutex, E) X(a1, yamc::spin_weak::mutex, W) X(a2, yamc::spin_ttas::mutex, W) \
  X(b0, yamc::checked::mutex, C) X(b1, yamc::checked::timed_mutex, CT) X(b2, yamc::checked::recursive_mutex, R) X(b3, yamc::checked::recursive_timed_mutex, RT) \
  X(b4, yamc::checked::shared_mutex, CS) X(b5, yamc::checked::shared_timed_mutex, CS) \
  X(c0, yamc::fair::mutex, E) X(c1, yamc::fair::timed_mutex, T) X(c2, yamc::fair::recursive_mutex, R) X(c3, yamc::fair::recursive_timed_mutex, RT) X(c4, yamc::fair::shared_mutex, S) X(c5, yamc::fair::shared_timed_mutex, ST) \
  X(d0, yamc::alternate::recursive_mutex, R) X(d1, yamc::alternate::timed_mutex, T) X(d2, yamc::alternate::recursive_timed_mutex, RT) X(d3, yamc::alternate::shared_mutex, S) X(d4, yamc::alternate::shared_timed_mutex, ST) \
  X(e0, yamc::posix::native_mutex, E) X(e1, yamc::posix::native_recursive_mutex, R) X(e2, yamc::posix::rwlock, S) X(e3, yamc::posix::spinlock, E)
struct Bundle {
#define X(n, t, k) t n;
  ST_TYPES(X)
#undef X
  yamc::counting_semaphore<> s0{1}; yamc::binary_semaphore s1{1}; yamc::posix::counting_semaphore<> s2{1};
  yamc::latch l{1}; yamc::barrier<> b{1};
};
// shared by all translation units
inline Bundle& leaked(int i) { static Bundle* const p[2] = {make(), make()}; return *p[i]; }
struct Watched { Bundle b; bool* alive; explicit Watched(bool* a) : alive(a) { *a = true; } ~Watched() { Rng r{seed}; use(b, r, 3); *alive = false; } };
inline bool& meyers_state(int i) { static bool a[2]; return a[i]; }
template <int I> Bundle& meyers() { static Watched w(&meyers_state(I)); return w.b; }
inline bool& meyers_born(int i) { static bool a[2]; return a[i]; }
}

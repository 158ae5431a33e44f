// Spin mutexes with every kind of backoff policy; the name says what to expect: type/policy[:initial count]
#ifndef EXPECT_DEFAULT
#define EXPECT_DEFAULT "exp:4000"
#endif
#ifndef EXPECT_INIT
#define EXPECT_INIT "exp:4000"
#endif
#include "lk_impl.h"
#include "naive_spin_mutex.hpp"
#include "ttas_spin_mutex.hpp"
namespace b = yamc::backoff;
template <class M> struct OnlyLock : ILock {
  std::string nm;
  OnlyLock(const std::string& n) : nm(n) { caps.name = nm.c_str(); caps.family = "backoff"; caps.spin = true; size = sizeof(M); }
  void construct(void* p) const override { new (p) M(); }
  int destroy(void* p) const override { static_cast<M*>(p)->~M(); return RES_TRUE; }
  int exec(void* p, Op op, const TimeArg&, long*) const override {
    M& m = *static_cast<M*>(p);
    if (op == LOCK) { m.lock(); return RES_TRUE; }
    if (op == TRY) return m.try_lock();
    m.unlock(); return RES_TRUE;
  }
};
template <class M> static void add(const char* n) { lock_registry().push_back(new OnlyLock<M>(n)); }
static int reg = [] {
#define SPIN(ns) \
  add<yamc::ns::mutex>(#ns "::mutex/" EXPECT_DEFAULT); \
  add<yamc::ns::basic_mutex<b::yield>>(#ns "::basic_mutex<yield>/yield"); \
  add<yamc::ns::basic_mutex<b::busy>>(#ns "::basic_mutex<busy>/busy"); \
  add<yamc::ns::basic_mutex<b::exponential<>>>(#ns "::basic_mutex<exponential<>>/" EXPECT_INIT); \
  add<yamc::ns::basic_mutex<b::exponential<0>>>(#ns "::basic_mutex<exponential<0>>/exp:0"); \
  add<yamc::ns::basic_mutex<b::exponential<1>>>(#ns "::basic_mutex<exponential<1>>/exp:1"); \
  add<yamc::ns::basic_mutex<b::exponential<2>>>(#ns "::basic_mutex<exponential<2>>/exp:2"); \
  add<yamc::ns::basic_mutex<b::exponential<7>>>(#ns "::basic_mutex<exponential<7>>/exp:7"); \
  add<yamc::ns::basic_mutex<b::exponential<16>>>(#ns "::basic_mutex<exponential<16>>/exp:16"); \
  add<yamc::ns::basic_mutex<b::exponential<100>>>(#ns "::basic_mutex<exponential<100>>/exp:100"); \
  add<yamc::ns::basic_mutex<b::exponential<4000>>>(#ns "::basic_mutex<exponential<4000>>/exp:4000"); \
  add<yamc::ns::basic_mutex<b::exponential<100000>>>(#ns "::basic_mutex<exponential<100000>>/exp:100000");
  SPIN(spin) SPIN(spin_weak) SPIN(spin_ttas)
  return 0;
}();

#include "lk_impl.h"
#include "alternate_mutex.hpp"
#include "alternate_shared_mutex.hpp"
namespace a = yamc::alternate;
namespace rw = yamc::rwlock;
static int reg = [] {
  Reg::add<a::recursive_mutex, false, false>("alt", "alternate::recursive_mutex", ANY, F_REC);
  Reg::add<a::timed_mutex, true, false>("alt", "alternate::timed_mutex", ANY, 0);
  Reg::add<a::recursive_timed_mutex, true, false>("alt", "alternate::recursive_timed_mutex", ANY, F_REC);
  Reg::add<a::basic_shared_mutex<rw::ReaderPrefer>, false, true>("alt", "alternate::shared_mutex<R>", READER, 0);
  Reg::add<a::basic_shared_mutex<rw::WriterPrefer>, false, true>("alt", "alternate::shared_mutex<W>", WRITER, 0);
  Reg::add<a::basic_shared_timed_mutex<rw::ReaderPrefer>, true, true>("alt", "alternate::shared_timed_mutex<R>", READER, 0);
  Reg::add<a::basic_shared_timed_mutex<rw::WriterPrefer>, true, true>("alt", "alternate::shared_timed_mutex<W>", WRITER, 0);
  Reg::add<a::shared_mutex, false, true>("alt", "alternate::shared_mutex", READER, 0);
  Reg::add<a::shared_timed_mutex, true, true>("alt", "alternate::shared_timed_mutex", READER, 0);
  return 0;
}();

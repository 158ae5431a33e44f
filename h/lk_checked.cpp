// Built three ways: default (exceptions + deadlock detection), -DNODETECT, and in
// the abort binary with YAMC_CHECKED_CALL_ABORT=1.
#ifdef NODETECT
#define YAMC_CHECKED_DETECT_DEADLOCK 0
#define DET 0
#else
#define DET F_DET
#endif
#include "lk_impl.h"
#include "checked_mutex.hpp"
#include "checked_shared_mutex.hpp"
namespace c = yamc::checked;
namespace rw = yamc::rwlock;
static int reg = [] {
  Reg::add<c::mutex, false, false>("checked", "checked::mutex", ANY, F_CHK | DET);
  Reg::add<c::timed_mutex, true, false>("checked", "checked::timed_mutex", ANY, F_CHK | DET);
  Reg::add<c::recursive_mutex, false, false>("checked", "checked::recursive_mutex", ANY, F_CHK | DET | F_REC);
  Reg::add<c::recursive_timed_mutex, true, false>("checked", "checked::recursive_timed_mutex", ANY, F_CHK | DET | F_REC);
  Reg::add<c::basic_shared_mutex<rw::ReaderPrefer>, false, true>("checked", "checked::shared_mutex<R>", READER, F_CHK | DET);
  Reg::add<c::basic_shared_mutex<rw::WriterPrefer>, false, true>("checked", "checked::shared_mutex<W>", WRITER, F_CHK | DET);
  Reg::add<c::basic_shared_timed_mutex<rw::ReaderPrefer>, true, true>("checked", "checked::shared_timed_mutex<R>", READER, F_CHK | DET);
  Reg::add<c::basic_shared_timed_mutex<rw::WriterPrefer>, true, true>("checked", "checked::shared_timed_mutex<W>", WRITER, F_CHK | DET);
  Reg::add<c::shared_mutex, false, true>("checked", "checked::shared_mutex", READER, F_CHK | DET);
  Reg::add<c::shared_timed_mutex, true, true>("checked", "checked::shared_timed_mutex", READER, F_CHK | DET);
  return 0;
}();

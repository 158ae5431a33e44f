// What the drivers may ask of the stand-ins.
#pragma once
#include <cstdint>
struct PlatStats { long created, destroyed, bad_use; };
extern PlatStats plat_stats;
enum PlatFail { PF_NONE, PF_CREATE, PF_WAIT, PF_RELEASE };
extern int plat_fail;           // the next call of that kind fails (then reset)
extern uint32_t plat_fail_code; // what a failing wait returns
extern int64_t plat_tick;       // > 0: Win32 waits and sleeps end on ticks of that many ns, up to one tick early

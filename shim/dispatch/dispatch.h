// Stand-in for the semaphore part of Grand Central Dispatch.
#pragma once
#include <stdint.h>
#include <stdlib.h>
#include <time.h>
#ifdef __cplusplus
#include <cstdlib>
extern "C" {
#endif
typedef uint64_t dispatch_time_t;
typedef struct dispatch_semaphore_s* dispatch_semaphore_t;
#define DISPATCH_TIME_NOW (0ull)
#define DISPATCH_TIME_FOREVER (~0ull)
#define DISPATCH_WALLTIME_NOW (~1ull)
#define NSEC_PER_SEC 1000000000ull
#define NSEC_PER_MSEC 1000000ull
#define USEC_PER_SEC 1000000ull
#define NSEC_PER_USEC 1000ull
#ifndef KERN_SUCCESS
#define KERN_SUCCESS 0
#define KERN_OPERATION_TIMED_OUT 49
#endif
dispatch_time_t dispatch_time(dispatch_time_t when, int64_t delta);
dispatch_time_t dispatch_walltime(const struct timespec* when, int64_t delta);
dispatch_semaphore_t dispatch_semaphore_create(intptr_t value);
intptr_t dispatch_semaphore_wait(dispatch_semaphore_t, dispatch_time_t timeout);
intptr_t dispatch_semaphore_signal(dispatch_semaphore_t);
void dispatch_release(dispatch_semaphore_t);
void yamc_shim_free(void*);
#ifdef __cplusplus
}
namespace std { using ::yamc_shim_free; }
#endif
#define free(p) yamc_shim_free(p)   // the wrapper disposes of its semaphore by free()

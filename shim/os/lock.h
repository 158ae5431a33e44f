// Stand-in for macOS <os/lock.h>.
#pragma once
#include <stdbool.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct os_unfair_lock_s { uint32_t _os_unfair_lock_opaque; } os_unfair_lock, *os_unfair_lock_t;
#ifdef __cplusplus
#define OS_UNFAIR_LOCK_INIT os_unfair_lock()
#else
#define OS_UNFAIR_LOCK_INIT ((os_unfair_lock){0})
#endif
void os_unfair_lock_lock(os_unfair_lock_t);
bool os_unfair_lock_trylock(os_unfair_lock_t);
void os_unfair_lock_unlock(os_unfair_lock_t);
void os_unfair_lock_assert_owner(const os_unfair_lock*);
void os_unfair_lock_assert_not_owner(const os_unfair_lock*);
#ifdef __cplusplus
}
#endif

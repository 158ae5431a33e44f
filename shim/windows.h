// Stand-in for <windows.h>: the synchronisation part of the Win32 API with its documented behaviour, implemented in
// platform.cpp on top of pthreads (so that it runs under the controlled runtime as well).
#pragma once
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef int BOOL; typedef uint32_t DWORD; typedef int32_t LONG; typedef int64_t LONGLONG; typedef uint64_t ULONGLONG; typedef uint64_t DWORD64;
typedef void* HANDLE; typedef void* PVOID; typedef void* LPVOID; typedef unsigned char BOOLEAN; typedef unsigned char BYTE; typedef uintptr_t ULONG_PTR; typedef uint32_t ULONG; typedef LONG* LPLONG;
typedef const char* LPCSTR; typedef const wchar_t* LPCWSTR; typedef void* LPSECURITY_ATTRIBUTES;
typedef union _LARGE_INTEGER { LONGLONG QuadPart; } LARGE_INTEGER;
typedef struct _FILETIME { DWORD dwLowDateTime, dwHighDateTime; } FILETIME;
#ifndef TRUE
#define TRUE 1
#define FALSE 0
#endif
#define WINAPI
#define INFINITE 0xFFFFFFFFu
#define WAIT_OBJECT_0 0u
#define WAIT_ABANDONED 0x80u
#define WAIT_ABANDONED_0 0x80u
#define WAIT_IO_COMPLETION 0xC0u
#define WAIT_TIMEOUT 258u
#define WAIT_FAILED 0xFFFFFFFFu
#define ERROR_SUCCESS 0
#define ERROR_INVALID_HANDLE 6
#define ERROR_NOT_OWNER 288
#define ERROR_TOO_MANY_POSTS 298
#define ERROR_INVALID_PARAMETER 87
#define ERROR_TIMEOUT 1460
#define MAXLONG 0x7fffffff
#define MAXDWORD 0xffffffffu
#define INVALID_HANDLE_VALUE ((HANDLE)(intptr_t)-1)
#define MUTEX_ALL_ACCESS 0x1F0001
#define SEMAPHORE_ALL_ACCESS 0x1F0003
#define CREATE_MUTEX_INITIAL_OWNER 1

DWORD GetLastError(void); void SetLastError(DWORD);
HANDLE CreateMutexA(LPSECURITY_ATTRIBUTES, BOOL owner, LPCSTR name);
HANDLE CreateMutexW(LPSECURITY_ATTRIBUTES, BOOL owner, LPCWSTR name);
HANDLE CreateMutexExA(LPSECURITY_ATTRIBUTES, LPCSTR name, DWORD flags, DWORD access);
HANDLE CreateMutexExW(LPSECURITY_ATTRIBUTES, LPCWSTR name, DWORD flags, DWORD access);
BOOL ReleaseMutex(HANDLE);
HANDLE CreateSemaphoreA(LPSECURITY_ATTRIBUTES, LONG init, LONG max, LPCSTR name);
HANDLE CreateSemaphoreW(LPSECURITY_ATTRIBUTES, LONG init, LONG max, LPCWSTR name);
HANDLE CreateSemaphoreExA(LPSECURITY_ATTRIBUTES, LONG init, LONG max, LPCSTR name, DWORD flags, DWORD access);
HANDLE CreateSemaphoreExW(LPSECURITY_ATTRIBUTES, LONG init, LONG max, LPCWSTR name, DWORD flags, DWORD access);
BOOL ReleaseSemaphore(HANDLE, LONG n, LPLONG prev);
BOOL CloseHandle(HANDLE);
DWORD WaitForSingleObject(HANDLE, DWORD ms);
DWORD WaitForSingleObjectEx(HANDLE, DWORD ms, BOOL alertable);
void Sleep(DWORD ms); DWORD SleepEx(DWORD ms, BOOL alertable); BOOL SwitchToThread(void); void YieldProcessor_shim(void);
#define YieldProcessor() YieldProcessor_shim()
DWORD GetTickCount(void); ULONGLONG GetTickCount64(void);
BOOL QueryPerformanceCounter(LARGE_INTEGER*); BOOL QueryPerformanceFrequency(LARGE_INTEGER*);
DWORD GetCurrentThreadId(void);
#define CreateMutex CreateMutexA
#define CreateMutexEx CreateMutexExA
#define CreateSemaphore CreateSemaphoreA
#define CreateSemaphoreEx CreateSemaphoreExA

typedef struct _RTL_CRITICAL_SECTION { void* DebugInfo; LONG LockCount; LONG RecursionCount; HANDLE OwningThread; HANDLE LockSemaphore; ULONG_PTR SpinCount; } CRITICAL_SECTION, *PCRITICAL_SECTION, *LPCRITICAL_SECTION;
void InitializeCriticalSection(LPCRITICAL_SECTION);
BOOL InitializeCriticalSectionAndSpinCount(LPCRITICAL_SECTION, DWORD);
BOOL InitializeCriticalSectionEx(LPCRITICAL_SECTION, DWORD, DWORD);
DWORD SetCriticalSectionSpinCount(LPCRITICAL_SECTION, DWORD);
void DeleteCriticalSection(LPCRITICAL_SECTION);
void EnterCriticalSection(LPCRITICAL_SECTION);
BOOL TryEnterCriticalSection(LPCRITICAL_SECTION);
void LeaveCriticalSection(LPCRITICAL_SECTION);

typedef struct _RTL_SRWLOCK { PVOID Ptr; } SRWLOCK, *PSRWLOCK;
#define RTL_SRWLOCK_INIT { 0 }
#define SRWLOCK_INIT RTL_SRWLOCK_INIT
void InitializeSRWLock(PSRWLOCK);
void AcquireSRWLockExclusive(PSRWLOCK); BOOLEAN TryAcquireSRWLockExclusive(PSRWLOCK); void ReleaseSRWLockExclusive(PSRWLOCK);
void AcquireSRWLockShared(PSRWLOCK); BOOLEAN TryAcquireSRWLockShared(PSRWLOCK); void ReleaseSRWLockShared(PSRWLOCK);
#ifdef __cplusplus
}
#endif

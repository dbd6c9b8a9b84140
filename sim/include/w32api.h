/* Simulated Win32 API used to run /repo's sources on the deterministic
 * scheduler of sim.c.  LLP64 types: LONG/DWORD are 32 bit. */
#ifndef VERIF_W32API_H
#define VERIF_W32API_H
#include <stdint.h>
#include <stddef.h>
#include <time.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef void VOID, *PVOID, *LPVOID, *HANDLE, **PHANDLE, **LPHANDLE;
typedef const void *LPCVOID;
typedef HANDLE HMODULE, HINSTANCE, HWND, HLOCAL, HGLOBAL;
typedef int INT, BOOL, *PBOOL, *LPBOOL, *LPINT, *PINT;
typedef int LONG, *PLONG, *LPLONG;
typedef unsigned int ULONG, *PULONG, DWORD, *PDWORD, *LPDWORD, UINT, *PUINT;
typedef short SHORT; typedef unsigned short WORD, USHORT, *LPWORD, WCHAR, *LPWSTR; typedef const WCHAR *LPCWSTR;
typedef unsigned char BYTE, UCHAR, BOOLEAN, *PBYTE, *LPBYTE;
typedef char CHAR, *PCHAR, *LPSTR, *PSTR; typedef const char *LPCSTR, *PCSTR;
typedef char TCHAR, *LPTSTR; typedef const char *LPCTSTR;
typedef int64_t LONG64, LONGLONG, INT64, *PLONG64, *PLONGLONG, INT_PTR, LONG_PTR, *PLONG_PTR, SSIZE_T;
typedef uint64_t ULONG64, ULONGLONG, DWORD64, DWORDLONG, UINT64, *PULONGLONG, UINT_PTR, ULONG_PTR, *PULONG_PTR, DWORD_PTR, *PDWORD_PTR, SIZE_T;
typedef int32_t LONG32, INT32; typedef uint32_t ULONG32, DWORD32, UINT32;
typedef float FLOAT;
typedef ULONG_PTR KAFFINITY;
#ifndef FALSE
#define FALSE 0
#define TRUE 1
#endif
#define CONST const
#define WINAPI
#define APIENTRY
#define CALLBACK
#define WINBASEAPI
#define NTAPI
#define IN
#define OUT
#define OPTIONAL
#ifndef _In_
#define _In_
#define _Out_
#define _In_opt_
#define _Out_opt_
#define _Inout_
#endif
#define UNREFERENCED_PARAMETER(x) ((void)(x))
#define INVALID_HANDLE_VALUE ((HANDLE)(LONG_PTR)-1)
#define INFINITE 0xFFFFFFFFu
#define MAXDWORD 0xFFFFFFFFu
#define WAIT_OBJECT_0 0u
#define WAIT_ABANDONED 0x80u
#define WAIT_ABANDONED_0 0x80u
#define WAIT_IO_COMPLETION 0xC0u
#define WAIT_TIMEOUT 258u
#define WAIT_FAILED 0xFFFFFFFFu
#define STILL_ACTIVE 259u
#define MAXIMUM_WAIT_OBJECTS 64
#define MAX_PATH 260
#define ERROR_SUCCESS 0
#define NO_ERROR 0
#define ERROR_INVALID_FUNCTION 1
#define ERROR_ACCESS_DENIED 5
#define ERROR_INVALID_HANDLE 6
#define ERROR_NOT_ENOUGH_MEMORY 8
#define ERROR_OUTOFMEMORY 14
#define ERROR_NOT_SUPPORTED 50
#define ERROR_INVALID_PARAMETER 87
#define ERROR_CALL_NOT_IMPLEMENTED 120
#define ERROR_TOO_MANY_POSTS 298
#define ERROR_ALREADY_EXISTS 183
#define ERROR_TIMEOUT 1460
#define ERROR_NO_SYSTEM_RESOURCES 1450
#define CREATE_SUSPENDED 4
#define STACK_SIZE_PARAM_IS_A_RESERVATION 0x10000
#define DUPLICATE_CLOSE_SOURCE 1
#define DUPLICATE_SAME_ACCESS 2
#define THREAD_PRIORITY_LOWEST (-2)
#define THREAD_PRIORITY_BELOW_NORMAL (-1)
#define THREAD_PRIORITY_NORMAL 0
#define THREAD_PRIORITY_ABOVE_NORMAL 1
#define THREAD_PRIORITY_HIGHEST 2
#define THREAD_PRIORITY_TIME_CRITICAL 15
#define THREAD_PRIORITY_IDLE (-15)
#define THREAD_PRIORITY_ERROR_RETURN 0x7fffffff
#define THREAD_BASE_PRIORITY_LOWRT 15
#define THREAD_BASE_PRIORITY_MAX 2
#define THREAD_BASE_PRIORITY_MIN (-2)
#define THREAD_BASE_PRIORITY_IDLE (-15)
#define PROCESS_TERMINATE 1
#define PROCESS_DUP_HANDLE 0x40
#define PROCESS_SET_INFORMATION 0x200
#define PROCESS_QUERY_INFORMATION 0x400
#define PROCESS_QUERY_LIMITED_INFORMATION 0x1000
#define PROCESS_ALL_ACCESS 0x1FFFFF
#define THREAD_ALL_ACCESS 0x1FFFFF
#define THREAD_SUSPEND_RESUME 2
#define THREAD_TERMINATE 1
#define THREAD_GET_CONTEXT 8
#define THREAD_SET_CONTEXT 16
#define THREAD_QUERY_INFORMATION 64
#define SYNCHRONIZE 0x100000
#define EVENT_MODIFY_STATE 2
#define EVENT_ALL_ACCESS 0x1F0003
#define SEMAPHORE_ALL_ACCESS 0x1F0003
#define DLL_PROCESS_ATTACH 1
#define DLL_PROCESS_DETACH 0
#define DLL_THREAD_ATTACH 2
#define DLL_THREAD_DETACH 3
#define TLS_OUT_OF_INDEXES 0xFFFFFFFFu
#define TLS_MINIMUM_AVAILABLE 64
#define CONTEXT_AMD64 0x100000
#define CONTEXT_CONTROL (CONTEXT_AMD64|1)
#define CONTEXT_INTEGER (CONTEXT_AMD64|2)
#define CONTEXT_FULL (CONTEXT_AMD64|0xb)
#define CONTEXT_ALL (CONTEXT_AMD64|0x1f)
#define HEAP_ZERO_MEMORY 8
#define LMEM_FIXED 0
#define LMEM_ZEROINIT 0x40
#define LPTR 0x40
typedef struct _FILETIME { DWORD dwLowDateTime, dwHighDateTime; } FILETIME, *PFILETIME, *LPFILETIME;
typedef struct _SYSTEMTIME { WORD wYear, wMonth, wDayOfWeek, wDay, wHour, wMinute, wSecond, wMilliseconds; } SYSTEMTIME, *LPSYSTEMTIME;
typedef union _LARGE_INTEGER { struct { DWORD LowPart; LONG HighPart; }; struct { DWORD LowPart; LONG HighPart; } u; LONGLONG QuadPart; } LARGE_INTEGER, *PLARGE_INTEGER;
typedef union _ULARGE_INTEGER { struct { DWORD LowPart; DWORD HighPart; }; struct { DWORD LowPart; DWORD HighPart; } u; ULONGLONG QuadPart; } ULARGE_INTEGER, *PULARGE_INTEGER;
typedef struct _SECURITY_ATTRIBUTES { DWORD nLength; LPVOID lpSecurityDescriptor; BOOL bInheritHandle; } SECURITY_ATTRIBUTES, *LPSECURITY_ATTRIBUTES;
typedef struct _CONTEXT { DWORD ContextFlags; DWORD64 Rax, Rcx, Rdx, Rbx, Rsp, Rbp, Rsi, Rdi, Rip; DWORD Eip; } CONTEXT, *PCONTEXT, *LPCONTEXT;
typedef struct _SYSTEM_INFO { WORD wProcessorArchitecture, wReserved; DWORD dwPageSize; LPVOID lpMin, lpMax; DWORD_PTR dwActiveProcessorMask; DWORD dwNumberOfProcessors, dwProcessorType, dwAllocationGranularity; WORD wProcessorLevel, wProcessorRevision; } SYSTEM_INFO, *LPSYSTEM_INFO;
typedef struct _CRITICAL_SECTION { HANDLE own; LONG cnt; HANDLE ev; LONG waiters; } CRITICAL_SECTION, *LPCRITICAL_SECTION, *PCRITICAL_SECTION;
typedef void (*PAPCFUNC)(ULONG_PTR);
typedef DWORD (*LPTHREAD_START_ROUTINE)(LPVOID);
typedef DWORD (*PTHREAD_START_ROUTINE)(LPVOID);
typedef INT_PTR (*FARPROC)(void);
typedef INT_PTR (*NEARPROC)(void);
typedef INT_PTR (*PROC)(void);

HANDLE CreateEventA(LPSECURITY_ATTRIBUTES, BOOL manual, BOOL init, LPCSTR name);
HANDLE CreateEventW(LPSECURITY_ATTRIBUTES, BOOL manual, BOOL init, LPCWSTR name);
HANDLE CreateEventExA(LPSECURITY_ATTRIBUTES, LPCSTR name, DWORD flags, DWORD acc);
BOOL SetEvent(HANDLE); BOOL ResetEvent(HANDLE); BOOL PulseEvent(HANDLE);
HANDLE CreateSemaphoreA(LPSECURITY_ATTRIBUTES, LONG init, LONG max, LPCSTR name);
HANDLE CreateSemaphoreW(LPSECURITY_ATTRIBUTES, LONG init, LONG max, LPCWSTR name);
BOOL ReleaseSemaphore(HANDLE, LONG n, LONG *prev);
HANDLE CreateMutexA(LPSECURITY_ATTRIBUTES, BOOL own, LPCSTR name);
BOOL ReleaseMutex(HANDLE);
DWORD WaitForSingleObject(HANDLE, DWORD ms);
DWORD WaitForSingleObjectEx(HANDLE, DWORD ms, BOOL alertable);
DWORD WaitForMultipleObjects(DWORD n, const HANDLE *h, BOOL all, DWORD ms);
DWORD WaitForMultipleObjectsEx(DWORD n, const HANDLE *h, BOOL all, DWORD ms, BOOL alertable);
DWORD SignalObjectAndWait(HANDLE, HANDLE, DWORD ms, BOOL alertable);
BOOL CloseHandle(HANDLE);
BOOL DuplicateHandle(HANDLE sp, HANDLE sh, HANDLE tp, LPHANDLE th, DWORD acc, BOOL inh, DWORD opt);
BOOL GetHandleInformation(HANDLE, LPDWORD);
HANDLE CreateThread(LPSECURITY_ATTRIBUTES, SIZE_T stk, LPTHREAD_START_ROUTINE, LPVOID arg, DWORD flags, LPDWORD tid);
void ExitThread(DWORD code) __attribute__((noreturn));
uintptr_t _beginthreadex(void *sec, unsigned stk, unsigned (*start)(void *), void *arg, unsigned flags, unsigned *tid);
uintptr_t _beginthread(void (*start)(void *), unsigned stk, void *arg);
void _endthreadex(unsigned code);
void _endthread(void);
DWORD SuspendThread(HANDLE); DWORD ResumeThread(HANDLE);
BOOL TerminateThread(HANDLE, DWORD code);
BOOL GetExitCodeThread(HANDLE, LPDWORD);
BOOL GetThreadContext(HANDLE, LPCONTEXT); BOOL SetThreadContext(HANDLE, const CONTEXT *);
DWORD QueueUserAPC(PAPCFUNC, HANDLE, ULONG_PTR);
HANDLE GetCurrentThread(void); DWORD GetCurrentThreadId(void);
HANDLE GetCurrentProcess(void); DWORD GetCurrentProcessId(void);
HANDLE OpenThread(DWORD, BOOL, DWORD); HANDLE OpenProcess(DWORD, BOOL, DWORD);
DWORD GetThreadId(HANDLE); DWORD GetProcessId(HANDLE);
BOOL SetThreadPriority(HANDLE, int); int GetThreadPriority(HANDLE);
BOOL SetThreadPriorityBoost(HANDLE, BOOL);
DWORD_PTR SetThreadAffinityMask(HANDLE, DWORD_PTR);
BOOL GetProcessAffinityMask(HANDLE, PDWORD_PTR, PDWORD_PTR);
BOOL SetProcessAffinityMask(HANDLE, DWORD_PTR);
DWORD TlsAlloc(void); BOOL TlsFree(DWORD); LPVOID TlsGetValue(DWORD); BOOL TlsSetValue(DWORD, LPVOID);
void SetLastError(DWORD); DWORD GetLastError(void);
void Sleep(DWORD ms); DWORD SleepEx(DWORD ms, BOOL); BOOL SwitchToThread(void);
void YieldProcessor(void);
void GetSystemTimeAsFileTime(LPFILETIME); void GetSystemTimePreciseAsFileTime(LPFILETIME);
void GetSystemTime(LPSYSTEMTIME); BOOL SystemTimeToFileTime(const SYSTEMTIME *, LPFILETIME); BOOL FileTimeToSystemTime(const FILETIME *, LPSYSTEMTIME);
DWORD GetTickCount(void); ULONGLONG GetTickCount64(void);
DWORD timeGetTime(void);
BOOL QueryPerformanceCounter(LARGE_INTEGER *); BOOL QueryPerformanceFrequency(LARGE_INTEGER *);
void GetSystemInfo(LPSYSTEM_INFO); void GetNativeSystemInfo(LPSYSTEM_INFO);
DWORD GetCurrentProcessorNumber(void);
HMODULE LoadLibraryA(LPCSTR); HMODULE LoadLibraryW(LPCWSTR); HMODULE LoadLibraryExA(LPCSTR, HANDLE, DWORD); BOOL FreeLibrary(HMODULE);
FARPROC GetProcAddress(HMODULE, LPCSTR); HMODULE GetModuleHandleA(LPCSTR);
UINT GetSystemDirectoryA(LPSTR, UINT);
HANDLE GetProcessHeap(void); LPVOID HeapAlloc(HANDLE, DWORD, SIZE_T); BOOL HeapFree(HANDLE, DWORD, LPVOID);
HLOCAL LocalAlloc(UINT, SIZE_T); HLOCAL LocalFree(HLOCAL);
void InitializeCriticalSection(LPCRITICAL_SECTION); BOOL InitializeCriticalSectionAndSpinCount(LPCRITICAL_SECTION, DWORD);
void EnterCriticalSection(LPCRITICAL_SECTION); BOOL TryEnterCriticalSection(LPCRITICAL_SECTION);
void LeaveCriticalSection(LPCRITICAL_SECTION); void DeleteCriticalSection(LPCRITICAL_SECTION);
void OutputDebugStringA(LPCSTR); BOOL IsDebuggerPresent(void); void DebugBreak(void);
void RaiseException(DWORD, DWORD, DWORD, const ULONG_PTR *);
BOOL DisableThreadLibraryCalls(HMODULE);
void ExitProcess(UINT) __attribute__((noreturn));
int _set_errno(int); int _get_errno(int *);
int *sim_errno_loc(void);

LONG InterlockedIncrement(volatile LONG *); LONG InterlockedDecrement(volatile LONG *);
LONG InterlockedExchange(volatile LONG *, LONG); LONG InterlockedExchangeAdd(volatile LONG *, LONG);
LONG InterlockedCompareExchange(volatile LONG *, LONG, LONG);
LONG InterlockedOr(volatile LONG *, LONG); LONG InterlockedAnd(volatile LONG *, LONG); LONG InterlockedXor(volatile LONG *, LONG);
LONG64 InterlockedIncrement64(volatile LONG64 *); LONG64 InterlockedDecrement64(volatile LONG64 *);
LONG64 InterlockedExchange64(volatile LONG64 *, LONG64); LONG64 InterlockedExchangeAdd64(volatile LONG64 *, LONG64);
LONG64 InterlockedCompareExchange64(volatile LONG64 *, LONG64, LONG64);
PVOID InterlockedExchangePointer(PVOID volatile *, PVOID); PVOID InterlockedCompareExchangePointer(PVOID volatile *, PVOID, PVOID);
void MemoryBarrier(void);
#define _InterlockedIncrement InterlockedIncrement
#define _InterlockedDecrement InterlockedDecrement
#define _InterlockedExchange InterlockedExchange
#define _InterlockedExchangeAdd InterlockedExchangeAdd
#define _InterlockedCompareExchange InterlockedCompareExchange
#define _InterlockedCompareExchange64 InterlockedCompareExchange64
#define _InterlockedExchange64 InterlockedExchange64
#define _InterlockedExchangePointer InterlockedExchangePointer
#define _InterlockedCompareExchangePointer InterlockedCompareExchangePointer
#define _ReadWriteBarrier() __asm__ __volatile__("":::"memory")

#define CreateEvent CreateEventA
#define CreateSemaphore CreateSemaphoreA
#define CreateMutex CreateMutexA
#define LoadLibrary LoadLibraryA
#define LoadLibraryEx LoadLibraryExA
#define GetModuleHandle GetModuleHandleA
#define GetSystemDirectory GetSystemDirectoryA
#define OutputDebugString OutputDebugStringA
#define CopyMemory(d,s,n) memcpy((d),(s),(n))
#define MoveMemory(d,s,n) memmove((d),(s),(n))
#define ZeroMemory(d,n) memset((d),0,(n))
#define FillMemory(d,n,v) memset((d),(v),(n))
#define LOWORD(x) ((WORD)(x))
#define HIWORD(x) ((WORD)(((DWORD)(x))>>16))
#define TEXT(x) x
#define _T(x) x
#ifdef __cplusplus
}
#endif
#endif

/* Force-included (-include) in every translation unit that is rewritten for
 * the simulator: host headers first, then the host's pthread/sched/semaphore
 * macros and platform macros are removed and the Windows ones put in place. */
#include "hosthdrs.h"
#include "gen_undef.h"
struct w32_timespec { time_t tv_sec; int tv_nsec; };
#undef _SCHED_H
#undef _SEMAPHORE_H
#undef SEMAPHORE_H
#undef SCHED_H
#undef PTHREAD_H
#undef __linux__
#undef __linux
#undef linux
#undef __unix__
#undef __unix
#undef unix
#undef __gnu_linux__
#define _WIN32 1
#define __WIN32__ 1
#define __WIN32 1
#define WIN32 1
#define _WIN64 1
#define __WIN64__ 1
#define WIN64 1
#define __WINNT__ 1
#define __MINGW32__ 1
#define __MINGW64__ 1
#define __MSVCRT__ 1
#define __MSVCRT_VERSION__ 0x700
#define _MT
#define _DLL
#define _AMD64_
#define _M_AMD64 100
#define _WIN32_WINNT 0xa00
#ifndef __declspec
#define __declspec(x)
#endif
#define __cdecl
#define __stdcall
#define __fastcall
#define _cdecl
#define _stdcall
#define __forceinline inline
#define _CRTIMP
#define PTW32_VERIF_SIM 1

#ifdef __cplusplus
extern "C" {
#endif
void sim_asm_point(void);
void *sim_malloc(size_t), *sim_calloc(size_t, size_t), *sim_realloc(void *, size_t);
void sim_free(void *);
char *sim_strdup(const char *);
void *simh_malloc(size_t), *simh_calloc(size_t, size_t), *simh_realloc(void *, size_t);
void simh_free(void *);
char *simh_strdup(const char *);
void sim_exit(int) __attribute__((noreturn));
int *sim_errno_loc(void);
#ifdef __cplusplus
}
#endif

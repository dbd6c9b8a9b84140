/* Common definitions of the workloads: compiled through the same LLP64
 * pipeline as the library, as C (VC build) and as C++ (VCE build). */
#ifndef WK_H
#define WK_H
#include "pthread.h"
#include "semaphore.h"
#include "sched.h"
#include "w32api.h"
#include <string.h>
#include <stdio.h>
#include <errno.h>
#include "sim.h"
#define R(n) ((int)sim_rand(n))
#define OK(call, orc) do { int wk_rc = (call); SIM_CHECK(wk_rc == 0, orc, "%s returned %d (%s:%d)", #call, wk_rc, __func__, __LINE__); } while (0)
#define EQ(call, val, orc) do { int wk_rc = (call), wk_ex = (val); SIM_CHECK(wk_rc == wk_ex, orc, "%s returned %d, expected %d (%s:%d)", #call, wk_rc, wk_ex, __func__, __LINE__); } while (0)
#define CK(c, orc, ...) SIM_CHECK(c, orc, __VA_ARGS__)
#ifdef __cplusplus
#define WKL extern "C"
#else
#define WKL
#endif
#define WORKLOAD(n) static void n(int ep, int nep); static __attribute__((constructor)) void wk_reg_##n(void) { sim_register(#n, n); } static void n(int ep __attribute__((unused)), int nep __attribute__((unused)))
typedef void *(*wk_fn)(void *);
typedef struct timespec wk_ts;
/* absolute time: now + us (virtual wall clock) */
static inline __attribute__((unused)) void wk_abs(struct timespec *t, int us) {
  uint64_t n = sim_now(); int64_t v = (int64_t)n + (int64_t)us * 10; if (v < 0) v = 0;
  t->tv_sec = v / 10000000; t->tv_nsec = (int)(v % 10000000) * 100; }
static inline __attribute__((unused)) int64_t wk_ts100(const struct timespec *t) { return (int64_t)t->tv_sec * 10000000 + t->tv_nsec / 100; }
static inline __attribute__((unused)) void wk_spawn(pthread_t *t, wk_fn f, void *a) { OK(pthread_create(t, NULL, f, a), "create"); }
static inline __attribute__((unused)) void *wk_join(pthread_t t) { void *r = NULL; OK(pthread_join(t, &r), "join"); return r; }
static inline __attribute__((unused)) void wk_work(int n) { while (n-- > 0) sim_user_point(); }
#define NELEM(a) ((int)(sizeof(a) / sizeof((a)[0])))
#endif

#include "wk.h"
/* ---- once: exactly one completed execution, finished before any caller returns,
 * an execution that is cancelled or exits does not count ------------------------ */
#define NO 2
static pthread_once_t ON[NO]; static volatile int begun[NO], finished[NO], running[NO], abort_n[NO], aborted[NO]; static const pthread_once_t on_init = PTHREAD_ONCE_INIT; static int cxl;
static void onc(int k) {
  int r = sim_add(&running[k], 1); CK(r == 1, "once-overlap", "%d executions of the same initialiser overlap", r);
  sim_add(&begun[k], 1); CK(!finished[k], "once-again", "initialiser runs again after it completed");
  wk_work(R(4)); if (R(3) == 0) sim_delay_us(R(2000));
}
static void onc_end(int k) { sim_add(&running[k], -1); sim_add(&finished[k], 1); }
static void onc_unw(void *v) { int k = (int)(size_t)v; sim_add(&running[k], -1); sim_add(&aborted[k], 1); sim_stat("aborted_inits", 1); }
static void init_k(int k) {
  onc(k);
  pthread_cleanup_push(onc_unw, (void *)(size_t)k);
  if (abort_n[k] > 0 && sim_add(&abort_n[k], -1) >= 0) pthread_exit((void *)77);
  if (R(2)) pthread_testcancel();
  pthread_cleanup_pop(0);
  onc_end(k);
}
static void init0(void) { init_k(0); if (R(3) == 0) { /* nested use of another control */ } }
static void init1(void) { init_k(1); }
static void *on_thr(void *v) {
  for (int i = 0, m = 1 + R(3); i < m; i++) { int k = R(NO); OK(pthread_once(&ON[k], k ? init1 : init0), "once"); CK(finished[k] == 1, "once-incomplete", "pthread_once returned with the initialiser completed %d times", finished[k]); sim_stat("once_returns", 1); }
  return v;
}
WORKLOAD(once) {
  pthread_t t[6]; int n = 2 + R(5); cxl = R(3) == 0;
  for (int k = 0; k < NO; k++) { ON[k] = on_init; begun[k] = finished[k] = running[k] = aborted[k] = 0; abort_n[k] = R(4) == 0 ? 1 + R(2) : 0; }
  EQ(pthread_once(NULL, init0), EINVAL, "null"); EQ(pthread_once(&ON[0], NULL), EINVAL, "null");
  for (int i = 0; i < n; i++) wk_spawn(&t[i], on_thr, &t[i]);
  if (cxl) for (int k = 0, m = 1 + R(3); k < m; k++) { if (R(2)) sim_delay_us(R(2000)); int rc = pthread_cancel(t[R(n)]); CK(rc == 0 || rc == ESRCH, "cancel", "cancel -> %d", rc); }
  for (int i = 0; i < n; i++) { void *r = wk_join(t[i]); CK(r == (void *)&t[i] || r == PTHREAD_CANCELED || r == (void *)77, "join", "join value %p", r); }
  for (int k = 0; k < NO; k++) { CK(running[k] == 0 && finished[k] <= 1 && begun[k] == finished[k] + aborted[k], "once-count", "begun %d finished %d aborted %d", begun[k], finished[k], aborted[k]);
    abort_n[k] = 0; int b = begun[k], f = finished[k]; OK(pthread_once(&ON[k], k ? init1 : init0), "once"); CK(finished[k] == 1 && begun[k] == b + (f ? 0 : 1), "once-count", "final call: finished %d", finished[k]); }
  sim_state(n + 8 * begun[0] + 64 * begun[1]);
}
/* an abandoned execution is retried by a waiter, whichever it is */
static volatile int on_ret;
static void init_die(void) { sim_add(&begun[0], 1); int r = sim_add(&running[0], 1); CK(r == 1, "once-overlap", "overlap"); pthread_cleanup_push(onc_unw, (void *)0); if (begun[0] <= abort_n[0]) { sim_settle(); if (R(2)) pthread_exit((void *)77); else { pthread_cancel(pthread_self()); pthread_testcancel(); } } pthread_cleanup_pop(0); onc_end(0); }
static void *od_thr(void *v) { OK(pthread_once(&ON[0], init_die), "once"); CK(finished[0] == 1, "once-incomplete", "returned early"); sim_add(&on_ret, 1); return v; }
WORKLOAD(once_retry) {
  pthread_t t[6]; int n = 2 + R(5); ON[0] = on_init; begun[0] = finished[0] = running[0] = aborted[0] = on_ret = 0; abort_n[0] = 1 + R(n);
  for (int i = 0; i < n; i++) wk_spawn(&t[i], od_thr, &t[i]);
  for (int i = 0; i < n; i++) wk_join(t[i]);
  int ex = n - abort_n[0]; CK(begun[0] == (ex > 0 ? abort_n[0] + 1 : n), "once-retry", "%d callers, first %d give up: initialiser began %d times", n, abort_n[0], begun[0]); CK(on_ret == (ex > 0 ? ex : 0), "once-retry", "%d callers returned", on_ret); sim_state(n * 8 + abort_n[0]);
}

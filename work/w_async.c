#include "wk.h"
/* ---- asynchronous cancellation: strikes anywhere while enabled and asynchronous,
 * never while disabled or deferred; the functions that must be async-cancel-safe
 * (setcancelstate, setcanceltype, cancel) survive being interrupted ------------ */
#define NA 3
typedef struct { int id, safe; pthread_t th; volatile int prot, begun, struck, handlers, loops, ready, viol, ended; } as;
static as A[NA]; static int na; static volatile int helpers;
static void ah(void *v) { as *a = (as *)v; a->struck = 1; a->handlers++; CK(a->begun, "cancel-unsent", "cancelled without a request"); CK(!a->prot, "async-protected", "asynchronous cancellation struck in a protected region (%d)", a->prot); int old = 9; (void)old; wk_work(R(3)); }
static void *as_thr(void *v) {
  as *a = (as *)v; int old; sim_label("async"); a->prot = 1;
  pthread_cleanup_push(ah, a);
  OK(pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, NULL), "state"); OK(pthread_setcanceltype(PTHREAD_CANCEL_ASYNCHRONOUS, &old), "type"); CK(old == PTHREAD_CANCEL_DEFERRED, "old-type", "initial type %d", old);
  a->ready = 1; wk_work(R(5));
  a->prot = 0; OK(pthread_setcancelstate(PTHREAD_CANCEL_ENABLE, &old), "state"); CK(old == PTHREAD_CANCEL_DISABLE, "old-state", "old state %d", old);
  for (;;) {  /* only a cancellation ends this */
    sim_add(&a->loops, 1); wk_work(1 + R(4));
    int k = R(a->safe ? 3 : 6);
    if (k == 0) { OK(pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &old), "state"); a->prot = 2; CK(old == PTHREAD_CANCEL_ENABLE, "old-state", "old state %d", old); wk_work(1 + R(6)); if (R(3) == 0) sim_delay_us(R(300)); a->prot = 0; OK(pthread_setcancelstate(PTHREAD_CANCEL_ENABLE, &old), "state"); }
    else if (k == 1) { OK(pthread_setcanceltype(PTHREAD_CANCEL_DEFERRED, &old), "type"); a->prot = 3; CK(old == PTHREAD_CANCEL_ASYNCHRONOUS, "old-type", "old type %d", old); wk_work(1 + R(6)); a->prot = 0; OK(pthread_setcanceltype(PTHREAD_CANCEL_ASYNCHRONOUS, &old), "type"); }
    else sim_delay_us(R(50));
    if (a->loops > 20000) { a->viol = 1; break; }
  }
  pthread_cleanup_pop(0);
  return v;
}
static void ask(as *a) { sim_add(&a->begun, 1); int rc = pthread_cancel(a->th); CK(rc == 0 || (rc == ESRCH && (a->begun > 1 || a->struck)), "cancel", "pthread_cancel -> %d", rc); sim_stat(rc ? "cancels_late" : "cancels", 1); }
static void *asker(void *v) { for (int i = 0, n = 1 + R(2); i < n; i++) { if (R(2)) sim_delay_us(R(2000)); else wk_work(R(8)); ask(&A[R(na)]); } return v; }
WORKLOAD(cancel_async) {
  pthread_t q[2]; int nq = R(3); memset(A, 0, sizeof A); na = 1 + R(NA);
  for (int i = 0; i < na; i++) { A[i].id = i; wk_spawn(&A[i].th, as_thr, &A[i]); }
  for (int i = 0; i < na; i++) while (!A[i].ready) sim_delay_us(50);
  for (int i = 0; i < nq; i++) wk_spawn(&q[i], asker, NULL);
  if (R(2)) sim_delay_us(R(2500)); else wk_work(R(20));
  for (int i = 0; i < na; i++) ask(&A[i]);
  for (int i = 0; i < na; i++) { void *r = wk_join(A[i].th); CK(!A[i].viol, "async-ignored", "asynchronous cancellation never struck"); CK(r == PTHREAD_CANCELED, "cancel-value", "join value %p", r); CK(A[i].handlers == 1, "handler-count", "handler ran %d times", A[i].handlers); }
  for (int i = 0; i < nq; i++) wk_join(q[i]);
  sim_state(na * 8 + nq);
}
/* a thread that cancels itself asynchronously, and setcancelstate/type acting on a
 * request that is already pending */
static volatile int st;
static void sh(void *v) { (void)v; st = 2; }
static void *self_async(void *v) { pthread_cleanup_push(sh, NULL); OK(pthread_setcanceltype(PTHREAD_CANCEL_ASYNCHRONOUS, NULL), "type"); st = 1; pthread_cancel(pthread_self()); st = 9; pthread_cleanup_pop(0); return v; }
static void *pend_async(void *v) { pthread_cleanup_push(sh, NULL); int w = R(2);
  if (w) OK(pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, NULL), "state"); 
  OK(pthread_cancel(pthread_self()), "cancel"); wk_work(1); st = 1;
  if (w) { OK(pthread_setcanceltype(PTHREAD_CANCEL_ASYNCHRONOUS, NULL), "type"); CK(st == 1, "early", "struck while disabled"); pthread_setcancelstate(PTHREAD_CANCEL_ENABLE, NULL); } else pthread_setcanceltype(PTHREAD_CANCEL_ASYNCHRONOUS, NULL);
  st = 9; pthread_cleanup_pop(0); return v; }
WORKLOAD(cancel_async_self) { pthread_t t; for (int k = 0; k < 3; k++) { st = 0; wk_spawn(&t, R(2) ? self_async : pend_async, NULL); void *r = wk_join(t); CK(st == 2 && r == PTHREAD_CANCELED, "async-self", "state %d value %p", st, r); } sim_state(1); }

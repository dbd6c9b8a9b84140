#include "wk.h"
/* ---- deferred cancellation: acted upon at cancellation points and only there,
 * never while disabled, waking blocked threads; handlers run once, innermost
 * first, and can use the library normally ------------------------------------ */
#define NTG 3
enum { O_TEST, O_SEM, O_TSEM, O_COND, O_TCOND, O_JOIN, O_TJOIN, O_DELAY, O_DELAY0, O_HWAIT, O_THWAIT, NCP, N_MUTEX = NCP, N_TRY, N_POST, N_CREATE, N_STATE, N_TYPE, N_ONCE, N_SPIN, N_RW, N_BARRIER, N_TSD, N_MTIMED, N_HOLD, N_SIGNAL, N_LAST };
typedef struct tg { int id, nops, end, nh; pthread_t th; volatile int enabled, in_cp, sent, begun_send, acted, handlers, dest, started, finished, order[4], norder, hops, running; int op; uint64_t sent_seq; } tg;
static HANDLE evh; static volatile int evset, evgot; static tg G[NTG]; static int ng; static pthread_mutex_t mxs, mxb, mxc, mxh; static pthread_cond_t cv; static sem_t sm, sm2; static pthread_t victim; static volatile int vstop, done; static pthread_key_t key; static pthread_spinlock_t sp; static pthread_rwlock_t rw; static pthread_barrier_t ba; static pthread_once_t onc = PTHREAD_ONCE_INIT; static const pthread_once_t onc0 = PTHREAD_ONCE_INIT;
static void noop(void) { } static void *noopt(void *v) { return v; }
static void *victim_thr(void *v) { while (!vstop) sim_delay_us(500); return v; }
static void unl(void *m) { OK(pthread_mutex_unlock((pthread_mutex_t *)m), "wait-cancel-mutex"); }
static void nap(struct timespec *ts, int us) { ts->tv_sec = us / 1000000; ts->tv_nsec = us % 1000000 * 1000; }
/* an operation that must not be disturbed by a cancellation request: called with
 * cancellation disabled, or in handlers and destructors */
static void undisturbed(const char *where) {
  struct timespec ts; int us = R(1500), rc; uint64_t t0;
  switch (R(10)) {
  case 9: t0 = sim_mono(); rc = pthreadCancelableTimedWait(pthread_getw32threadhandle_np(victim), us / 1000); CK(rc == ETIMEDOUT, "undisturbed", "pthreadCancelableTimedWait in %s -> %d", where, rc); CK(sim_mono() >= t0 + (uint64_t)(us / 1000) * 10000, "undisturbed", "pthreadCancelableTimedWait in %s returned early", where); break;
  case 0: pthread_testcancel(); break;
  case 1: wk_abs(&ts, us); t0 = sim_now(); rc = sem_timedwait(&sm2, &ts); CK(rc == -1 && errno == ETIMEDOUT, "undisturbed", "sem_timedwait in %s -> %d errno %d", where, rc, errno); CK(sim_now() + 10000 >= (uint64_t)wk_ts100(&ts), "undisturbed", "sem_timedwait in %s returned early", where); break;
  case 2: { pthread_mutex_t m; pthread_cond_t c; OK(pthread_mutex_init(&m, NULL), "init"); OK(pthread_cond_init(&c, NULL), "init"); OK(pthread_mutex_lock(&m), "undisturbed"); wk_abs(&ts, us); rc = pthread_cond_timedwait(&c, &m, &ts); CK(rc == ETIMEDOUT, "undisturbed", "pthread_cond_timedwait in %s -> %d", where, rc); OK(pthread_mutex_unlock(&m), "undisturbed"); OK(pthread_cond_destroy(&c), "undisturbed"); OK(pthread_mutex_destroy(&m), "undisturbed"); break; }
  case 3: nap(&ts, us); t0 = sim_now(); rc = pthread_delay_np(&ts); CK(rc == 0, "undisturbed", "pthread_delay_np in %s -> %d", where, rc); CK(sim_now() + 10000 >= t0 + (uint64_t)us * 10, "undisturbed", "delay in %s ended early", where); break;
  case 4: { sem_t s; OK(sem_init(&s, 0, 1), "init"); rc = sem_wait(&s); CK(rc == 0, "undisturbed", "sem_wait on an available semaphore in %s -> %d", where, rc); OK(sem_destroy(&s), "destroy"); break; }
  case 5: { pthread_t t; void *v; wk_spawn(&t, noopt, (void *)9); rc = pthread_join(t, &v); CK(rc == 0 && v == (void *)9, "undisturbed", "pthread_join in %s -> %d, value %p", where, rc, v); break; }
  case 6: wk_abs(&ts, us); rc = pthread_timedjoin_np(victim, NULL, &ts); CK(rc == ETIMEDOUT, "undisturbed", "pthread_timedjoin_np in %s -> %d", where, rc); break;
  case 7: OK(pthread_mutex_lock(&mxs), "undisturbed"); wk_work(1); OK(pthread_mutex_unlock(&mxs), "undisturbed"); break;
  case 8: pthread_cleanup_push(noopt ? (void (*)(void *))sim_user_point : NULL, NULL); wk_work(1); pthread_cleanup_pop(R(2)); break;
  }
  sim_stat("undisturbed_ops", 1);
}
static void hnd(tg *g, int lvl) {
  CK(!g->finished, "handler-after-end", "handler runs after the thread's end");
  g->order[g->norder++] = lvl; CK(g->norder == 1 || g->order[g->norder - 1] < g->order[g->norder - 2], "handler-order", "handler %d runs after handler %d", lvl, g->order[g->norder - 2]);
  CK(g->running == 0, "handler-nesting", "handler interrupted"); g->running = 1;
  if (g->hops && g->end != 0 && R(2)) { for (int i = 0; i < g->hops; i++) undisturbed("a cleanup handler"); }
  g->running = 0; g->handlers++;
}
static void chk_reason(tg *g) { /* called by the innermost handler */
  if (g->end != 99) return; /* not by exit */
  CK(g->begun_send, "cancel-unsent", "a thread was cancelled without a request");
  CK(g->enabled, "cancel-disabled", "a thread was cancelled while cancellation was disabled (operation %d)", g->op);
  CK(g->in_cp, "cancel-noncp", "a thread with deferred cancellation was cancelled outside a cancellation point (operation %d)", g->op); g->acted = 1; }
static void h0(void *v) { hnd((tg *)v, 0); } static void h1(void *v) { hnd((tg *)v, 1); } static void h2(void *v) { tg *g = (tg *)v; chk_reason(g); hnd(g, 2); }
static void kdes(void *v) { tg *g = (tg *)v; CK(g->handlers == 3, "destructor-order", "key destructor ran after %d of 3 handlers", g->handlers); g->dest++; if (g->hops && R(2)) undisturbed("a key destructor"); }
static void one_op(tg *g) {
  int op = R(3) ? R(NCP) : NCP + R(N_LAST - NCP), rc; struct timespec ts; int us = R(2500); g->op = op;
  if (!g->enabled && op < NCP) { undisturbed("a region with cancellation disabled"); return; }
  int must = 0; /* the request had been made before the call: the call must not return */
  if (op < NCP) { g->in_cp = 1; must = g->sent; }
  switch (op) {
  case O_TEST: pthread_testcancel(); break;
  case O_SEM: rc = sem_wait(&sm); CK(rc == 0, "wait-result", "sem_wait -> %d errno %d", rc, errno); break;
  case O_TSEM: wk_abs(&ts, us); rc = sem_timedwait(&sm, &ts); CK(rc == 0 || errno == ETIMEDOUT, "wait-result", "sem_timedwait -> %d errno %d", rc, errno); break;
  case O_COND: case O_TCOND: OK(pthread_mutex_lock(&mxc), "lock"); pthread_cleanup_push(unl, &mxc); if (op == O_COND) { rc = pthread_cond_wait(&cv, &mxc); CK(rc == 0, "wait-result", "pthread_cond_wait -> %d", rc); } else { wk_abs(&ts, us); rc = pthread_cond_timedwait(&cv, &mxc, &ts); CK(rc == 0 || rc == ETIMEDOUT, "wait-result", "pthread_cond_timedwait -> %d", rc); } g->in_cp = 0; pthread_cleanup_pop(1); break;
  case O_JOIN: rc = pthread_join(victim, NULL); CK(0, "wait-result", "join of a running thread -> %d", rc); break;
  case O_TJOIN: wk_abs(&ts, us); rc = pthread_timedjoin_np(victim, NULL, &ts); CK(rc == ETIMEDOUT, "wait-result", "timedjoin -> %d", rc); break;
  case O_DELAY: nap(&ts, us); rc = pthread_delay_np(&ts); CK(rc == 0, "wait-result", "delay -> %d", rc); break;
  case O_DELAY0: nap(&ts, 0); rc = pthread_delay_np(&ts); CK(rc == 0, "wait-result", "delay -> %d", rc); break;
  case O_HWAIT: rc = pthreadCancelableWait(evh); CK(rc == 0, "wait-result", "pthreadCancelableWait -> %d", rc); sim_add(&evgot, 1); CK(evgot <= evset, "wait-result", "pthreadCancelableWait consumed %d signals of %d", evgot, evset); break;
  case O_THWAIT: rc = pthreadCancelableTimedWait(pthread_getw32threadhandle_np(victim), us / 1000); CK(rc == ETIMEDOUT, "wait-result", "pthreadCancelableTimedWait for a running thread -> %d", rc); break;
  case N_MUTEX: OK(pthread_mutex_lock(&mxb), "non-cp"); if (R(3) == 0) sim_delay_us(us / 4); OK(pthread_mutex_unlock(&mxb), "non-cp"); break;
  case N_TRY: rc = pthread_mutex_trylock(&mxb); CK(rc == 0 || rc == EBUSY, "non-cp", "trylock -> %d", rc); if (!rc) OK(pthread_mutex_unlock(&mxb), "non-cp"); rc = sem_trywait(&sm2); CK(rc == -1 && errno == EAGAIN, "non-cp", "sem_trywait -> %d", rc); break;
  case N_POST: if (R(3) == 0) OK(sem_post(&sm), "non-cp"); break;
  case N_CREATE: { pthread_t t; pthread_attr_t a; OK(pthread_attr_init(&a), "attr"); OK(pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED), "attr"); OK(pthread_create(&t, &a, noopt, NULL), "non-cp"); OK(pthread_attr_destroy(&a), "attr"); break; }
  case N_STATE: { int old = 77, to = g->enabled ? PTHREAD_CANCEL_DISABLE : PTHREAD_CANCEL_ENABLE; int was = g->enabled; OK(pthread_setcancelstate(to, &old), "non-cp"); CK(old == (was ? PTHREAD_CANCEL_ENABLE : PTHREAD_CANCEL_DISABLE), "old-state", "old cancel state %d", old); g->enabled = !was; EQ(pthread_setcancelstate(55, &old), EINVAL, "bad-state"); break; }
  case N_TYPE: { int old = 77; OK(pthread_setcanceltype(PTHREAD_CANCEL_DEFERRED, &old), "non-cp"); CK(old == PTHREAD_CANCEL_DEFERRED, "old-type", "old cancel type %d", old); EQ(pthread_setcanceltype(55, &old), EINVAL, "bad-type"); break; }
  case N_ONCE: OK(pthread_once(&onc, noop), "non-cp"); break;
  case N_SPIN: OK(pthread_spin_lock(&sp), "non-cp"); OK(pthread_spin_unlock(&sp), "non-cp"); break;
  case N_RW: if (R(2)) OK(pthread_rwlock_rdlock(&rw), "non-cp"); else { rc = pthread_rwlock_tryrdlock(&rw); CK(rc == 0 || rc == EBUSY /* another reader is busy entering */, "non-cp", "tryrdlock -> %d", rc); if (rc) break; } OK(pthread_rwlock_unlock(&rw), "non-cp"); break;
  case N_BARRIER: EQ(pthread_barrier_wait(&ba), PTHREAD_BARRIER_SERIAL_THREAD, "non-cp"); break;
  case N_TSD: OK(pthread_setspecific(key, g), "non-cp"); CK(pthread_getspecific(key) == g, "non-cp", "getspecific"); break;
  case N_MTIMED: wk_abs(&ts, us / 4); rc = pthread_mutex_timedlock(&mxh, &ts); CK(rc == ETIMEDOUT, "non-cp", "timedlock of a held mutex -> %d", rc); break;
  case N_HOLD: sim_delay_us(us / 2); break;
  case N_SIGNAL: OK(R(2) ? pthread_cond_signal(&cv) : pthread_cond_broadcast(&cv), "non-cp"); break;
  }
  g->in_cp = 0;
  if (op < NCP) { sim_stat("cp_returned", 1);
    CK(!must || op == O_COND || op == O_TCOND || op == O_TJOIN || op == O_HWAIT /* a signalled handle goes first */, "cancel-ignored", "cancellation point %d returned although a request had been made before it was called", op); }
}
static void *target(void *v) {
  tg *g = (tg *)v; g->started = 1; g->enabled = 1; sim_label("target"); g->end = 99; OK(pthread_setspecific(key, g), "setspecific");
  pthread_cleanup_push(h0, g); pthread_cleanup_push(h1, g); pthread_cleanup_push(h2, g);
  for (int i = 0; i < g->nops; i++) one_op(g);
  if (!g->enabled) { g->op = 200; OK(pthread_setcancelstate(PTHREAD_CANCEL_ENABLE, NULL), "enable"); g->enabled = 1; }
  if (R(3) == 0) while (!g->sent) sim_delay_us(100); /* end with a request pending */
  g->end = R(2);
  if (g->end) pthread_exit((void *)(size_t)(0x500 + g->id));
  pthread_cleanup_pop(1); pthread_cleanup_pop(1); pthread_cleanup_pop(1);
  return (void *)(size_t)(0x500 + g->id);
}
static void send(tg *g) { sim_add(&g->begun_send, 1); int rc = pthread_cancel(g->th); CK(rc == 0 || rc == ESRCH, "cancel", "pthread_cancel -> %d", rc); if (rc == 0) { g->sent = 1; sim_stat("cancels_sent", 1); } else CK(g->acted || g->end != 99 || g->begun_send > 1, "cancel-lost", "pthread_cancel of a live thread -> ESRCH"); }
static void *canceller(void *v) { for (int i = 0, n = 1 + R(3); i < n; i++) { if (R(3)) sim_delay_us(R(4000)); else wk_work(R(6)); send(&G[R(ng)]); } return v; }
static void *poker(void *v) { while (!done) { sim_delay_us(300 + R(2000)); if (R(2)) OK(sem_post(&sm), "post"); if (R(3) == 0) { sim_add(&evset, 1); CK(ReleaseSemaphore(evh, 1, NULL), "harness", "release"); } if (R(2)) OK(R(2) ? pthread_cond_signal(&cv) : pthread_cond_broadcast(&cv), "signal"); } return v; }
WORKLOAD(cancel_deferred) { sim_loader_lock = 0;
  pthread_t c[2], pk; int nc = R(3); memset(G, 0, sizeof G); ng = 1 + R(NTG); done = vstop = 0; onc = onc0; evset = evgot = 0; evh = CreateSemaphoreA(NULL, 0, 100000, NULL);
  OK(pthread_mutex_init(&mxs, NULL), "i"); OK(pthread_mutex_init(&mxb, NULL), "i"); OK(pthread_mutex_init(&mxc, NULL), "i"); OK(pthread_mutex_init(&mxh, NULL), "i"); OK(pthread_cond_init(&cv, NULL), "i"); OK(sem_init(&sm, 0, 0), "i"); OK(sem_init(&sm2, 0, 0), "i"); OK(pthread_key_create(&key, kdes), "i"); OK(pthread_spin_init(&sp, 0), "i"); OK(pthread_rwlock_init(&rw, NULL), "i"); OK(pthread_barrier_init(&ba, NULL, 1), "i");
  OK(pthread_mutex_lock(&mxh), "hold"); wk_spawn(&victim, victim_thr, NULL); wk_spawn(&pk, poker, NULL);
  for (int i = 0; i < ng; i++) { tg *g = &G[i]; g->id = i; g->nops = 1 + R(8); g->hops = R(3); wk_spawn(&g->th, target, g); }
  for (int i = 0; i < nc; i++) wk_spawn(&c[i], canceller, NULL);
  if (R(2)) sim_delay_us(R(6000));
  for (int i = 0; i < ng; i++) send(&G[i]);   /* in the end everybody is asked to go */
  for (int i = 0; i < nc; i++) wk_join(c[i]);
  for (int i = 0; i < ng; i++) { tg *g = &G[i]; void *r = wk_join(g->th); g->finished = 1;
    CK(g->handlers == 3 && g->norder == 3, "handler-count", "%d of 3 handlers ran", g->handlers); CK(g->dest >= 1, "destructor", "no key destructor ran");
    if (g->acted) CK(r == PTHREAD_CANCELED, "cancel-value", "a cancelled thread gave %p", r); else CK(r == (void *)(size_t)(0x500 + i), "exit-value", "a thread that was not cancelled gave %p (end %d)", r, g->end);
    sim_stat(g->acted ? "cancelled" : g->end == 1 ? "exited" : "returned", 1); if (!g->acted && g->sent) sim_stat("ended_with_pending_request", 1); EQ(pthread_cancel(g->th), ESRCH, "cancel-gone"); }
  done = vstop = 1; wk_join(pk); wk_join(victim); OK(pthread_mutex_unlock(&mxh), "hold");
  sim_quiesce(); { int left = 0; while (WaitForSingleObject(evh, 0) == WAIT_OBJECT_0) left++; CK(left + evgot == evset, "wait-cancel-handle", "%d signals, %d taken by waits that returned, %d left", evset, evgot, left); CloseHandle(evh); }
  OK(pthread_mutex_destroy(&mxs), "d"); OK(pthread_mutex_destroy(&mxb), "d"); OK(pthread_mutex_destroy(&mxc), "d"); OK(pthread_mutex_destroy(&mxh), "d"); OK(pthread_cond_destroy(&cv), "d"); OK(sem_destroy(&sm), "d"); OK(sem_destroy(&sm2), "d"); OK(pthread_key_delete(key), "d"); OK(pthread_spin_destroy(&sp), "d"); OK(pthread_rwlock_destroy(&rw), "d"); OK(pthread_barrier_destroy(&ba), "d");
  uint64_t h = ng; for (int i = 0; i < ng; i++) h = h * 97 + G[i].op * 4 + G[i].acted; sim_state(h);
}

#include "wk.h"
/* ---- sequential model of cancellation: one thread walks through random operations;
 * the model (state, type, pending) says of every call whether it must be acted on,
 * must not be, or returns; also inside cleanup handlers and key destructors ------- */
#define NT 3
enum { MAY_NOT, MUST, MAY };
typedef struct { int id, en, as, pend, acted, allow, end, nops, hops, handlers, dest, op, inh, hold; pthread_t th; volatile int ask, told, calm; sem_t av, un; } cm;
static cm C[NT]; static int nc; static volatile int stop_victim, stop_help; static pthread_t victim, donethr; static pthread_key_t key; static pthread_mutex_t mx, mc; static pthread_cond_t cv;
static void *vict(void *v) { while (!stop_victim) sim_delay_us(300); return v; } static void *nop(void *v) { return v; }
static void *helper(void *v) { sim_label("helper"); while (!stop_help) { for (int i = 0; i < nc; i++) if (C[i].ask && !C[i].told) { if (C[i].ask == 2) { while (!sim_thread_blocked(C[i].calm)) sim_delay_us(20); } int rc = pthread_cancel(C[i].th); CK(rc == 0, "cancel", "pthread_cancel of a running thread -> %d", rc); C[i].told = 1; } sim_delay_us(30); } return v; }
/* before a call: what the model says; after it: it returned */
static int pre(cm *c, int cp, int op) { c->op = op; c->allow = c->acted || !c->en || !c->pend ? MAY_NOT : c->as || cp ? MUST : MAY_NOT; return c->allow; }
static void post(cm *c, const char *what) { CK(c->allow != MUST, "cancel-ignored", "%s returned although cancellation is enabled (%s) and a request is pending", what, c->as ? "asynchronous" : "deferred"); c->allow = MAY_NOT; }
static void mustnot(cm *c, const char *what, int rc, int ex) { CK(rc == ex, "undisturbed", "%s -> %d (expected %d)%s", what, rc, ex, c->acted ? " after the cancellation was acted on" : c->pend ? " with a request pending" : ""); }
static void unlk(void *m) { OK(pthread_mutex_unlock((pthread_mutex_t *)m), "wait-cancel-mutex"); }
static void rel(struct timespec *t, int us) { t->tv_sec = 0; t->tv_nsec = us * 1000; }
static void step(cm *c, int inh) {
  struct timespec ts; int rc, old = 77, us = R(600), v; uint64_t t0;
  switch (R(inh ? 15 : 19)) {
  case 0: case 1: { int to = c->hold ? R(6) == 0 : R(2), was = c->en; c->en = to; pre(c, 0, 0); rc = pthread_setcancelstate(to ? PTHREAD_CANCEL_ENABLE : PTHREAD_CANCEL_DISABLE, R(4) ? &old : NULL); post(c, "pthread_setcancelstate"); OK(rc, "state"); CK(old == 77 || was < 0 || old == (was ? PTHREAD_CANCEL_ENABLE : PTHREAD_CANCEL_DISABLE), "old-state", "setting the state to %d gave the old state %d, last set to %d", to, old, was); break; }
  case 2: case 3: { int to = R(2), was = c->as; c->as = to; pre(c, 0, 1); rc = pthread_setcanceltype(to ? PTHREAD_CANCEL_ASYNCHRONOUS : PTHREAD_CANCEL_DEFERRED, R(4) ? &old : NULL); post(c, "pthread_setcanceltype"); OK(rc, "type"); CK(old == 77 || old == (was ? PTHREAD_CANCEL_ASYNCHRONOUS : PTHREAD_CANCEL_DEFERRED), "old-type", "setting the type to %d gave the old type %d, last set to %d", to, old, was); break; }
  case 4: pre(c, 1, 2); pthread_testcancel(); post(c, "pthread_testcancel"); break;
  case 5: pre(c, 1, 3); rc = sem_wait(&c->av); post(c, "sem_wait"); mustnot(c, "sem_wait", rc, 0); OK(sem_post(&c->av), "post"); break;
  case 6: pre(c, 1, 4); wk_abs(&ts, us); rc = sem_timedwait(&c->un, &ts); v = errno; post(c, "sem_timedwait"); CK(rc == -1 && v == ETIMEDOUT, "undisturbed", "sem_timedwait -> %d errno %d%s", rc, v, c->acted ? " after the cancellation was acted on" : ""); break;
  case 7: { OK(pthread_mutex_lock(&mc), "lock"); pthread_cleanup_push(unlk, &mc); pre(c, 1, 5); wk_abs(&ts, us); rc = pthread_cond_timedwait(&cv, &mc, &ts); post(c, "pthread_cond_timedwait"); mustnot(c, "pthread_cond_timedwait", rc, ETIMEDOUT); pthread_cleanup_pop(1); break; }
  case 8: pre(c, 1, 6); rel(&ts, us); t0 = sim_mono(); rc = pthread_delay_np(&ts); post(c, "pthread_delay_np"); mustnot(c, "pthread_delay_np", rc, 0); CK(sim_mono() >= t0 + (uint64_t)us * 10, "undisturbed", "delay ended early"); break;
  case 9: pre(c, 1, 7); wk_abs(&ts, us); rc = pthread_timedjoin_np(victim, NULL, &ts); post(c, "pthread_timedjoin_np"); mustnot(c, "pthread_timedjoin_np of a running thread", rc, ETIMEDOUT); break;
  case 10: pre(c, 0, 8); switch (R(8)) {
      case 0: OK(pthread_mutex_lock(&mx), "non-cp"); wk_work(1); OK(pthread_mutex_unlock(&mx), "non-cp"); break;
      case 1: rc = sem_trywait(&c->un); CK(rc == -1 && errno == EAGAIN, "non-cp", "sem_trywait -> %d", rc); break;
      case 2: OK(sem_post(&c->av), "non-cp"); OK(sem_trywait(&c->av), "non-cp"); break;
      case 3: OK(pthread_kill(pthread_self(), 0), "non-cp"); break;
      case 4: CK(pthread_equal(pthread_self(), c->th), "non-cp", "self"); break;
      case 5: { pthread_t t; OK(pthread_create(&t, NULL, nop, NULL), "non-cp"); OK(pthread_detach(t), "non-cp"); break; }
      case 6: EQ(pthread_setcancelstate(42, &old), EINVAL, "bad-state"); EQ(pthread_setcanceltype(42, &old), EINVAL, "bad-type"); CK(old == 77 || 1, "bad", "x"); break;
      case 7: CK(pthread_getspecific(key) == (inh == 2 ? NULL : (void *)c), "non-cp", "getspecific"); break; }
    post(c, "a function that is not a cancellation point"); break;
  case 11: { pthread_t t; void *r; int m; OK(pthread_create(&t, NULL, nop, (void *)5), "create"); m = pre(c, 1, 9); if (m == MUST) { OK(pthread_detach(t), "detach"); t = victim; } rc = pthread_join(t, &r); post(c, "pthread_join"); CK(rc == 0 && r == (void *)5, "undisturbed", "join -> %d value %p", rc, r); break; }
  case 12: pre(c, 1, 10); wk_abs(&ts, -us - 1); rc = sem_timedwait(&c->un, &ts); v = errno; post(c, "sem_timedwait with a past deadline"); CK(rc == -1 && v == ETIMEDOUT, "undisturbed", "sem_timedwait with a past deadline -> %d errno %d", rc, v); break;
  case 13: pre(c, 1, 11); rel(&ts, 0); rc = pthread_delay_np(&ts); post(c, "pthread_delay_np"); mustnot(c, "pthread_delay_np", rc, 0); break;
  case 14: wk_work(2); break;
  case 15: case 16: if (c->pend && R(3)) break; /* cancel myself: acted on at once only when asynchronous */
    c->pend++; pre(c, 0, 12); rc = pthread_cancel(c->th); post(c, "pthread_cancel of oneself"); OK(rc, "cancel"); break;
  case 17: if (c->pend) break; /* have another thread do it, busily */
    c->pend++; pre(c, 0, 13); c->ask = 1; while (!c->told) sim_delay_us(10); if (c->allow == MUST) sim_delay_us(1000); post(c, "a busy region"); break;
  case 18: if (c->pend || !c->en || c->as) break; /* have another thread do it once I am blocked for good */
    c->pend++; pre(c, 1, 14); c->calm = sim_self(); c->ask = 2;
    switch (us & 3) { case 0: sem_wait(&c->un); break; case 1: pthread_join(victim, NULL); break; case 2: pthread_timedjoin_np(victim, NULL, NULL); break;
      case 3: OK(pthread_mutex_lock(&mc), "lock"); pthread_cleanup_push(unlk, &mc); pthread_cond_wait(&cv, &mc); pthread_cleanup_pop(1); break; }
    post(c, us & 2 ? us & 1 ? "pthread_cond_wait" : "pthread_timedjoin_np" : us & 1 ? "pthread_join" : "sem_wait"); break;
  }
  sim_stat("model_steps", 1);
}
static void after(cm *c, const char *w) { (void)w; c->inh++; c->en = -1; c->ask = c->ask; for (int i = 0; i < c->hops; i++) step(c, 1); }
static void hnd(void *v) { cm *c = (cm *)v;
  if (c->handlers++ == 0) { if (c->end == 0) { CK(c->allow == MUST, "cancel-unexpected", "cancelled in operation %d (enabled %d, asynchronous %d, requests %d)", c->op, c->en, c->as, c->pend); sim_stat("model_acted", 1); } else sim_stat(c->pend ? "ended_pending" : "ended_unasked", 1); }
  c->acted = 1; int as = c->as; after(c, "handler"); (void)as; }
static void kd(void *v) { cm *c = (cm *)v; CK(c->handlers == (c->end == 2 ? 0 : 2), "destructor-order", "destructor after %d handlers", c->handlers); c->dest++; c->en = -1; for (int i = 0; i < c->hops; i++) step(c, 2); }
static void *body(void *v) { cm *c = (cm *)v; c->th = pthread_self(); sim_label("model"); OK(pthread_setspecific(key, c), "setspecific");
  pthread_cleanup_push(hnd, c); pthread_cleanup_push(hnd, c);
  for (int i = 0; i < c->nops; i++) step(c, 0);
  c->end = 1 + R(2); c->allow = MAY_NOT; if (c->end == 1) pthread_exit(v);
  pthread_cleanup_pop(0); pthread_cleanup_pop(0); c->acted = 1; return v; }
WORKLOAD(cancel_model) { sim_loader_lock = 0;
  pthread_t h; memset(C, 0, sizeof C); nc = 1 + R(NT); stop_victim = stop_help = 0;
  OK(pthread_mutex_init(&mx, NULL), "init"); OK(pthread_mutex_init(&mc, NULL), "init"); OK(pthread_cond_init(&cv, NULL), "init"); OK(pthread_key_create(&key, kd), "key");
  wk_spawn(&victim, vict, NULL); wk_spawn(&h, helper, NULL);
  for (int i = 0; i < nc; i++) { cm *c = &C[i]; c->id = i; c->en = 1; c->hold = R(2); c->nops = R(40); c->hops = R(2) ? R(8) : 0; OK(sem_init(&c->av, 0, 1), "init"); OK(sem_init(&c->un, 0, 0), "init"); OK(pthread_create(&c->th, NULL, body, c), "create"); }
  for (int i = 0; i < nc; i++) { cm *c = &C[i]; void *r = wk_join(c->th); CK(r == (c->end ? (void *)c : PTHREAD_CANCELED), "join-value", "value %p (end %d)", r, c->end); CK(c->handlers == (c->end == 2 ? 0 : 2) && c->dest == 1, "run-count", "%d handlers, %d destructors", c->handlers, c->dest); int s = -9; OK(sem_getvalue(&c->av, &s), "value"); CK(s == 1, "wait-cancel-sem", "semaphore value %d after a cancelled wait", s); OK(sem_getvalue(&c->un, &s), "value"); CK(s == 0, "wait-cancel-sem", "semaphore value %d", s); OK(sem_destroy(&c->av), "destroy"); OK(sem_destroy(&c->un), "destroy"); sim_state(c->end * 64 + c->op * 4 + c->as); }
  stop_help = 1; wk_join(h); stop_victim = 1; wk_join(victim); sim_quiesce(); OK(pthread_key_delete(key), "key"); OK(pthread_cond_destroy(&cv), "destroy"); OK(pthread_mutex_destroy(&mc), "destroy"); OK(pthread_mutex_destroy(&mx), "destroy");
}

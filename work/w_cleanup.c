#include "wk.h"
/* ---- cleanup handlers: a random tree of pushes and pops, left by return, exit,
 * cancellation or pops; a model predicts which handlers run, and in which order */
#define MAXL 64
typedef struct { int id, exp[MAXL], nexp, got[MAXL], ngot, stk[16], nstk, budget, end, next, cp, in, leave, ntry, base; pthread_t th; volatile int in_pop, req; } cu;
enum { E_RETURN, E_EXIT, E_CANCEL, E_ASKED, E_LAST };
static cu C[4];
typedef struct { cu *c; int n; } harg;
static void hn(void *v) {
  harg *a = (harg *)v; cu *c = a->c; CK(c->ngot < MAXL, "handler-count", "too many handlers"); c->got[c->ngot++] = a->n;
  CK(c->in == 0, "handler-nesting", "a handler ran inside another one"); c->in = 1;
  if (R(4) == 0) sim_delay_us(R(800)); else wk_work(R(3));
  if (R(4) == 0) { int ran = 0; (void)ran; pthread_cleanup_push((void (*)(void *))sim_user_point, NULL); wk_work(1); pthread_cleanup_pop(1); }   /* handlers may use handlers */
  c->in = 0;
}
/* a handler run by pop(1) in the normal flow that contains a cancellation point */
static void hcp(void *v) { harg *a = (harg *)v; cu *c = a->c; CK(c->ngot < MAXL, "handler-count", "too many handlers"); c->got[c->ngot++] = a->n; wk_work(R(2)); pthread_testcancel(); }
static void leave(cu *c) {
  c->leave = 1; for (int i = c->nstk - 1; i >= 0; i--) c->exp[c->nexp++] = c->stk[i];
  if (c->end == E_EXIT) pthread_exit((void *)(size_t)(0x700 + c->id));
  if (c->end == E_CANCEL) { OK(pthread_cancel(pthread_self()), "cancel-self"); }
  if (c->end == E_ASKED) { c->req = 1; struct timespec ts = { 5, 0 }; for (;;) { if (R(2)) pthread_testcancel(); else pthread_delay_np(&ts); } }
  pthread_testcancel(); CK(0, "cancel-self", "thread survived its cancellation");
}
static void level(cu *c, int d) {
  while (c->budget > 0) {
    int k = R(6);
    c->budget--;
#ifdef __cplusplus /* exceptions of the application run the handlers they unwind */
    if (R(6) == 0) { if (c->ntry && !c->cp && R(2)) { while (c->nstk > c->base) c->exp[c->nexp++] = c->stk[--c->nstk]; sim_stat("app_exceptions", 1); throw 5; }
      int b = c->base; c->base = c->nstk; c->ntry++; try { level(c, d + 1); } catch (int e) { CK(e == 5, "exception", "caught %d", e); } c->ntry--; c->base = b; continue; }
#endif
    if (k < 3 && d < 10) { harg a = { c, ++c->next }; int ex = R(2); c->stk[c->nstk++] = a.n;
      if (c->cp && R(4) == 0) { pthread_cleanup_push(hcp, &a); level(c, d + 1); c->nstk--; c->exp[c->nexp++] = a.n; pthread_cleanup_pop(1); }
      else { pthread_cleanup_push(hn, &a); level(c, d + 1); c->nstk--; if (ex) c->exp[c->nexp++] = a.n; pthread_cleanup_pop(ex); } }
    else if (k == 3) wk_work(R(3));
    else if (k == 4 && d) return;
    else if (k == 5 && R(4) == 0 && c->end != E_RETURN) leave(c);
  }
}
static void *cu_thr(void *v) { cu *c = (cu *)v; level(c, 0); if (c->end != E_RETURN) leave(c); return (void *)(size_t)(0x700 + c->id); }
WORKLOAD(cleanup_tree) {
  int n = 1 + R(3); memset(C, 0, sizeof C);
  for (int i = 0; i < n; i++) { cu *c = &C[i]; c->id = i; c->budget = 3 + R(14); c->end = R(E_LAST); wk_spawn(&c->th, cu_thr, c); }
  for (int i = 0; i < n; i++) { cu *c = &C[i]; if (c->end == E_ASKED) { while (!c->req) sim_delay_us(200); OK(pthread_cancel(c->th), "cancel"); }
    void *r = wk_join(c->th); CK(r == (c->end == E_CANCEL || c->end == E_ASKED ? PTHREAD_CANCELED : (void *)(size_t)(0x700 + i)), "exit-value", "end %d: join value %p", c->end, r);
    CK(c->ngot == c->nexp, "handler-count", "%d handlers ran, expected %d (end %d)", c->ngot, c->nexp, c->end); for (int k = 0; k < c->ngot; k++) CK(c->got[k] == c->exp[k], "handler-order", "handler %d ran at position %d, expected %d", c->got[k], k, c->exp[k]);
    sim_stat("handlers", c->ngot); sim_state(c->nexp * 64 + c->end * 8 + c->got[0]); }
}
/* a request may arrive at any time: handlers with cancellation points run by pop(1)
 * are not run again when the cancellation strikes inside them */
WORKLOAD(cleanup_cp) {
  memset(C, 0, sizeof C); cu *c = &C[0]; c->budget = 4 + R(14); c->end = E_ASKED; c->cp = 1; wk_spawn(&c->th, cu_thr, c);
  if (R(2)) sim_delay_us(R(1000)); else wk_work(R(30)); OK(pthread_cancel(c->th), "cancel"); void *r = wk_join(c->th); CK(r == PTHREAD_CANCELED, "exit-value", "join value %p", r);
  int seen[MAXL + 1]; memset(seen, 0, sizeof seen); for (int k = 0; k < c->ngot; k++) { CK(!seen[c->got[k]], "handler-twice", "handler %d ran twice", c->got[k]); seen[c->got[k]] = 1; }
  if (!c->leave) { /* cancelled inside a handler: everything still pushed must have run, innermost first */ sim_stat("cancelled_in_handler", 1); for (int i = 0; i < c->nstk; i++) CK(seen[c->stk[i]], "handler-lost", "handler %d never ran", c->stk[i]); for (int i = 0; i < c->nstk; i++) CK(c->got[c->ngot - 1 - i] == c->stk[i], "handler-order", "unwinding order"); }
  for (int i = 0; i < c->nexp; i++) CK(seen[c->exp[i]], "handler-lost", "handler %d never ran", c->exp[i]);
  sim_state(c->ngot * 64 + c->nstk);
}

/* an exception nobody catches (C++ build): the handlers run, the thread is cleaned up and the terminate handler is called, once, in that thread */
#ifdef __cplusplus
#include <exception>
static volatile int un_term, un_cl, un_dt, un_left, un_h; static pthread_key_t un_k; static __thread int un_dummy;
static void un_handler(void) { (void)un_dummy; sim_add(&un_term, 1); ExitThread(7); }
static void un_ch(void *v) { CK(v == &un_cl, "handler", "argument"); sim_add(&un_cl, 1); }
static void un_kd(void *v) { CK(v != NULL, "destructor", "value"); sim_add(&un_dt, 1); if (v == (void *)&un_dt) throw 6; }
static void un_deep(int d) { pthread_cleanup_push(un_ch, (void *)&un_cl); sim_add(&un_h, 1); wk_work(R(3)); if (d) un_deep(d - 1); else throw 5; pthread_cleanup_pop(0); }
static void *un_thr(void *v) { int how = (int)(size_t)v; if (how & 2) OK(pthread_setspecific(un_k, how & 4 ? (void *)&un_dt : (void *)&un_cl), "set"); if (how & 1) { sim_add(&un_left, 1); un_deep(R(3)); } else if (how & 4 && how & 2) sim_add(&un_left, 1); return v; }
WORKLOAD(cleanup_uncaught) {
  pthread_t t[3]; int n = 1 + R(3), dt = 0, how[3]; void *r; un_term = un_cl = un_dt = un_left = un_h = 0; std::terminate_handler old = std::set_terminate(un_handler); OK(pthread_key_create(&un_k, un_kd), "init");
  for (int i = 0; i < n; i++) { how[i] = R(8); if (how[i] & 2) dt++; wk_spawn(&t[i], un_thr, (void *)(size_t)how[i]); }
  for (int i = 0; i < n; i++) { OK(pthread_join(t[i], &r), "join"); if (!(how[i] & 1) && !((how[i] & 6) == 6)) CK(r == (void *)(size_t)how[i], "exit-value", "join value %p", r); }
  CK(un_cl == un_h, "handler-count", "%d of %d handlers ran for uncaught exceptions", un_cl, un_h); CK(un_dt == dt, "destructor", "%d of %d destructors ran", un_dt, dt); CK(un_term == un_left, "terminate", "the terminate handler was called %d times for %d uncaught exceptions", un_term, un_left);
  std::set_terminate(old); sim_quiesce(); OK(pthread_key_delete(un_k), "destroy"); sim_stat("uncaught", un_left); sim_state(n * 64 + how[0] * 8 + un_left);
}
#else
WORKLOAD(cleanup_uncaught) { sim_state(1); }
#endif

#include "wk_pup.h"
#include "wk_age.h"
/* ---- cond_stress: bounded buffer, one signal per state change -------------
 * Every state change issues exactly one signal.  A cancelled waiter never
 * re-signals, so a wakeup swallowed by a cancelled or departed waiter leaves a
 * thread blocked although its predicate holds; the driver looks for that. */
static pthread_mutex_t BM; static pthread_cond_t CE, CF;
static volatile int items, cap, produced, consumed, closed, blkE, blkF, holder, made, inM;
static volatile uint32_t inside; static int c_cancel, c_static;
typedef struct { int id, iters, prod; volatile int where; } ca;
static void b_lock(int id) { OK(pthread_mutex_lock(&BM), "mutex-lock"); CK(!inM, "mutex-held", "two threads inside the monitor"); inM = 1; holder = id; }
static void b_unlock(int id) { CK(inM && holder == id, "mutex-held", "monitor changed hands: %d holds, %d leaves", holder, id); inM = 0; holder = -1; OK(pthread_mutex_unlock(&BM), "mutex-unlock"); }
static void c_unwound(void *v) { ca *a = (ca *)v; /* cancelled inside the wait: the mutex must be held again */
  CK(!inM, "mutex-held", "cancelled waiter unwinds while thread %d is inside the monitor", holder);
  inM = 1; holder = a->id; a->where = 0; sim_stat("cancelled_in_wait", 1); sim_user_point(); b_unlock(a->id); }
static void b_wait(ca *a, pthread_cond_t *c, int which) {
  int rc; struct timespec ts; int how = R(5); int64_t dl = 0;
  a->where = which; inM = 0; holder = -1;
  pthread_cleanup_push(c_unwound, a);
  if (how) rc = pthread_cond_wait(c, &BM); else { wk_abs(&ts, R(4) ? R(15000) : -R(100000)); dl = wk_ts100(&ts); rc = pthread_cond_timedwait(c, &BM, &ts); }
  pthread_cleanup_pop(0);
  CK(!inM, "mutex-held", "wait returned %d while thread %d is inside the monitor", rc, holder);
  inM = 1; holder = a->id; a->where = 0;
  CK(rc == 0 || (rc == ETIMEDOUT && dl), "wait-result", "condition wait returned %d", rc);
  if (rc == ETIMEDOUT) { CK((int64_t)sim_now() + 10000 >= dl, "timeout", "timed wait ended %lld us early", (long long)(dl - (int64_t)sim_now()) / 10); sim_stat("timed_out", 1); } else sim_stat("wakeups", 1);
}
static void *c_thr(void *v) {
  ca *a = (ca *)v; sim_label(a->prod ? "producer" : "consumer");
  for (int i = 0; i < a->iters; i++) {
    b_lock(a->id);
    if (a->prod) {
      while (items >= cap && !closed) b_wait(a, &CF, 2);
      if (closed) { b_unlock(a->id); break; }
      items++; produced++;
      if (R(2)) { OK(pthread_cond_signal(&CE), "signal"); b_unlock(a->id); } else { b_unlock(a->id); OK(pthread_cond_signal(&CE), "signal"); }
    } else {
      while (items == 0 && !closed) b_wait(a, &CE, 1);
      if (items == 0) { b_unlock(a->id); break; }
      items--; consumed++;
      if (R(2)) { OK(pthread_cond_signal(&CF), "signal"); b_unlock(a->id); } else { b_unlock(a->id); OK(pthread_cond_signal(&CF), "signal"); }
    }
    if (R(5) == 0) sim_delay_us(R(4000));
  }
  return v;
}
WORKLOAD(cond_stress) {
  pthread_t t[8]; static ca a[8]; int n = 3 + R(5), res; static const pthread_cond_t ci = PTHREAD_COND_INITIALIZER; static const pthread_mutex_t mi = PTHREAD_MUTEX_INITIALIZER;
  items = produced = consumed = closed = inM = 0; holder = -1; cap = 1 + R(3); c_cancel = R(3) == 0; c_static = R(3) == 0;
  if (c_static) { BM = mi; CE = ci; CF = ci; } else { OK(pthread_mutex_init(&BM, NULL), "init"); OK(pthread_cond_init(&CE, NULL), "init"); OK(pthread_cond_init(&CF, NULL), "init"); }
  for (int i = 0; i < n; i++) { memset(&a[i], 0, sizeof a[i]); a[i].id = i; a[i].iters = 1 + R(5); a[i].prod = i == 0 ? 1 : i == 1 ? 0 : R(2); wk_spawn(&t[i], c_thr, &a[i]); }
  if (c_cancel) for (int k = 0, m = 1 + R(4); k < m; k++) { if (R(2)) sim_delay_us(R(4000)); else if (R(2)) sim_settle(); int rc = pthread_cancel(t[R(n)]); CK(rc == 0 || rc == ESRCH, "cancel", "cancel -> %d", rc); sim_stat("cancels", 1); }
  for (int k = 0; k < 300 && sim_live_threads() > 1; k++) {
    sim_settle(); int pe = sim_preempt(0), we = 0, wf = 0, out = 0;
    for (int i = 0; i < n; i++) { we += a[i].where == 1; wf += a[i].where == 2; }
    out = sim_live_threads() - 1 - we - wf; sim_preempt(pe);
    if (out == 0) { /* everybody left is inside a wait */
      CK(!(we && items > 0), "lost-wakeup", "%d consumers stay blocked although %d items were signalled (cancellations %d)", we, items, c_cancel);
      CK(!(wf && items < cap), "lost-wakeup", "%d producers stay blocked although there is room (%d of %d)", wf, items, cap);
      sim_stat("quiescent", 1); break; }
    sim_delay_us(2000);
  }
  OK(pthread_mutex_lock(&BM), "lock"); closed = 1; res = pthread_cond_broadcast(&CE); CK(res == 0, "broadcast", "broadcast -> %d", res); OK(pthread_cond_broadcast(&CF), "broadcast"); OK(pthread_mutex_unlock(&BM), "unlock");
  if (R(2)) { /* destroying straight after the broadcast is allowed: nobody is blocked any more */
    OK(pthread_mutex_lock(&BM), "lock"); int busy = 0; for (int i = 0; i < n; i++) busy += a[i].where != 0; OK(pthread_mutex_unlock(&BM), "unlock"); (void)busy; }
  for (int i = 0; i < n; i++) { void *r = wk_join(t[i]); CK(r == (void *)&a[i] || r == PTHREAD_CANCELED, "join", "join value %p", r); }
  CK(produced - consumed == items, "conservation", "%d produced, %d consumed, %d left", produced, consumed, items);
  sim_state(produced * 64 + consumed);
  OK(pthread_cond_destroy(&CE), "destroy"); OK(pthread_cond_destroy(&CF), "destroy"); OK(pthread_mutex_destroy(&BM), "destroy");
}
/* ---- broadcast: everybody who was waiting gets out; the condition variable
 * may be destroyed as soon as nobody is blocked on it ------------------------ */
static pthread_cond_t BC; static volatile int bgen, bwaiting, bgone;
typedef struct { int timed; int id; } ba;
static void *b_thr(void *v) { ba *a = (ba *)v; int rc = 0; OK(pthread_mutex_lock(&BM), "lock"); bwaiting++;
  while (!bgen && rc == 0) { if (a->timed) { struct timespec ts; wk_abs(&ts, 50000 + R(200000)); rc = pthread_cond_timedwait(&BC, &BM, &ts); CK(rc == 0 || rc == ETIMEDOUT, "wait-result", "timedwait -> %d", rc); } else { rc = pthread_cond_wait(&BC, &BM); CK(rc == 0, "wait-result", "wait -> %d", rc); } }
  bgone++; OK(pthread_mutex_unlock(&BM), "unlock"); return v; }
WORKLOAD(cond_bcast) {
  pthread_t t[6]; ba a[6]; int n = 1 + R(6), tm = R(3); bgen = bwaiting = bgone = 0; static const pthread_cond_t ci = PTHREAD_COND_INITIALIZER;
  OK(pthread_mutex_init(&BM, NULL), "init"); if (R(3)) OK(pthread_cond_init(&BC, NULL), "init"); else BC = ci;
  for (int i = 0; i < n; i++) { a[i].id = i; a[i].timed = tm == 0 ? R(2) : 0; wk_spawn(&t[i], b_thr, &a[i]); }
  int want = R(3) == 0 ? 1 + R(n) : n;
  for (;;) { OK(pthread_mutex_lock(&BM), "lock"); if (bwaiting >= want) break; OK(pthread_mutex_unlock(&BM), "unlock"); sim_yield(); }
  bgen = 1; int w = bwaiting, out = R(2);
  if (!out) OK(pthread_cond_broadcast(&BC), "broadcast");
  OK(pthread_mutex_unlock(&BM), "unlock");
  if (out) OK(pthread_cond_broadcast(&BC), "broadcast");
  if (w == n) { int early = R(2); if (early) { OK(pthread_cond_destroy(&BC), "destroy-after-broadcast"); CK(BC == NULL, "destroy-after-broadcast", "object still set"); sim_stat("early_destroys", 1); for (int i = 0; i < n; i++) wk_join(t[i]); }
    else { for (int i = 0; i < n; i++) wk_join(t[i]); OK(pthread_cond_destroy(&BC), "destroy"); } }
  else { for (int i = 0; i < n; i++) wk_join(t[i]); OK(pthread_cond_destroy(&BC), "destroy"); }
  CK(bgone == n, "broadcast", "%d of %d threads got out", bgone, n); sim_state(n * 8 + w); sim_stat("released", w);
  OK(pthread_mutex_destroy(&BM), "destroy");
}
/* ---- waiters elect the destroyer: the last one out destroys --------------- */
static volatile int ltot, lin, lgo;
static void *l_thr(void *v) { OK(pthread_mutex_lock(&BM), "lock"); lin++; while (!lgo) OK(pthread_cond_wait(&BC, &BM), "wait"); int last = --lin == 0; if (!last && R(2)) OK(pthread_cond_signal(&BC), "signal"); OK(pthread_mutex_unlock(&BM), "unlock"); if (last) { OK(pthread_cond_destroy(&BC), "destroy-last-out"); sim_stat("last_out", 1); } return v; }
WORKLOAD(cond_lastout) {
  pthread_t t[5]; int n = 2 + R(4); lin = lgo = 0; OK(pthread_mutex_init(&BM, NULL), "init"); OK(pthread_cond_init(&BC, NULL), "init");
  for (int i = 0; i < n; i++) wk_spawn(&t[i], l_thr, &t[i]);
  for (;;) { OK(pthread_mutex_lock(&BM), "lock"); if (lin >= n) break; OK(pthread_mutex_unlock(&BM), "unlock"); sim_yield(); }
  lgo = 1; OK(pthread_cond_broadcast(&BC), "broadcast"); OK(pthread_mutex_unlock(&BM), "unlock");
  for (int i = 0; i < n; i++) wk_join(t[i]); OK(pthread_mutex_destroy(&BM), "destroy"); sim_state(n);
}
/* ---- exact sequential model ------------------------------------------------ */
#define NCV 2
static pthread_cond_t CV[NCV]; static pthread_mutex_t CM[NCV]; static int cwait[MAXPUP]; static int64_t cdl[MAXPUP]; static int mtype;
static int c_fin(pup *p, int rc) { int k = (int)p->a[0]; p->out[0] = pthread_mutex_unlock(&CM[k]); return rc; }
static void c_cxl(void *v) { pup *p = (pup *)v; int k = (int)p->a[0]; p->out[1] = 1; p->out[0] = pthread_mutex_unlock(&CM[k]); }
static int c_wait(pup *p) { int k = (int)p->a[0], rc; if (pthread_mutex_lock(&CM[k])) return -1; pthread_cleanup_push(c_cxl, p); rc = pthread_cond_wait(&CV[k], &CM[k]); pthread_cleanup_pop(0); return c_fin(p, rc); }
static int c_timed(pup *p) { int k = (int)p->a[0], rc; struct timespec ts; ts.tv_sec = p->a[1] / 10000000; ts.tv_nsec = (int)(p->a[1] % 10000000) * 100; if (pthread_mutex_lock(&CM[k])) return -1; pthread_cleanup_push(c_cxl, p); rc = pthread_cond_timedwait(&CV[k], &CM[k], &ts); pthread_cleanup_pop(0); return c_fin(p, rc); }
static int c_notown(pup *p) { int k = (int)p->a[0]; int rc = pthread_cond_wait(&CV[k], &CM[k]); p->out[0] = pthread_mutex_unlock(&CM[k]); return rc; }
static int c_nullts(pup *p) { int k = (int)p->a[0]; int rc; if (pthread_mutex_lock(&CM[k])) return -1; rc = pthread_cond_timedwait(&CV[k], &CM[k], NULL); return c_fin(p, rc); }
static int c_sig(pup *p) { return pthread_cond_signal(&CV[p->a[0]]); }
static int c_bc(pup *p) { return pthread_cond_broadcast(&CV[p->a[0]]); }
static int c_dest(pup *p) { return pthread_cond_destroy(&CV[p->a[0]]); }
static int c_tc(pup *p) { (void)p; void *r = pthread_timechange_handler_np(NULL); return (int)(size_t)r; }
static int ncw(int n, int k) { int w = 0; for (int i = 0; i < n; i++) w += cwait[i] == k + 1; return w; }
static void c_scan(int n, int g0, int g1, const char *op) {
  int want[2] = { g0, g1 }, g[2] = { 0, 0 };
  for (int i = 0; i < n; i++) { if (!cwait[i]) continue; int k = cwait[i] - 1; pup *p = &PUP[i];
    if (p->busy) { if (cdl[i]) CK(sim_now() < (uint64_t)cdl[i] + 30000, "timeout", "timed wait still blocked after its deadline"); continue; }
    cwait[i] = 0; sim_trace("puppet %d returned %d", i, p->rc); CK(p->out[0] == 0, "mutex-held", "wait returned %d without the mutex (unlock -> %d)", p->rc, (int)p->out[0]);
    if (p->rc == 0) g[k]++; else { CK(p->rc == ETIMEDOUT && cdl[i], "wait-result", "wait returned %d", p->rc); CK((int64_t)p->t1 + 10000 >= cdl[i], "timeout", "timed wait ended early"); sim_stat("model_timeouts", 1); } }
  for (int k = 0; k < NCV; k++) { if (want[k] == -1) CK(g[k] >= 1, "signal", "a signal with waiters woke nobody"); else CK(g[k] == want[k], op, "%s woke %d waiters, expected %d", op, g[k], want[k]); if (g[k]) sim_stat("woken", g[k]); }
}
WORKLOAD(cond_model) {
  sim_calm(1); int n = 2 + R(4); memset(cwait, 0, sizeof cwait); memset(cdl, 0, sizeof cdl); uint64_t h = 99; static const pthread_cond_t ci = PTHREAD_COND_INITIALIZER; pthread_mutexattr_t ma; int virgin[NCV];
  OK(pthread_mutexattr_init(&ma), "init"); mtype = R(2) ? PTHREAD_MUTEX_ERRORCHECK : PTHREAD_MUTEX_RECURSIVE; OK(pthread_mutexattr_settype(&ma, mtype), "settype");
  for (int k = 0; k < NCV; k++) { OK(pthread_mutex_init(&CM[k], &ma), "init"); virgin[k] = R(2); if (!virgin[k]) OK(pthread_cond_init(&CV[k], NULL), "init"); else CV[k] = ci; }
  OK(pthread_mutexattr_destroy(&ma), "destroy"); pup_start(n);
  for (int st = 0, ops = 5 + R(35); st < ops; st++) {
    int i = R(n), k = R(NCV); pup *p = &PUP[i];
    if (p->busy) { int what = R(6);
      if (what < 2) { pup_pass(R(60000)); c_scan(n, 0, 0, "time"); }
      else if (what == 2) { /* cancel a blocked waiter: it leaves holding the mutex, nobody else is affected */
        OK(pthread_cancel(p->th), "cancel"); sim_settle(); void *r = wk_join(p->th); CK(r == PTHREAD_CANCELED && p->out[1] == 1 && p->out[0] == 0, "cancel-wait", "cancelled waiter: join %p handler %d unlock %d", r, (int)p->out[1], (int)p->out[0]); CloseHandle(p->go); cwait[i] = 0; cdl[i] = 0; c_scan(n, 0, 0, "cancel"); pup_one(i); sim_settle(); sim_stat("model_cancels", 1); }
      continue; }
    int op = R(10); h = (h ^ (op * 16 + i * 2 + k)) * 1099511628211ull; p->a[0] = k; p->out[0] = p->out[1] = -1; cdl[i] = 0; int w = ncw(n, k); sim_trace("op %d puppet %d cv %d waiters %d", op, i, k, w);
    switch (op) {
      case 0: case 1: case 2: CK(!pup_do(p, c_wait), "wait-blocks", "pthread_cond_wait returned %d although nobody signalled", p->rc); cwait[i] = k + 1; virgin[k] = 0; break;
      case 3: { int past = R(3) == 0; p->a[1] = cdl[i] = past ? (int64_t)sim_now() - (int64_t)R(100000000) : (int64_t)sim_now() + 10000 * (1 + R(30)); virgin[k] = 0;
        if (pup_do(p, c_timed)) { CK(p->rc == ETIMEDOUT && (int64_t)p->t1 + 10000 >= cdl[i], "timedwait", "timedwait -> %d (past %d)", p->rc, past); CK(p->out[0] == 0, "mutex-held", "timed-out wait does not hold the mutex"); } else { CK(!past, "timedwait", "blocked although the deadline has passed"); cwait[i] = k + 1; } break; }
      case 4: case 5: CK(pup_do(p, c_sig) && p->rc == 0, "signal", "signal -> %d", p->rc); c_scan(n, k == 0 && w ? 1 : 0, k == 1 && w ? 1 : 0, "signal"); break;
      case 6: CK(pup_do(p, c_bc) && p->rc == 0, "broadcast", "broadcast -> %d", p->rc); c_scan(n, k == 0 ? w : 0, k == 1 ? w : 0, "broadcast"); break;
      case 7: if (R(2)) { CK(pup_do(p, c_tc) && p->rc == 0, "timechange", "timechange handler -> %d", p->rc); c_scan(n, ncw(n, 0), ncw(n, 1), "timechange"); sim_stat("timechanges", 1); }
        else { CK(pup_do(p, c_nullts) && p->rc == EINVAL && p->out[0] == 0, "timedwait", "timedwait without a time -> %d", p->rc); } break;
      case 8: if (w) CK(pup_do(p, c_dest) && p->rc == EBUSY, "destroy-busy", "destroy with %d waiters -> %d", w, p->rc); else if (R(3) == 0) { CK(pup_do(p, c_dest) && p->rc == 0, "destroy", "destroy -> %d", p->rc); virgin[k] = R(2); if (virgin[k]) CV[k] = ci; else OK(pthread_cond_init(&CV[k], NULL), "init"); } break;
      case 9: if (mtype == PTHREAD_MUTEX_ERRORCHECK || mtype == PTHREAD_MUTEX_RECURSIVE) { CK(pup_do(p, c_notown) && p->rc == EPERM && p->out[0] == EPERM, "wait-notowner", "cond wait without the mutex -> %d, unlock afterwards %d", p->rc, (int)p->out[0]); virgin[k] = 0;
          /* the failed call may have opened the waiter list: it must not be remembered as a waiter */ } break;
    }
  }
  (void)virgin; sim_state(h);
  for (int k = 0; k < NCV; k++) { int w = ncw(n, k); OK(pthread_cond_broadcast(&CV[k]), "broadcast"); sim_settle(); c_scan(n, k == 0 ? w : 0, k == 1 ? w : 0, "broadcast"); OK(pthread_cond_destroy(&CV[k]), "destroy"); OK(pthread_mutex_destroy(&CM[k]), "destroy"); }
  pup_stop();
}
/* ---- tickets: bursts of signals and broadcasts over the same waiters, again
 * and again on one object: counters left wrong by one round lose a later one -- */
static volatile int tick, tshut; static int tk_timed;
static void *t_thr(void *v) {
  ca *a = (ca *)v; sim_label("ticket-taker");
  for (int i = 0; i < a->iters; i++) {
    b_lock(a->id); while (!tick && !tshut) { if (tk_timed) b_wait(a, &CE, 1); else { a->where = 1; inM = 0; holder = -1; pthread_cleanup_push(c_unwound, a); OK(pthread_cond_wait(&CE, &BM), "wait"); pthread_cleanup_pop(0); CK(!inM, "mutex-held", "wait returned while another thread is inside"); inM = 1; holder = a->id; a->where = 0; } }
    if (!tick) { b_unlock(a->id); break; }
    tick--; consumed++; b_unlock(a->id); if (R(6) == 0) sim_delay_us(R(2000));
  }
  return v;
}
static void *t_grant(void *v) {
  ca *a = (ca *)v; sim_label("granter");
  for (int i = 0; i < a->iters; i++) {
    int m = 1 + R(3), out = R(2), bc = R(3) == 0; b_lock(a->id); tick += m; produced += m; sim_stat(bc ? "broadcasts" : "signals", 1);
    if (out) b_unlock(a->id);
    if (bc) OK(pthread_cond_broadcast(&CE), "broadcast"); else for (int k = 0; k < m; k++) OK(pthread_cond_signal(&CE), "signal");
    if (!out) b_unlock(a->id);
    if (R(3) == 0) sim_delay_us(R(3000));
  }
  return v;
}
WORKLOAD(cond_tickets) {
  pthread_t t[9]; static ca a[9]; int nw = 2 + R(4), ng = 1 + R(2), n = nw + ng; static const pthread_cond_t ci = PTHREAD_COND_INITIALIZER;
  items = produced = consumed = closed = inM = tick = tshut = 0; holder = -1; tk_timed = R(2); int cxl = R(4) == 0;
  OK(pthread_mutex_init(&BM, NULL), "init"); if (R(2)) { OK(pthread_cond_init(&CE, NULL), "init"); if (R(3) == 0 && age_cond(&CE)) tk_timed = 1; } else CE = ci;
  for (int i = 0; i < n; i++) { memset(&a[i], 0, sizeof a[i]); a[i].id = i; a[i].iters = i < nw ? 1 + R(8) : 1 + R(6); wk_spawn(&t[i], i < nw ? t_thr : t_grant, &a[i]); }
  if (cxl) for (int k = 0, m = 1 + R(2); k < m; k++) { sim_delay_us(R(4000)); int q = R(nw); int rc = pthread_cancel(t[q]); CK(rc == 0 || rc == ESRCH, "cancel", "cancel -> %d", rc); }
  for (int k = 0; k < 300 && sim_live_threads() > 1; k++) {
    sim_settle(); int pe = sim_preempt(0), we = 0; for (int i = 0; i < nw; i++) we += a[i].where == 1; int out = sim_live_threads() - 1 - we; sim_preempt(pe);
    if (out == 0) { CK(!(we && tick > 0), "lost-wakeup", "%d threads stay blocked although %d signalled tickets are left (cancellations %d)", we, tick, cxl); sim_stat("ticket_quiescent", 1); break; }
    sim_delay_us(2000); }
  for (int r = 0; r < 3 && !cxl; r++) { /* one more signal: with somebody blocked and all quiet it must wake somebody */
    int we = 0; sim_settle(); for (int i = 0; i < nw; i++) we += a[i].where == 1; if (!we || tk_timed) break;
    OK(pthread_mutex_lock(&BM), "lock"); int c0 = consumed; tick++; produced++; OK(pthread_cond_signal(&CE), "signal"); OK(pthread_mutex_unlock(&BM), "unlock"); sim_settle();
    for (int k = 0; k < 20 && consumed == c0; k++) { sim_delay_us(3000); sim_settle(); }
    CK(consumed > c0, "lost-wakeup", "a signal with %d threads blocked woke nobody", we); sim_stat("late_signals", 1); }
  OK(pthread_mutex_lock(&BM), "lock"); tshut = 1; OK(pthread_cond_broadcast(&CE), "broadcast"); OK(pthread_mutex_unlock(&BM), "unlock");
  for (int i = 0; i < n; i++) { void *r = wk_join(t[i]); CK(r == (void *)&a[i] || r == PTHREAD_CANCELED, "join", "join value %p", r); }
  CK(produced - consumed == tick, "conservation", "%d granted, %d taken, %d left", produced, consumed, tick); sim_state(produced * 64 + consumed);
  OK(pthread_cond_destroy(&CE), "destroy"); OK(pthread_mutex_destroy(&BM), "destroy");
}
/* ---- destroy attempts while somebody is certainly blocked: refused, harmless, and
 * they never stop signals going on at the same time --------------------------- */
static volatile int bz_w, bz_stop;
static void *z_wait(void *v) { OK(pthread_mutex_lock(&BM), "lock"); bz_w++; while (!tick) OK(pthread_cond_wait(&BC, &BM), "wait"); tick--; OK(pthread_mutex_unlock(&BM), "unlock"); return v; }
static void *z_sig(void *v) { int m = (int)(size_t)v; for (int i = 0; i < m; i++) { OK(pthread_mutex_lock(&BM), "lock"); tick++; OK(pthread_mutex_unlock(&BM), "unlock"); OK(pthread_cond_signal(&BC), "signal"); if (R(2)) sim_yield(); } return v; }
static void *z_probe(void *v) { for (int i = 0; i < 3; i++) { EQ(pthread_cond_destroy(&BC), EBUSY, "destroy-busy"); sim_stat("busy_destroys", 1); } return v; }
WORKLOAD(cond_busy) {
  pthread_t t[10]; int nw = 2 + R(4), n = 0; tick = bz_w = bz_stop = 0; OK(pthread_mutex_init(&BM, NULL), "init"); OK(pthread_cond_init(&BC, NULL), "init");
  for (int i = 0; i < nw; i++) wk_spawn(&t[n++], z_wait, NULL);
  for (;;) { OK(pthread_mutex_lock(&BM), "lock"); int w = bz_w; OK(pthread_mutex_unlock(&BM), "unlock"); if (w == nw) break; sim_yield(); }
  wk_spawn(&t[n++], z_sig, (void *)(size_t)(nw - 1)); wk_spawn(&t[n++], z_probe, NULL); if (R(2)) wk_spawn(&t[n++], z_probe, NULL);
  for (int i = nw; i < n; i++) wk_join(t[i]);
  OK(pthread_mutex_lock(&BM), "lock"); tick++; OK(R(2) ? pthread_cond_signal(&BC) : pthread_cond_broadcast(&BC), "signal"); OK(pthread_mutex_unlock(&BM), "unlock");
  for (int i = 0; i < nw; i++) wk_join(t[i]);
  OK(pthread_cond_destroy(&BC), "destroy"); OK(pthread_mutex_destroy(&BM), "destroy"); sim_state(nw * 16 + n);
}

/* the time-change handler wakes the waiters of every condition variable, while others come and go */
static volatile int tcw_in, tcw_gen[4], tcw_stop; static pthread_cond_t tcv[4]; static pthread_mutex_t tcm;
static void *tcw(void *v) { int k = (int)(size_t)v; OK(pthread_mutex_lock(&tcm), "lock"); while (!tcw_stop) { sim_add(&tcw_in, 1); OK(pthread_cond_wait(&tcv[k], &tcm), "wait"); tcw_gen[k]++; } OK(pthread_mutex_unlock(&tcm), "unlock"); return v; }
static void *tcmake(void *v) { static const pthread_cond_t st = PTHREAD_COND_INITIALIZER; pthread_cond_t c[3]; int n = 1 + R(3), u[3] = { 0, 0, 0 };
  for (int i = 0, ops = 2 + R(5); i < ops; i++) { int k = R(n); if (!u[k]) { if (R(3) == 0) { c[k] = st; if (R(2)) OK(pthread_cond_signal(&c[k]), "signal"); else { struct timespec ts; pthread_mutex_t m; OK(pthread_mutex_init(&m, NULL), "init"); OK(pthread_mutex_lock(&m), "lock"); wk_abs(&ts, R(40)); int rc = pthread_cond_timedwait(&c[k], &m, &ts); CK(rc == ETIMEDOUT || rc == 0, "wait", "-> %d", rc); OK(pthread_mutex_unlock(&m), "unlock"); OK(pthread_mutex_destroy(&m), "destroy"); } } else OK(pthread_cond_init(&c[k], NULL), "init"); u[k] = 1; } else { OK(pthread_cond_destroy(&c[k]), "destroy"); u[k] = 0; } if (R(4) == 0) wk_work(R(5)); }
  for (int k = 0; k < n; k++) if (u[k]) OK(pthread_cond_destroy(&c[k]), "destroy"); return v; }
static void *tcrun(void *v) { for (int i = 0, n = 1 + R(3); i < n; i++) { void *r = pthread_timechange_handler_np(NULL); CK(r == 0, "timechange", "handler -> %p", r); if (R(2)) wk_work(R(6)); } return v; }
WORKLOAD(cond_timechange) {
  int nw = R(3), nm = 1 + R(2), nr = 1 + R(2), q = 0; pthread_t t[3], x[4]; tcw_in = tcw_stop = 0; OK(pthread_mutex_init(&tcm, NULL), "init");
  for (int k = 0; k < nw; k++) { tcw_gen[k] = 0; OK(pthread_cond_init(&tcv[k], NULL), "init"); wk_spawn(&t[k], tcw, (void *)(size_t)k); }
  while (tcw_in < nw) sim_delay_us(50); OK(pthread_mutex_lock(&tcm), "lock"); int g[4]; for (int k = 0; k < nw; k++) g[k] = tcw_gen[k]; OK(pthread_mutex_unlock(&tcm), "unlock");
  for (int i = 0; i < nm; i++) wk_spawn(&x[q++], tcmake, NULL); for (int i = 0; i < nr; i++) wk_spawn(&x[q++], tcrun, NULL); for (int i = 0; i < q; i++) wk_join(x[i]);
  for (int k = 0; k < nw; k++) for (int i = 0; tcw_gen[k] == g[k]; i++) { CK(i < 4000, "timechange", "a waiter of a condition variable was not woken by the time change"); sim_delay_us(100); }
  OK(pthread_mutex_lock(&tcm), "lock"); tcw_stop = 1; for (int k = 0; k < nw; k++) OK(pthread_cond_broadcast(&tcv[k]), "broadcast"); OK(pthread_mutex_unlock(&tcm), "unlock");
  for (int k = 0; k < nw; k++) { CK(wk_join(t[k]) == (void *)(size_t)k, "join", "value"); OK(pthread_cond_destroy(&tcv[k]), "destroy"); } OK(pthread_mutex_destroy(&tcm), "destroy"); sim_stat("time_changes", nr); sim_state(nw * 16 + nm * 4 + nr);
}

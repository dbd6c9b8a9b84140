#include "wk_pup.h"
/* ---- conservation: successful waits never exceed init + posts; at the end
 * value == init + posts - successful waits; no blocked waiter is forgotten -- */
static sem_t S; static volatile int init_v, posts_beg, posts_end, waits_beg, waits_ok, waits_end; static int cxl;
typedef struct { int id, iters, poster; volatile int inwait; } sa;
static void got(void) { int ok = sim_add(&waits_ok, 1); CK(ok <= init_v + posts_beg, "conservation", "%d waits succeeded with initial value %d and only %d posts started", ok, init_v, posts_beg); }
static int getv(void) {
  int v = 12345678, pe = posts_end, wo = waits_ok;
  OK(sem_getvalue(&S, &v), "getvalue");
  int lo = init_v + pe - waits_beg, hi = init_v + posts_beg - wo;
  CK(v >= lo && v <= hi, "getvalue", "sem_getvalue returned %d outside [%d,%d]", v, lo, hi);
  return v; }
static void unwait(void *v) { ((sa *)v)->inwait = 0; sim_stat("cancelled_in_wait", 1); }
static void *sthr(void *v) {
  sa *a = (sa *)v; sim_label(a->poster ? "poster" : "waiter");
  for (int i = 0; i < a->iters; i++) {
    if (a->poster) {
      if (R(3) == 0) { int n = 1 + R(4); sim_add(&posts_beg, n); CK(sem_post_multiple(&S, n) == 0, "post", "sem_post_multiple failed errno %d", errno); sim_add(&posts_end, n); }
      else { sim_add(&posts_beg, 1); CK(sem_post(&S) == 0, "post", "sem_post failed errno %d", errno); sim_add(&posts_end, 1); }
      if (R(4) == 0) sim_delay_us(R(5000));
    } else {
      int rc, how = R(6); struct timespec ts; sim_add(&waits_beg, 1);
      pthread_cleanup_push(unwait, v);
      a->inwait = 1;
      if (how < 3) { rc = sem_wait(&S); a->inwait = 0; CK(rc == 0, "wait", "sem_wait failed errno %d", errno); got(); }
      else if (how == 3) { errno = 0; rc = sem_trywait(&S); a->inwait = 0; CK(rc == 0 || errno == EAGAIN, "trywait", "sem_trywait errno %d", errno); if (rc == 0) got(); sim_stat(rc ? "try_again" : "try_ok", 1); }
      else { wk_abs(&ts, R(3) ? R(20000) : -R(100000)); errno = 0; rc = sem_timedwait(&S, &ts); a->inwait = 0; CK(rc == 0 || errno == ETIMEDOUT, "timedwait", "sem_timedwait errno %d", errno); if (rc == 0) got(); sim_stat(rc ? "timed_out" : "timed_ok", 1); }
      pthread_cleanup_pop(0);
    }
    if (R(8) == 0) getv();
  }
  return v;
}
WORKLOAD(sem_stress) {
  pthread_t t[7]; static sa a[7]; int n = 2 + R(5); init_v = R(4); posts_beg = posts_end = waits_beg = waits_ok = waits_end = 0; cxl = R(2);
  CK(sem_init(&S, 0, init_v) == 0, "init", "sem_init failed");
  for (int i = 0; i < n; i++) { memset(&a[i], 0, sizeof a[i]); a[i].id = i; a[i].iters = 1 + R(5); a[i].poster = i == 0 ? 1 : R(3) == 0; wk_spawn(&t[i], sthr, &a[i]); }
  if (cxl) for (int k = 0, m = 1 + R(4); k < m; k++) { if (R(2)) sim_delay_us(R(4000)); int i = R(n); if (a[i].poster) continue; int rc = pthread_cancel(t[i]); CK(rc == 0 || rc == ESRCH, "cancel", "cancel -> %d", rc); sim_stat("cancels", 1); }
  /* let the rest finish: post one at a time until every waiter is through */
  for (int k = 0; k < 200; k++) { sim_settle(); int left = 0, pe = sim_preempt(0); for (int i = 0; i < n; i++) if (!a[i].poster && a[i].inwait) left++; if (!left) { sim_preempt(pe); int alive = sim_live_threads() - 1; if (!alive) break; sim_delay_us(3000); continue; }
    int v = 1; OK(sem_getvalue(&S, &v), "getvalue"); sim_preempt(pe); CK(v <= 0, "lost-wakeup", "%d threads blocked in a wait while the value is %d", left, v);
    sim_add(&posts_beg, 1); CK(sem_post(&S) == 0, "post", "post failed"); sim_add(&posts_end, 1); sim_settle(); }
  for (int i = 0; i < n; i++) { void *r = wk_join(t[i]); CK(r == (void *)&a[i] || r == PTHREAD_CANCELED, "join", "join value %p", r); }
  int v = -99; OK(sem_getvalue(&S, &v), "getvalue"); CK(v == init_v + posts_end - waits_ok, "conservation", "final value %d but initial %d + %d posts - %d successful waits = %d", v, init_v, posts_end, waits_ok, init_v + posts_end - waits_ok);
  sim_state(n + 8 * (v & 15) + 128 * posts_end);
  for (int k = 0; k < v; k++) CK(sem_trywait(&S) == 0, "conservation", "trywait failed with value %d", v - k);
  errno = 0; CK(sem_trywait(&S) == -1 && errno == EAGAIN, "conservation", "trywait on an exhausted semaphore succeeded");
  CK(sem_destroy(&S) == 0, "destroy", "sem_destroy failed errno %d", errno);
}
/* ---- waiters that give up (cancelled or timed out) just as a post reaches them, with others arriving: the post goes on */
static void *pwait(void *v) { sa *a = (sa *)v; struct timespec ts; int rc; sim_label("waiter"); if (R(3)) wk_work(R(12)); pthread_cleanup_push(unwait, v); a->inwait = 1;
  if (a->iters < 0) { wk_abs(&ts, a->poster); errno = 0; rc = sem_timedwait(&S, &ts); a->inwait = 0; CK(rc == 0 || errno == ETIMEDOUT, "timedwait", "sem_timedwait errno %d", errno); sim_stat(rc ? "timed_out" : "timed_ok", 1); } else { rc = sem_wait(&S); a->inwait = 0; CK(rc == 0, "wait", "sem_wait failed errno %d", errno); }
  if (rc == 0) got(); pthread_cleanup_pop(0); return v; }
static void *ppost(void *v) { int n = (int)(size_t)v; if (R(2)) wk_work(R(20)); sim_add(&posts_beg, n); if (n > 1 && R(2)) { OK(sem_post_multiple(&S, n), "post"); } else for (int i = 0; i < n; i++) OK(sem_post(&S), "post"); sim_add(&posts_end, n); return v; }
WORKLOAD(sem_pass) {
  pthread_t t[5], q[2]; static sa a[5]; int n = 2 + R(3), np = 1 + R(2); init_v = 0; posts_beg = posts_end = waits_beg = waits_ok = waits_end = 0; CK(sem_init(&S, 0, 0) == 0, "init", "sem_init failed");
  int quit = 1 + R(n - 1), kind = R(3), left, v; /* how many give up */
  for (int i = 0; i < n; i++) { memset(&a[i], 0, sizeof a[i]); a[i].id = i; a[i].iters = i < quit && kind && (kind == 1 || R(2)) ? -1 : R(3) ? 0 : -1; a[i].poster = i < quit ? R(6) * R(200) : 50000000; wk_spawn(&t[i], pwait, &a[i]); if (R(2)) wk_work(R(10)); }
  for (int i = 0; i < np; i++) wk_spawn(&q[i], ppost, (void *)(size_t)(1 + R(2))); if (R(2)) wk_work(R(20));
  for (int i = 0; i < quit; i++) if (a[i].iters == 0) { int rc = pthread_cancel(t[i]); CK(rc == 0 || rc == ESRCH, "cancel", "cancel -> %d", rc); if (R(2)) wk_work(R(10)); }
  for (int i = 0; i < np; i++) wk_join(q[i]);
  for (int k = 0; k < 50; k++) { sim_settle(); int pe = sim_preempt(0); left = 0; for (int i = 0; i < n; i++) left += a[i].inwait; v = 1; OK(sem_getvalue(&S, &v), "getvalue"); sim_preempt(pe); CK(!left || v <= 0, "lost-wakeup", "%d threads blocked in a wait while the value is %d", left, v); if (!left && sim_live_threads() == 1) break; if (left) { sim_add(&posts_beg, 1); OK(sem_post(&S), "post"); sim_add(&posts_end, 1); } else sim_delay_us(1000); }
  for (int i = 0; i < n; i++) { void *r = wk_join(t[i]); CK(r == (void *)&a[i] || r == PTHREAD_CANCELED, "join", "join value %p", r); }
  v = -99; OK(sem_getvalue(&S, &v), "getvalue"); CK(v == posts_end - waits_ok, "conservation", "final value %d, %d posts, %d successful waits", v, posts_end, waits_ok); OK(sem_destroy(&S), "destroy"); sim_state(n * 16 + v); }
/* ---- exact sequential model ------------------------------------------------ */
static sem_t SM; static int mval, swait[MAXPUP]; static int64_t sdl[MAXPUP];
#define RV(x) ({ errno = -99; int rv_ = (x); rv_ == 0 ? 0 : rv_ == -1 ? errno : -7; })
static int s_wait(pup *p) { (void)p; return RV(sem_wait(&SM)); }
static int s_try(pup *p) { (void)p; return RV(sem_trywait(&SM)); }
static int s_timed(pup *p) { struct timespec ts; ts.tv_sec = p->a[0] / 10000000; ts.tv_nsec = (int)(p->a[0] % 10000000) * 100; return RV(sem_timedwait(&SM, &ts)); }
static int s_post(pup *p) { (void)p; return RV(sem_post(&SM)); }
static int s_postn(pup *p) { return RV(sem_post_multiple(&SM, (int)p->a[1])); }
static int s_get(pup *p) { int v = -55; int r = RV(sem_getvalue(&SM, &v)); p->out[0] = v; return r; }
static int s_dest(pup *p) { (void)p; return RV(sem_destroy(&SM)); }
static int nwait(int n) { int w = 0; for (int i = 0; i < n; i++) w += swait[i]; return w; }
static void s_scan(int n, int grants, int timeouts_ok) {
  int g = 0; for (int i = 0; i < n; i++) if (swait[i] && !PUP[i].busy) { swait[i] = 0; if (PUP[i].rc == 0) g++; else { CK(PUP[i].rc == ETIMEDOUT && sdl[i] && timeouts_ok, "result", "blocked sem wait returned %d", PUP[i].rc); CK(PUP[i].t1 + 10000 >= (uint64_t)sdl[i], "timeout", "sem_timedwait timed out %lld us early", (long long)(sdl[i] - (int64_t)PUP[i].t1) / 10); sim_stat("model_timeouts", 1); } }
    else if (swait[i] && sdl[i]) CK(sim_now() < (uint64_t)sdl[i] + 30000, "timeout", "sem_timedwait still blocked after its deadline");
  CK(g == grants, "conservation", "%d waiters released, expected %d", g, grants); if (g) sim_stat("granted", g);
}
WORKLOAD(sem_model) {
  sim_calm(1); int n = 2 + R(4); memset(swait, 0, sizeof swait); memset(sdl, 0, sizeof sdl); mval = R(3); uint64_t h = 77;
  if (R(20) == 0) { EQ(RV(sem_init(&SM, 1, 1)), EPERM, "init-pshared"); EQ(RV(sem_init(&SM, 0, 0x80000000u + R(1000))), EINVAL, "init-max"); errno = 0; CK(sem_open("/x", 0, 0, 0) == (sem_t *)(intptr_t)-1 && errno == ENOSYS, "sem-open", "sem_open"); EQ(RV(sem_close(&SM)), ENOSYS, "sem-close"); EQ(RV(sem_unlink("/x")), ENOSYS, "sem-unlink"); }
  CK(sem_init(&SM, 0, mval) == 0, "init", "sem_init"); pup_start(n);
  for (int st = 0, ops = 5 + R(35); st < ops; st++) {
    int i = R(n); pup *p = &PUP[i]; int w = nwait(n); if (p->busy) { if (R(3) == 0) { pup_pass(R(50000)); s_scan(n, 0, 1); } continue; }
    int op = R(9); h = (h ^ (op * 8 + i)) * 1099511628211ull; sdl[i] = 0;
    switch (op) {
      case 0: case 1: if (pup_do(p, s_wait)) { CK(p->rc == 0 && mval > 0, "wait", "sem_wait returned %d with value %d", p->rc, mval); mval--; } else { CK(mval == 0, "wait", "sem_wait blocked with value %d", mval); swait[i] = 1; } break;
      case 2: CK(pup_do(p, s_try), "trywait", "sem_trywait blocked"); CK(p->rc == (mval > 0 ? 0 : EAGAIN), "trywait", "sem_trywait -> %d with value %d", p->rc, mval); if (mval > 0) mval--; break;
      case 3: { int past = R(3) == 0; p->a[0] = past ? (int64_t)sim_now() - (int64_t)R(100000000) : (int64_t)sim_now() + 10000 * (1 + R(30)); sdl[i] = p->a[0]; if (pup_do(p, s_timed)) { if (mval > 0) { CK(p->rc == 0, "timedwait", "sem_timedwait -> %d with value %d (past %d)", p->rc, mval, past); mval--; } else { CK(p->rc == ETIMEDOUT && p->t1 + 10000 >= (uint64_t)p->a[0], "timedwait", "sem_timedwait -> %d with value 0 (past %d)", p->rc, past); } } else { CK(mval == 0 && !past, "timedwait", "sem_timedwait blocked with value %d past %d", mval, past); swait[i] = 1; } break; }
      case 4: case 5: CK(pup_do(p, s_post) && p->rc == 0, "post", "sem_post -> %d", p->rc); if (w) s_scan(n, 1, 0); else mval++; break;
      case 6: { if (R(6) == 0) { p->a[1] = -(int64_t)R(4); CK(pup_do(p, s_postn) && p->rc == EINVAL, "post-nonpositive", "sem_post_multiple(%d) -> %d", (int)p->a[1], p->rc); break; } int c = 1 + R(4); p->a[1] = c; CK(pup_do(p, s_postn) && p->rc == 0, "post", "sem_post_multiple -> %d", p->rc); int g = c < w ? c : w; s_scan(n, g, 0); mval += c - g; break; }
      case 7: CK(pup_do(p, s_get) && p->rc == 0, "getvalue", "sem_getvalue -> %d", p->rc); CK(w ? (p->out[0] == 0 || p->out[0] == -w) : p->out[0] == mval, "getvalue", "sem_getvalue gives %d with value %d and %d waiters", (int)p->out[0], mval, w); break;
      case 8: if (w) { CK(pup_do(p, s_dest) && p->rc == EBUSY, "destroy-busy", "sem_destroy with %d waiters -> %d", w, p->rc); } else if (R(4) == 0) { CK(pup_do(p, s_dest) && p->rc == 0, "destroy", "sem_destroy -> %d", p->rc); mval = R(8) ? R(3) : 0x7fffffff - R(4); CK(sem_init(&SM, 0, mval) == 0, "init", "sem_init %d errno %d", mval, errno); int big = mval > 100000;
          if (big) { /* the maximum is respected and the value survives a refused post */ int room = 0x7fffffff - mval; if (R(2)) { CK(RV(sem_post_multiple(&SM, room ? room : 1)) == (room ? 0 : ERANGE), "post-max", "post_multiple(%d) up to the maximum", room); room = 0; } int k = room + 1 + R(3); EQ(RV(sem_post_multiple(&SM, k)), ERANGE, "post-max"); for (int q = 0; q < room; q++) CK(sem_post(&SM) == 0, "post-max", "post below the maximum failed"); EQ(RV(sem_post(&SM)), ERANGE, "post-max"); int v; OK(sem_getvalue(&SM, &v), "getvalue"); CK(v == 0x7fffffff, "post-max", "value %d after refused posts", v); CK(sem_destroy(&SM) == 0, "destroy", "destroy"); mval = R(3); CK(sem_init(&SM, 0, mval) == 0, "init", "init"); sim_stat("post_max", 1); } } break;
    }
    if (!nwait(n)) { int v; OK(sem_getvalue(&SM, &v), "getvalue"); CK(v == mval, "conservation", "value %d but the model has %d", v, mval); }
  }
  sim_state(h); int w = nwait(n); if (w) { CK(sem_post_multiple(&SM, w) == 0, "post", "post_multiple"); sim_settle(); s_scan(n, w, 0); }
  CK(sem_destroy(&SM) == 0, "destroy", "sem_destroy errno %d", errno); pup_stop();
}

#include "wk.h"
/* ---- statically initialised objects, first used by several threads at once - */
enum { S_MN, S_MR, S_ME, S_CV, S_RW, S_SP, S_KINDS };
static const pthread_mutex_t MI[3] = { PTHREAD_MUTEX_INITIALIZER, PTHREAD_RECURSIVE_MUTEX_INITIALIZER, PTHREAD_ERRORCHECK_MUTEX_INITIALIZER };
static const pthread_cond_t CI = PTHREAD_COND_INITIALIZER; static const pthread_rwlock_t RI = PTHREAD_RWLOCK_INITIALIZER; static const pthread_spinlock_t SI = PTHREAD_SPINLOCK_INITIALIZER;
static pthread_mutex_t sm; static pthread_cond_t sc; static pthread_rwlock_t sr; static pthread_spinlock_t ss;
static int kind; static volatile int inside, readers, owner, count, want, started, go_, turn, nthr;
static volatile int used_ok, used_inv;
static void far_(struct timespec *t) { wk_abs(t, 30000000); }
static int mlock(void) { struct timespec t; switch (R(3)) { case 0: return pthread_mutex_lock(&sm); case 1: return pthread_mutex_trylock(&sm); default: far_(&t); return pthread_mutex_timedlock(&sm, &t); } }
static void enter(int id) { CK(!inside && !readers, "mutual-exclusion", "thread %d entered while thread %d is inside (%d readers)", id, owner, readers); inside = 1; owner = id; int c = count; wk_work(R(4)); count = c + 1; sim_add(&want, 1); CK(inside && owner == id, "mutual-exclusion", "thread %d shares with thread %d", id, owner); inside = 0; }
static void *user(void *v) {
  int id = (int)(intptr_t)v; sim_label("static-user"); sim_add(&started, 1); while (!go_) sim_yield();
  for (int i = 0, n = 1 + R(3); i < n; i++) {
    int rc; struct timespec t;
    switch (kind) {
    case S_MN: case S_MR: case S_ME:
      rc = mlock(); if (rc == EBUSY) { sim_stat("static_busy", 1); break; } CK(rc == 0, "first-use", "first use of a static mutex -> %d", rc);
      if (kind == S_MR) { OK(mlock(), "relock"); if (R(2)) { OK(pthread_mutex_trylock(&sm), "relock"); OK(pthread_mutex_unlock(&sm), "unlock"); } }
      if (kind == S_ME) EQ(pthread_mutex_lock(&sm), EDEADLK, "relock"); if (kind == S_MN) EQ(pthread_mutex_trylock(&sm), EBUSY, "relock");
      enter(id); if (kind == S_MR) OK(pthread_mutex_unlock(&sm), "unlock"); OK(pthread_mutex_unlock(&sm), "unlock"); if (kind == S_ME) { rc = pthread_mutex_unlock(&sm); CK(rc == EPERM, "unlock-unowned", "unlock of an error-checking mutex not owned -> %d", rc); } break;
    case S_CV: /* everybody waits for its turn */
      OK(pthread_mutex_lock(&sm), "lock"); if (R(3) == 0) { OK(pthread_cond_signal(&sc), "signal"); OK(pthread_cond_broadcast(&sc), "signal"); }
      while (turn != id) { if (R(3)) rc = pthread_cond_wait(&sc, &sm); else { wk_abs(&t, R(3000)); rc = pthread_cond_timedwait(&sc, &sm, &t); if (rc == ETIMEDOUT) rc = 0; } CK(rc == 0, "first-use", "wait on a static condition variable -> %d", rc); }
      enter(id); turn = (turn + 1) % nthr; OK(pthread_cond_broadcast(&sc), "signal"); OK(pthread_mutex_unlock(&sm), "unlock"); i = n; break;
    case S_RW: { int w = R(2); far_(&t);
      switch (R(3)) { case 0: rc = w ? pthread_rwlock_wrlock(&sr) : pthread_rwlock_rdlock(&sr); break; case 1: rc = w ? pthread_rwlock_trywrlock(&sr) : pthread_rwlock_tryrdlock(&sr); break; default: rc = w ? pthread_rwlock_timedwrlock(&sr, &t) : pthread_rwlock_timedrdlock(&sr, &t); }
      if (rc == EBUSY) { sim_stat("static_busy", 1); break; } CK(rc == 0, "first-use", "first use of a static rwlock -> %d", rc);
      if (w) enter(id); else { CK(!inside, "mutual-exclusion", "reader beside a writer"); sim_add(&readers, 1); wk_work(R(4)); CK(!inside, "mutual-exclusion", "writer beside a reader"); sim_add(&readers, -1); }
      OK(pthread_rwlock_unlock(&sr), "unlock"); break; }
    case S_SP: rc = R(2) ? pthread_spin_lock(&ss) : pthread_spin_trylock(&ss); if (rc == EBUSY) { sim_stat("static_busy", 1); break; } CK(rc == 0, "first-use", "first use of a static spin lock -> %d", rc); enter(id); OK(pthread_spin_unlock(&ss), "unlock"); break; }
    sim_stat("static_uses", 1);
  }
  return v; }
static void setup(void) { sim_calm(1); kind = R(S_KINDS); inside = readers = owner = count = want = started = go_ = turn = 0; used_ok = used_inv = 0; sm = MI[kind <= S_ME ? kind : 0]; sc = CI; sr = RI; ss = SI; }
WORKLOAD(static_use) {
  pthread_t t[6]; setup(); nthr = 2 + R(5); int one = kind == S_SP && R(3) == 0;
  for (int i = 0; i < nthr; i++) wk_spawn(&t[i], user, (void *)(intptr_t)i); while (started < nthr) sim_yield();
  if (one) sim_set_cpus(1, 15);
  int h0 = sim_live_handles(), a0 = sim_live_allocs(); (void)h0; go_ = 1; for (int i = 0; i < nthr; i++) wk_join(t[i]);
  CK(count == want, "mutual-exclusion", "%d entries counted, %d made", count, want);
  int h1 = 0, a1 = sim_live_allocs();
  switch (kind) { case S_CV: OK(pthread_cond_destroy(&sc), "destroy"); CK(sc == NULL, "destroy", "still set"); __attribute__((fallthrough)); case S_MN: case S_MR: case S_ME: OK(pthread_mutex_destroy(&sm), "destroy"); CK(sm == NULL, "destroy", "still set"); EQ(pthread_mutex_lock(&sm), EINVAL, "destroyed"); break;
    case S_RW: OK(pthread_rwlock_destroy(&sr), "destroy"); EQ(pthread_rwlock_rdlock(&sr), EINVAL, "destroyed"); break; case S_SP: OK(pthread_spin_destroy(&ss), "destroy"); EQ(pthread_spin_lock(&ss), EINVAL, "destroyed"); break; }
  (void)h1; (void)a0; (void)a1; sim_set_cpus(15, 15); sim_state(kind * 10 + nthr + 100 * want);
}
/* ---- destroying a static object nobody has used yet, racing its first use -- */
static void *duser(void *v) {
  int rc = 0; struct timespec t; sim_label("static-first-user"); sim_add(&started, 1); while (!go_) sim_yield(); wk_work(R(20)); far_(&t);
  switch (kind) {
  case S_MN: case S_MR: case S_ME: rc = mlock(); if (!rc) { enter(1); OK(pthread_mutex_unlock(&sm), "unlock"); } break;
  case S_CV: { pthread_mutex_t m; OK(pthread_mutex_init(&m, NULL), "init"); OK(pthread_mutex_lock(&m), "lock"); wk_abs(&t, R(500)); rc = pthread_cond_timedwait(&sc, &m, &t); if (rc == ETIMEDOUT) rc = 0; OK(pthread_mutex_unlock(&m), "unlock"); OK(pthread_mutex_destroy(&m), "destroy"); break; }
  case S_RW: switch (R(3)) { case 0: rc = pthread_rwlock_rdlock(&sr); break; case 1: rc = pthread_rwlock_tryrdlock(&sr); break; default: rc = pthread_rwlock_timedrdlock(&sr, &t); } if (!rc) OK(pthread_rwlock_unlock(&sr), "unlock"); break;
  case S_SP: rc = R(2) ? pthread_spin_lock(&ss) : pthread_spin_trylock(&ss); if (!rc) { enter(1); OK(pthread_spin_unlock(&ss), "unlock"); } break; }
  if (rc == 0 || rc == EBUSY) sim_add(&used_ok, 1); else { CK(rc == EINVAL, "first-use", "first use of a static object being destroyed -> %d (kind %d)", rc, kind); sim_add(&used_inv, 1); }
  return v; }
static int is_fresh(void) { switch (kind) { case S_CV: return sc == CI; case S_RW: return sr == RI; case S_SP: return ss == SI; default: return sm == MI[kind]; } }
static int kill_(void) { switch (kind) { case S_CV: return pthread_cond_destroy(&sc); case S_RW: return pthread_rwlock_destroy(&sr); case S_SP: return pthread_spin_destroy(&ss); default: return pthread_mutex_destroy(&sm); } }
WORKLOAD(static_destroy) {
  pthread_t t[3]; setup(); int n = 1 + R(3), rc = -1;
  for (int i = 0; i < n; i++) wk_spawn(&t[i], duser, (void *)(intptr_t)i); while (started < n) sim_yield();
  go_ = 1; wk_work(R(60));
  /* the destroyer sees the object unused and enters the destroy function in one step: only then is its call legal whatever the users do */
  int o = sim_preempt(0); if (is_fresh()) rc = kill_(); sim_preempt(o);
  for (int i = 0; i < n; i++) wk_join(t[i]);
  if (rc < 0) { sim_stat("used_first", 1); CK(used_inv == 0, "first-use", "a static object that nobody destroyed was refused"); }
  else if (rc == 0) { sim_stat("destroyed_first", 1); CK(used_ok == 0 && used_inv == n, "destroyed-used", "a static object was used %d times although it had been destroyed unused (kind %d)", used_ok, kind); EQ(kill_() == 0, 0, "destroyed"); }
  else { CK(rc == EBUSY, "destroy-result", "destroying a static object -> %d", rc); sim_stat("destroy_busy", 1); CK(used_inv == 0, "first-use", "a static object was refused although destroying it failed (kind %d)", kind); }
  if (rc) OK(kill_(), "destroy"); sim_state(kind + 8 * n + 64 * (rc + 2));
}

#include "wk_pup.h"
/* ---- robust mutexes under stress: owners die while holding them ---------- */
#define NRM 3
static struct rm { pthread_mutex_t m; int type; volatile int in, owner, dead, notrec, cnt, done, deaths, ownerdead; } RM[NRM];
static int rn;
typedef struct { int id, iters, die; } ra;
static void r_release(int k, int id) { /* plain release of a consistent mutex */
  CK(RM[k].in && RM[k].owner == id, "mutual-exclusion", "robust mutex %d changed hands inside the critical section", k);
  RM[k].in = 0; RM[k].owner = -1; OK(pthread_mutex_unlock(&RM[k].m), "unlock"); }
/* returns 1 if now held and consistent */
static int r_got(int k, int id, int rc, const char *how) {
  struct rm *m = &RM[k];
  if (rc == 0) {
    CK(!m->notrec, "not-recoverable", "%s of a not-recoverable mutex returned 0 (type %d)", how, m->type);
    CK(!m->dead, "owner-dead", "%s after the owner died holding it returned 0 (type %d)", how, m->type);
    CK(!m->in, "mutual-exclusion", "%s returned 0 while thread %d holds the mutex (type %d)", how, m->owner, m->type);
    m->in = 1; m->owner = id; m->cnt++; return 1; }
  if (rc == EOWNERDEAD) {
    CK(!m->notrec, "not-recoverable", "%s of a not-recoverable mutex returned EOWNERDEAD", how);
    CK(m->dead, "owner-dead", "%s returned EOWNERDEAD although no owner died (type %d)", how, m->type);
    CK(m->in && m->owner == -2, "mutual-exclusion", "EOWNERDEAD while thread %d holds the mutex", m->owner);
    m->owner = id; m->ownerdead++; sim_stat("ownerdead", 1); sim_user_point();
    int what = R(8);
    if (what == 0) { /* give up: not recoverable from here on */ m->notrec = 1; m->dead = 0; m->in = 0; m->owner = -1; OK(pthread_mutex_unlock(&m->m), "unlock-inconsistent"); sim_stat("made_notrecoverable", 1); return 0; }
    if (what == 1) return 2; /* die again without making it consistent */
    OK(pthread_mutex_consistent(&m->m), "consistent"); m->dead = 0;
    EQ(pthread_mutex_consistent(&m->m), EINVAL, "consistent-twice");
    m->cnt++; return 1; }
  if (rc == ENOTRECOVERABLE) { CK(m->notrec, "not-recoverable", "%s returned ENOTRECOVERABLE although nobody gave the mutex up (type %d)", how, m->type); sim_stat("notrecoverable", 1); return 0; }
  return -1;
}
static int r_acquire(int k, int id) {
  struct rm *m = &RM[k]; int how = R(4), rc, g;
  if (how < 2) { rc = pthread_mutex_lock(&m->m); g = r_got(k, id, rc, "lock"); CK(g >= 0, "lock-result", "robust lock -> %d", rc); }
  else if (how == 2) { rc = pthread_mutex_trylock(&m->m); g = r_got(k, id, rc, "trylock"); CK(g >= 0 || rc == EBUSY, "lock-result", "robust trylock -> %d", rc); }
  else { struct timespec ts; wk_abs(&ts, R(40000)); rc = pthread_mutex_timedlock(&m->m, &ts); g = r_got(k, id, rc, "timedlock"); CK(g >= 0 || rc == ETIMEDOUT, "lock-result", "robust timedlock -> %d", rc); }
  return g; }
static void r_die(int k, int id) { RM[k].dead = 1; RM[k].in = 1; RM[k].owner = -2; RM[k].deaths++; (void)id; sim_stat("owner_died", 1); }
static void *rthr(void *v) {
  ra *a = (ra *)v; sim_label("robust-thread"); int dead = 0;
  for (int i = 0; i < a->iters && !dead; i++) {
    int last = i == a->iters - 1 && a->die; int held[NRM], nh = 0;
    for (int k = 0; k < rn && !dead; k++) { /* ascending order: no ABBA */
      if (R(3) == 0) continue;
      int g = r_acquire(k, a->id);
      if (g == 2) { r_die(k, a->id); dead = 1; break; }
      if (g != 1) continue;
      held[nh++] = k; sim_user_point();
      if (RM[k].type == PTHREAD_MUTEX_RECURSIVE && R(2)) { int d = 1 + R(2); for (int j = 0; j < d; j++) { struct timespec ts; wk_abs(&ts, 1000); int h = R(3); int rc = h == 0 ? pthread_mutex_lock(&RM[k].m) : h == 1 ? pthread_mutex_trylock(&RM[k].m) : pthread_mutex_timedlock(&RM[k].m, &ts); CK(rc == 0, "recursive", "relock of held robust recursive mutex (how %d) -> %d", h, rc); } if (!last) for (int j = 0; j < d; j++) { OK(pthread_mutex_unlock(&RM[k].m), "unlock"); CK(RM[k].owner == a->id, "mutual-exclusion", "recursive robust mutex lost"); } }
      else if (RM[k].type == PTHREAD_MUTEX_ERRORCHECK && R(3) == 0) { EQ(pthread_mutex_lock(&RM[k].m), EDEADLK, "errorcheck"); EQ(pthread_mutex_trylock(&RM[k].m), EBUSY, "errorcheck"); }
      if (R(6) == 0) sim_delay_us(R(20000));
      CK(RM[k].in && RM[k].owner == a->id, "mutual-exclusion", "robust mutex %d changed hands inside the critical section", k);
    }
    if (last || dead) { for (int j = 0; j < nh; j++) r_die(held[j], a->id); dead = 1; break; }
    while (nh) { int j = R(nh); r_release(held[j], a->id); held[j] = held[--nh]; }
  }
  switch (R(3)) { case 0: pthread_exit((void *)v); case 1: pthread_cancel(pthread_self()); pthread_testcancel(); CK(0, "cancel", "testcancel returned after cancelling self"); }
  return v;
}
WORKLOAD(robust_stress) {
  pthread_t t[5]; static ra a[5]; static const int types[] = {PTHREAD_MUTEX_NORMAL, PTHREAD_MUTEX_ERRORCHECK, PTHREAD_MUTEX_RECURSIVE};
  rn = 1 + R(NRM); int n = 2 + R(4);
  for (int k = 0; k < rn; k++) { memset(&RM[k], 0, sizeof RM[k]); RM[k].type = types[R(3)]; RM[k].owner = -1; pthread_mutexattr_t at; OK(pthread_mutexattr_init(&at), "init"); OK(pthread_mutexattr_settype(&at, RM[k].type), "init"); OK(pthread_mutexattr_setrobust(&at, PTHREAD_MUTEX_ROBUST), "init"); OK(pthread_mutex_init(&RM[k].m, &at), "init"); OK(pthread_mutexattr_destroy(&at), "init"); }
  for (int i = 0; i < n; i++) { a[i].id = i; a[i].iters = 1 + R(4); a[i].die = R(2); wk_spawn(&t[i], rthr, &a[i]); }
  for (int i = 0; i < n; i++) wk_join(t[i]);
  for (int k = 0; k < rn; k++) { struct rm *m = &RM[k];
    sim_state(m->type + 4 * m->deaths + 64 * m->ownerdead + 1024 * m->notrec + 2048 * m->dead);
    int how = R(3); struct timespec ts; wk_abs(&ts, 1000); int rc = how == 0 ? pthread_mutex_lock(&m->m) : how == 1 ? pthread_mutex_trylock(&m->m) : pthread_mutex_timedlock(&m->m, &ts);
    int ex = m->notrec ? ENOTRECOVERABLE : m->dead ? EOWNERDEAD : 0;
    CK(rc == ex, "final-state", "after every thread ended: acquire (how %d) of robust mutex type %d -> %d, expected %d", how, m->type, rc, ex);
    if (rc == EOWNERDEAD) OK(pthread_mutex_consistent(&m->m), "consistent");
    if (rc != ENOTRECOVERABLE) { if (m->type == PTHREAD_MUTEX_RECURSIVE && R(2)) EQ(pthread_mutex_destroy(&m->m), EBUSY, "destroy-held"); OK(pthread_mutex_unlock(&m->m), "unlock"); EQ(pthread_mutex_unlock(&m->m), EPERM, "unlock-not-owner"); EQ(pthread_mutex_consistent(&m->m), EINVAL, "consistent-not-needed"); }
    OK(pthread_mutex_destroy(&m->m), "destroy"); }
}
/* ---- the last user destroys it, while earlier owners are still dying -------- */
static pthread_mutex_t RL; static volatile int rl_refs, rl_gone;
static void rl_left(void) { int r = sim_add(&rl_refs, -1); CK(r >= 0, "harness", "refs"); if (r == 0) { OK(pthread_mutex_destroy(&RL), "destroy-last"); rl_gone = 1; } }
static void *rl_thr(void *v) {
  struct timespec ts; int rc, again = R(3); sim_label("robust-lastout");
  for (;;) {
    switch (R(3)) { case 0: rc = pthread_mutex_lock(&RL); break; case 1: wk_abs(&ts, 60000000); rc = pthread_mutex_timedlock(&RL, &ts); break; default: rc = pthread_mutex_trylock(&RL); if (rc == EBUSY) { sim_yield(); continue; } }
    if (rc == ENOTRECOVERABLE) { rl_left(); return v; }
    CK(rc == 0 || rc == EOWNERDEAD, "lock-result", "robust lock -> %d", rc);
    if (rc == EOWNERDEAD) { sim_stat("ownerdead", 1); if (R(6) == 0) { OK(pthread_mutex_unlock(&RL), "unlock"); rl_left(); return v; } if (R(4) == 0 && rl_refs > 1) { sim_add(&rl_refs, -1); return v; } OK(pthread_mutex_consistent(&RL), "consistent"); }
    if (again-- > 0) { OK(pthread_mutex_unlock(&RL), "unlock"); continue; }
    int r = sim_add(&rl_refs, -1);
    if (r && R(2)) { sim_stat("robust_died_before_last", 1); return v; } /* dies holding it */
    OK(pthread_mutex_unlock(&RL), "unlock"); if (r == 0) { OK(pthread_mutex_destroy(&RL), "destroy-last"); rl_gone = 1; }
    return v; } }
WORKLOAD(robust_lastout) {
  pthread_t t[6]; int n = 2 + R(5); sim_calm(1); pthread_mutexattr_t a; OK(pthread_mutexattr_init(&a), "init"); OK(pthread_mutexattr_settype(&a, R(3)), "settype"); OK(pthread_mutexattr_setrobust(&a, PTHREAD_MUTEX_ROBUST), "setrobust");
  OK(pthread_mutex_init(&RL, &a), "init"); OK(pthread_mutexattr_destroy(&a), "destroy"); rl_refs = n; rl_gone = 0;
  for (int i = 0; i < n; i++) wk_spawn(&t[i], rl_thr, &t[i]);
  for (int i = 0; i < n; i++) wk_join(t[i]);
  CK(rl_gone && RL == NULL, "destroy-after-unlock", "the mutex was not destroyed"); sim_state(n);
}

/* an owner leaves while others are on their way to wait; the next owner dies: everybody gets in */
static pthread_mutex_t RH; static volatile int rh_in, rh_own, rh_dead;
static int rh_enter(int rc) { if (rc == EOWNERDEAD) { CK(sim_add(&rh_dead, -1) == 0, "ownerdead-once", "EOWNERDEAD without a dead owner"); sim_stat("heirs", 1); OK(pthread_mutex_consistent(&RH), "consistent"); } else CK(rc == 0, "lock-result", "robust lock -> %d", rc);
  CK(sim_add(&rh_own, 1) == 1, "exclusion", "two owners"); sim_add(&rh_in, 1); return 1; }
static void rh_leave(void) { sim_add(&rh_own, -1); OK(pthread_mutex_unlock(&RH), "unlock"); }
static void *rh_wait(void *v) { rh_enter(pthread_mutex_lock(&RH)); if (R(4) == 0) wk_work(R(3)); rh_leave(); return v; }
static void *rh_die(void *v) { int rc = EBUSY; for (int i = 0, n = 1 + R(4); i < n && rc == EBUSY; i++) { rc = pthread_mutex_trylock(&RH); if (rc == EBUSY) { if (R(2)) wk_work(R(4)); else sim_yield(); } } if (rc == EBUSY) rc = pthread_mutex_lock(&RH);
  rh_enter(rc); if (R(3) == 0) wk_work(R(3)); sim_add(&rh_dead, 1); sim_add(&rh_own, -1); return v; }
WORKLOAD(robust_heirs) {
  pthread_mutexattr_t a; pthread_t t[6]; int n = 2 + R(2), d = 1 + R(4) / 3; rh_in = rh_own = rh_dead = 0; OK(pthread_mutexattr_init(&a), "init"); OK(pthread_mutexattr_setrobust(&a, PTHREAD_MUTEX_ROBUST), "init"); if (R(3) == 0) OK(pthread_mutexattr_settype(&a, R(2) ? PTHREAD_MUTEX_RECURSIVE : PTHREAD_MUTEX_ERRORCHECK), "init"); OK(pthread_mutex_init(&RH, &a), "init"); OK(pthread_mutexattr_destroy(&a), "init");
  rh_enter(pthread_mutex_lock(&RH)); for (int i = 0; i < n; i++) wk_spawn(&t[i], rh_wait, NULL); for (int i = 0; i < d; i++) wk_spawn(&t[n + i], rh_die, NULL); if (R(4)) wk_work(R(12)); rh_leave();
  for (int i = 0; i < n + d; i++) wk_join(t[i]);
  int rc = pthread_mutex_lock(&RH); CK(rc == (rh_dead ? EOWNERDEAD : 0), "lock-result", "last lock -> %d, %d owners died unseen", rc, rh_dead); rh_enter(rc); rh_leave(); CK(rh_in == n + d + 2, "progress", "%d of %d got in", rh_in, n + d + 2); OK(pthread_mutex_destroy(&RH), "destroy"); sim_state(n * 4 + d);
}

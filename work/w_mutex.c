#include "wk.h"
/* ---- mutual exclusion and progress over every mutex type --------------- */
#define MAXM 3
static struct { pthread_mutex_t m; int type, robust, stat; volatile int in, depth; volatile int owner; volatile int plain; int locks; } M[MAXM];
static int nthr, nm;
typedef struct { int id, iters; uint32_t seed; int ok[MAXM]; } targ;
static uint32_t tr(targ *a, uint32_t n) { a->seed = a->seed * 1664525u + 1013904223u; return (uint32_t)(((uint64_t)(a->seed >> 8) * n) >> 24); }
static void enter(int k, int id) {
  int v = M[k].in; CK(v == 0, "mutual-exclusion", "thread %d entered mutex %d (type %d robust %d) while %d inside (owner %d)", id, k, M[k].type, M[k].robust, v, M[k].owner);
  M[k].in = 1; M[k].owner = id; int p = M[k].plain; sim_user_point(); if (sim_chance(1, 4)) sim_yield();
  M[k].plain = p + 1; CK(M[k].in == 1 && M[k].owner == id, "mutual-exclusion", "mutex %d state disturbed inside the critical section", k);
}
static void leave(int k, int id) { CK(M[k].owner == id && M[k].in == 1, "mutual-exclusion", "mutex %d owner changed under thread %d", k, id); M[k].in = 0; M[k].owner = -1; }
static void *mthr(void *v) {
  targ *a = (targ *)v; sim_label("mutex-thread");
  for (int i = 0; i < a->iters; i++) {
    int k = tr(a, nm), how = tr(a, 8), rc, nest = 0;
    if (how < 4) { rc = pthread_mutex_lock(&M[k].m); CK(rc == 0, "lock-result", "pthread_mutex_lock -> %d", rc); }
    else if (how < 6) { rc = pthread_mutex_trylock(&M[k].m); CK(rc == 0 || rc == EBUSY, "lock-result", "pthread_mutex_trylock -> %d", rc); sim_stat(rc ? "trylock_busy" : "trylock_ok", 1); }
    else { struct timespec ts; int us = tr(a, 4) == 0 ? -(int)tr(a, 5000) : (int)tr(a, 60000); wk_abs(&ts, us); rc = pthread_mutex_timedlock(&M[k].m, &ts);
      CK(rc == 0 || rc == ETIMEDOUT, "lock-result", "pthread_mutex_timedlock -> %d", rc); sim_stat(rc ? "timedlock_timeout" : "timedlock_ok", 1); }
    if (rc == 0) {
      enter(k, a->id); a->ok[k]++;
      if (M[k].type == PTHREAD_MUTEX_RECURSIVE && tr(a, 2)) { nest = 1 + tr(a, 3); for (int j = 0; j < nest; j++) { int h = tr(a, 3); struct timespec ts; wk_abs(&ts, (int)tr(a, 3000)); rc = h == 0 ? pthread_mutex_lock(&M[k].m) : h == 1 ? pthread_mutex_trylock(&M[k].m) : pthread_mutex_timedlock(&M[k].m, &ts); CK(rc == 0, "recursive-relock", "relock of a held recursive mutex (how %d) -> %d", h, rc); sim_user_point(); } }
      if (tr(a, 6) == 0) sim_delay_us(tr(a, 20000));
      for (int j = 0; j < nest; j++) { OK(pthread_mutex_unlock(&M[k].m), "unlock-result"); sim_user_point(); CK(M[k].owner == a->id && M[k].in == 1, "recursive-hold", "recursive mutex %d released before the last unlock", k); }
      leave(k, a->id);
      OK(pthread_mutex_unlock(&M[k].m), "unlock-result");
    }
    if (tr(a, 10) == 0) sim_delay_us(tr(a, 3000));
  }
  return NULL;
}
WORKLOAD(mutex_excl) {
  pthread_t t[6]; static targ a[6]; 
  static const int types[] = {PTHREAD_MUTEX_NORMAL, PTHREAD_MUTEX_ERRORCHECK, PTHREAD_MUTEX_RECURSIVE, PTHREAD_MUTEX_DEFAULT};
  nm = 1 + R(2); nthr = 2 + R(4);
  for (int k = 0; k < nm; k++) {
    memset(&M[k], 0, sizeof M[k]); M[k].owner = -1; M[k].type = types[R(4)]; M[k].stat = R(3) == 0; M[k].robust = !M[k].stat && R(4) == 0;
    if (M[k].stat) {
      pthread_mutex_t sn = PTHREAD_MUTEX_INITIALIZER, sr = PTHREAD_RECURSIVE_MUTEX_INITIALIZER, se = PTHREAD_ERRORCHECK_MUTEX_INITIALIZER;
      M[k].m = M[k].type == PTHREAD_MUTEX_RECURSIVE ? sr : M[k].type == PTHREAD_MUTEX_ERRORCHECK ? se : sn;
    } else if (M[k].type == PTHREAD_MUTEX_DEFAULT && !M[k].robust && R(2)) OK(pthread_mutex_init(&M[k].m, NULL), "init");
    else { pthread_mutexattr_t at; OK(pthread_mutexattr_init(&at), "init"); OK(pthread_mutexattr_settype(&at, M[k].type), "init"); if (M[k].robust) OK(pthread_mutexattr_setrobust(&at, PTHREAD_MUTEX_ROBUST), "init"); OK(pthread_mutex_init(&M[k].m, &at), "init"); OK(pthread_mutexattr_destroy(&at), "init"); }
    sim_state(M[k].type * 4 + M[k].stat * 2 + M[k].robust + nthr * 100);
  }
  for (int i = 0; i < nthr; i++) { memset(&a[i], 0, sizeof a[i]); a[i].id = i; a[i].iters = 1 + R(6); a[i].seed = sim_rand(0xffffffffu); wk_spawn(&t[i], mthr, &a[i]); }
  for (int i = 0; i < nthr; i++) wk_join(t[i]);
  for (int k = 0; k < nm; k++) {
    int s = 0; for (int i = 0; i < nthr; i++) s += a[i].ok[k];
    CK(M[k].plain == s, "lost-update", "protected counter %d but %d critical sections", M[k].plain, s);
    sim_stat("critical_sections", s);
    OK(pthread_mutex_trylock(&M[k].m), "free-at-end"); OK(pthread_mutex_unlock(&M[k].m), "free-at-end");
    OK(pthread_mutex_destroy(&M[k].m), "destroy");
  }
}

/* ---- ownership rules of every mutex type against a sequential model ----- */
#include "wk_pup.h"
static struct mm { pthread_mutex_t m; int live, type, owner, count, stat, robust; } MM[2];
static int o_lock(pup *p) { return pthread_mutex_lock((pthread_mutex_t *)p->p[0]); }
static int o_try(pup *p) { return pthread_mutex_trylock((pthread_mutex_t *)p->p[0]); }
static int o_timed(pup *p) { struct timespec ts; uint64_t v = (uint64_t)p->a[0]; ts.tv_sec = v / 10000000; ts.tv_nsec = (int)(v % 10000000) * 100; return pthread_mutex_timedlock((pthread_mutex_t *)p->p[0], &ts); }
static int o_unlock(pup *p) { return pthread_mutex_unlock((pthread_mutex_t *)p->p[0]); }
static int o_destroy(pup *p) { return pthread_mutex_destroy((pthread_mutex_t *)p->p[0]); }
static int MW[MAXPUP]; /* mutex waited for, -1 */
static void mm_init(int k) {
  static const int types[] = {PTHREAD_MUTEX_NORMAL, PTHREAD_MUTEX_ERRORCHECK, PTHREAD_MUTEX_RECURSIVE, PTHREAD_MUTEX_DEFAULT, PTHREAD_MUTEX_FAST_NP, PTHREAD_MUTEX_RECURSIVE_NP, PTHREAD_MUTEX_ERRORCHECK_NP};
  struct mm *m = &MM[k]; memset(m, 0, sizeof *m); m->owner = -1; m->type = types[R(7)]; m->live = 1; m->stat = R(3) == 0;
  if (m->stat) { pthread_mutex_t sn = PTHREAD_MUTEX_INITIALIZER, sr = PTHREAD_RECURSIVE_MUTEX_INITIALIZER, se = PTHREAD_ERRORCHECK_MUTEX_INITIALIZER; m->m = m->type == PTHREAD_MUTEX_RECURSIVE ? sr : m->type == PTHREAD_MUTEX_ERRORCHECK ? se : sn; return; }
  pthread_mutexattr_t at; OK(pthread_mutexattr_init(&at), "init");
  if (R(2)) OK(pthread_mutexattr_settype(&at, m->type), "init"); else OK(pthread_mutexattr_setkind_np(&at, m->type), "init");
  int ty = -1; OK(pthread_mutexattr_gettype(&at, &ty), "attr"); CK(ty == m->type, "attr", "gettype %d after settype %d", ty, m->type);
  if (R(3) == 0) { m->robust = 1; OK(pthread_mutexattr_setrobust(&at, PTHREAD_MUTEX_ROBUST), "init"); ty = -1; OK(pthread_mutexattr_getrobust(&at, &ty), "attr"); CK(ty == PTHREAD_MUTEX_ROBUST, "attr", "getrobust %d", ty); sim_stat("robust_models", 1); }
  OK(pthread_mutex_init(&m->m, &at), "init"); OK(pthread_mutexattr_destroy(&at), "init");
}
static void mm_owner_done(int k, int i) { MM[k].owner = i; MM[k].count = 1; }
static void mm_scan(int k, int expect, const char *why) {
  int got = -1; for (int i = 0; i < npup; i++) if (MW[i] == k && !PUP[i].busy) { CK(PUP[i].rc == 0, "handover", "blocked lock of mutex %d woke with %d (%s)", k, PUP[i].rc, why); CK(got < 0, "mutual-exclusion", "two waiters acquired mutex %d after one unlock", k); got = i; MW[i] = -1; }
  int waiting = 0; for (int i = 0; i < npup; i++) if (MW[i] == k) waiting++;
  if (expect) CK(got >= 0 || !waiting, "progress", "mutex %d released but none of %d waiters acquired it", k, waiting);
  else CK(got < 0, "mutual-exclusion", "a waiter acquired mutex %d although %s", k, why);
  if (got >= 0) { mm_owner_done(k, got); sim_stat("handover", 1); }
}
static void mm_expire(int n) {
  pup_pass(20000 + R(40000));
  for (int j = 0; j < n; j++) if (MW[j] >= 0 && PUP[j].a[1] == 2) { uint64_t d = PUP[j].a[0];
    if (sim_now() > d + 30000) CK(!PUP[j].busy, "timeout", "timed lock still blocked %lld us after its deadline", (long long)(sim_now() - d) / 10);
    if (!PUP[j].busy) { CK(PUP[j].rc == ETIMEDOUT, "timeout", "timed lock of a held mutex -> %d", PUP[j].rc); CK(PUP[j].t1 + 10000 >= d, "timeout", "timed lock timed out %lld us early", (long long)(d - PUP[j].t1) / 10); MW[j] = -1; sim_stat("model_timeout", 1); } }
}
WORKLOAD(mutex_model) {
  sim_calm(1); int n = 2 + R(3); for (int i = 0; i < MAXPUP; i++) MW[i] = -1;
  mm_init(0); mm_init(1); pup_start(n); uint64_t h = 1469598103934665603ull;
  int ops = 5 + R(30);
  for (int s = 0; s < ops; s++) {
    int i = R(n), k = R(2); struct mm *m = &MM[k]; pup *p = &PUP[i]; p->p[0] = &m->m;
    if (p->busy) {
      if (R(3) == 0) { /* let time pass: timed waiters expire */
        mm_expire(n);
      }
      continue; }
    int waiters = 0; for (int j = 0; j < n; j++) if (MW[j] == k) waiters++;
    int op = R(10); h = (h ^ (op * 16 + i * 4 + k)) * 1099511628211ull;
    int mine = m->owner == i;
    if (op <= 4) { /* acquire */
      int how = op <= 1 ? 0 : op == 2 ? 1 : 2; int past = 0;
      if (how == 2) { past = R(3) == 0; p->a[0] = (int64_t)sim_now() + (past ? -(int64_t)R(1000000000) : 10000 * (1 + R(20))); if (R(20) == 0) { p->a[0] = R(10000000); past = 1; } } p->a[1] = how;
      /* a normal mutex locked again by its owner with plain lock blocks for ever: allowed but then nobody can release it except us */
      if (mine && m->type == PTHREAD_MUTEX_NORMAL && how == 0) continue;
      if (how == 0 && m->owner >= 0 && MM[1 - k].owner == i) continue; /* no hold-and-wait for ever: the script itself must not deadlock */
      int dn = pup_do(p, how == 0 ? o_lock : how == 1 ? o_try : o_timed);
      if (m->owner < 0) { CK(dn, "progress", "acquire (how %d) of a free mutex type %d blocked", how, m->type); CK(p->rc == 0, "acquire-free", "acquire (how %d, past %d) of a free mutex type %d -> %d", how, past, m->type, p->rc); mm_owner_done(k, i); }
      else if (mine && m->type == PTHREAD_MUTEX_RECURSIVE) { CK(dn && p->rc == 0, "recursive", "re-acquire (how %d) of recursive mutex -> done %d rc %d", how, dn, p->rc); m->count++; }
      else if (mine && m->type == PTHREAD_MUTEX_ERRORCHECK) { int ex = how == 1 ? EBUSY : EDEADLK; CK(dn && p->rc == ex, "errorcheck", "re-acquire (how %d) of errorcheck mutex -> done %d rc %d expected %d", how, dn, p->rc, ex); }
      else if (how == 1) CK(dn && p->rc == EBUSY, "trylock-held", "trylock of a held mutex (type %d) -> done %d rc %d", m->type, dn, p->rc);
      else if (how == 2 && past) CK(dn && p->rc == ETIMEDOUT, "timeout-past", "timedlock of a held mutex with a past deadline -> done %d rc %d", dn, p->rc);
      else { if (dn) { CK(how == 2 && p->rc == ETIMEDOUT && sim_now() + 10000 >= (uint64_t)p->a[0], "mutual-exclusion", "lock (how %d) of a mutex held by puppet %d returned %d", how, m->owner, p->rc); } else MW[i] = k; }
    } else if (op <= 8) { /* release */
      if (m->owner >= 0 && !mine && m->type == PTHREAD_MUTEX_NORMAL && !m->robust) continue; /* not defined for normal mutexes */
      if (m->owner >= 0 && R(2) && !PUP[m->owner].busy && m->type != PTHREAD_MUTEX_NORMAL) { /* foreign unlock attempts must fail */ int dn = pup_do(p, o_unlock); if (mine) goto mineunlock; CK(dn && p->rc == EPERM, "unlock-not-owner", "unlock by a non-owner of mutex type %d -> %d", m->type, p->rc); mm_scan(k, 0, "only a non-owner unlocked it"); continue; mineunlock: CK(dn && p->rc == 0, "unlock", "unlock by the owner -> %d", p->rc); }
      else { int dn = pup_do(p, o_unlock); CK(dn, "progress", "unlock blocked");
        if (m->owner < 0) { if (m->stat && p->rc == 0) { CK(m->m == PTHREAD_MUTEX_INITIALIZER, "unlock-free", "unlock of a free mutex -> 0"); continue; } if (m->stat && p->rc == EINVAL) continue; CK(p->rc == EPERM, "unlock-free", "unlock of a free mutex type %d -> %d", m->type, p->rc); sim_stat("unlock_free", 1); continue; }
        if (!mine) { CK(p->rc == EPERM, "unlock-not-owner", "unlock by a non-owner of mutex type %d -> %d", m->type, p->rc); mm_scan(k, 0, "only a non-owner unlocked it"); continue; }
        CK(p->rc == 0, "unlock", "unlock by the owner of mutex type %d -> %d", m->type, p->rc); }
      if (--m->count == 0) { m->owner = -1; mm_scan(k, 1, "unlock"); } else mm_scan(k, 0, "a recursive mutex is still held");
    } else { /* destroy */
      if (m->owner >= 0 && mine && R(2) == 0 && m->type != PTHREAD_MUTEX_RECURSIVE) { }
      int dn = pup_do(p, o_destroy); CK(dn, "progress", "destroy blocked");
      if (m->owner >= 0) CK(p->rc == EBUSY, "destroy-held", "destroy of a mutex (type %d) held %d times by %s -> %d", m->type, m->count, mine ? "the caller" : "another thread", p->rc);
      else { CK(p->rc == 0, "destroy-free", "destroy of a free mutex -> %d", p->rc); CK(waiters == 0, "harness", "waiters on a free mutex"); int rc = pthread_mutex_lock(&m->m); CK(rc == EINVAL, "use-after-destroy", "lock of a destroyed mutex -> %d", rc); mm_init(k); }
    }
  }
  sim_state(h);
  for (int r = 0; r < 40; r++) {
    mm_expire(n); int any = 0;
    for (int k = 0; k < 2; k++) while (MM[k].owner >= 0) { any = 1; pup *p = &PUP[MM[k].owner]; if (p->busy) break; p->p[0] = &MM[k].m; CK(pup_do(p, o_unlock) && p->rc == 0, "unlock", "unlock by the owner -> %d", p->rc); if (--MM[k].count == 0) { MM[k].owner = -1; mm_scan(k, 1, "unlock"); } }
    if (!any) break;
  }
  for (int i = 0; i < n; i++) CK(!PUP[i].busy, "progress", "puppet %d still blocked although every mutex is free", i);
  for (int k = 0; k < 2; k++) OK(pthread_mutex_destroy(&MM[k].m), "destroy");
  pup_stop();
}
/* ---- the last user of a reference counted object unlocks, then destroys --- */
static struct { pthread_mutex_t m; volatile int refs, in; } LO; static volatile int lo_destroyed;
static void *lo_thr(void *v) {
  int h = R(3), rc; struct timespec ts; wk_abs(&ts, 3000000);
  if (h < 2) rc = pthread_mutex_lock(&LO.m); else rc = pthread_mutex_timedlock(&LO.m, &ts);
  if (rc == ETIMEDOUT) { rc = pthread_mutex_lock(&LO.m); }
  CK(rc == 0, "lock-result", "lock -> %d", rc);
  CK(!LO.in, "mutual-exclusion", "two threads inside"); LO.in = 1; sim_user_point(); int last = --LO.refs == 0; LO.in = 0;
  OK(pthread_mutex_unlock(&LO.m), "unlock");
  if (last) { /* nobody else can reach the object any more */ OK(pthread_mutex_destroy(&LO.m), "destroy-after-unlock"); lo_destroyed = 1; sim_stat("last_out_destroys", 1); }
  return v;
}
WORKLOAD(mutex_lastout) {
  pthread_t t[6]; int n = 2 + R(5); pthread_mutexattr_t a; OK(pthread_mutexattr_init(&a), "init"); OK(pthread_mutexattr_settype(&a, R(3)), "settype"); if (R(2)) OK(pthread_mutexattr_setrobust(&a, PTHREAD_MUTEX_ROBUST), "setrobust");
  OK(pthread_mutex_init(&LO.m, &a), "init"); OK(pthread_mutexattr_destroy(&a), "destroy"); LO.refs = n; LO.in = 0; lo_destroyed = 0;
  for (int i = 0; i < n; i++) wk_spawn(&t[i], lo_thr, &t[i]);
  for (int i = 0; i < n; i++) wk_join(t[i]);
  CK(lo_destroyed && LO.m == NULL, "destroy-after-unlock", "the mutex was not destroyed"); sim_state(n);
}

#include "wk_pup.h"
/* ---- spin_stress: exclusion and progress, including static first use ------- */
#define NSP 2
static pthread_spinlock_t SP[NSP];
static struct { volatile int in, owner, cnt, want; } SS[NSP];
static int spin_cpus; static volatile int sp_go;
typedef struct { int id, iters; } sa;
static void *sp_thr(void *v) {
  sa *a = (sa *)v; while (!sp_go) sim_delay_us(50);
  for (int i = 0; i < a->iters; i++) {
    int k = R(NSP), rc, tr = R(3) == 0;
    rc = tr ? pthread_spin_trylock(&SP[k]) : pthread_spin_lock(&SP[k]);
    if (tr && rc == EBUSY) { sim_stat("try_busy", 1); continue; }
    CK(rc == 0, "lock-result", "%s -> %d", tr ? "trylock" : "lock", rc);
    CK(!SS[k].in, "mutual-exclusion", "thread %d entered while thread %d holds the spin lock (cpus %d)", a->id, SS[k].owner, spin_cpus);
    SS[k].in = 1; SS[k].owner = a->id;
    int c = SS[k].cnt; wk_work(R(4)); SS[k].cnt = c + 1; sim_add(&SS[k].want, 1);
    CK(SS[k].in && SS[k].owner == a->id, "mutual-exclusion", "spin lock changed hands inside the critical section");
    SS[k].in = 0; OK(pthread_spin_unlock(&SP[k]), "unlock"); sim_stat("spin_cs", 1);
    if (R(3) == 0) sim_delay_us(R(100));
  }
  return v;
}
WORKLOAD(spin_stress) {
  pthread_t t[6]; sa a[6]; int n = 2 + R(5); pthread_spinlock_t si = PTHREAD_SPINLOCK_INITIALIZER;
  spin_cpus = R(3) ? 4 : 1; sp_go = 0; memset(SS, 0, sizeof SS);
  for (int i = 0; i < n; i++) { a[i].id = i; a[i].iters = 1 + R(6); wk_spawn(&t[i], sp_thr, &a[i]); }
  /* the number of processors decides how a lock is represented when it is initialised */
  sim_set_cpus(spin_cpus == 1 ? 1 : 15, 15);
  for (int k = 0; k < NSP; k++) if (R(2)) SP[k] = si; else OK(pthread_spin_init(&SP[k], PTHREAD_PROCESS_PRIVATE), "init");
  sp_go = 1;
  for (int i = 0; i < n; i++) wk_join(t[i]);
  for (int k = 0; k < NSP; k++) {
    CK(SS[k].cnt == SS[k].want, "mutual-exclusion", "%d increments under the spin lock, counter %d", SS[k].want, SS[k].cnt);
    OK(pthread_spin_trylock(&SP[k]), "free-at-end"); CK(pthread_spin_trylock(&SP[k]) == EBUSY, "try-held", "trylock of a held spin lock succeeded");
    if (SP[k] != si) { int rc = pthread_spin_destroy(&SP[k]); CK(rc == EBUSY || rc == EINVAL, "destroy-held", "destroying a held spin lock -> %d", rc); }
    OK(pthread_spin_unlock(&SP[k]), "unlock"); OK(pthread_spin_destroy(&SP[k]), "destroy");
    EQ(pthread_spin_lock(&SP[k]), EINVAL, "destroyed"); EQ(pthread_spin_trylock(&SP[k]), EINVAL, "destroyed"); EQ(pthread_spin_unlock(&SP[k]), EINVAL, "destroyed"); EQ(pthread_spin_destroy(&SP[k]), EINVAL, "destroyed"); }
  sim_state(n + 10 * spin_cpus + 100 * SS[0].cnt); sim_set_cpus(15, 15);
}
/* ---- sequential model -------------------------------------------------------- */
static pthread_spinlock_t SM;
static int sp_lock(pup *p) { (void)p; return pthread_spin_lock(&SM); }
static int sp_try(pup *p) { (void)p; return pthread_spin_trylock(&SM); }
static int sp_un(pup *p) { (void)p; return pthread_spin_unlock(&SM); }
static int sp_de(pup *p) { (void)p; return pthread_spin_destroy(&SM); }
WORKLOAD(spin_model) {
  sim_calm(1); int n = 2 + R(2), held = -1, used, mx; pthread_spinlock_t si = PTHREAD_SPINLOCK_INITIALIZER; uint64_t h = 5;
  mx = R(2); pup_start(n); sim_set_cpus(mx ? 1 : 15, 15);
  if (R(10) == 0) { pthread_spinlock_t x = NULL; EQ(pthread_spin_init(&x, PTHREAD_PROCESS_SHARED), ENOSYS, "pshared"); EQ(pthread_spin_init(NULL, 0), EINVAL, "null"); }
  used = R(2); if (used) OK(pthread_spin_init(&SM, 0), "init"); else { SM = si; EQ(pthread_spin_unlock(&SM), EPERM, "unlock-unused"); }
  for (int st = 0, ops = 3 + R(20); st < ops; st++) {
    int i = R(n), op = R(5); pup *p = &PUP[i]; h = (h ^ (op + 8 * i)) * 1099511628211ull;
    if (op == 0 && held < 0) { CK(pup_do(p, sp_lock) && p->rc == 0, "lock", "locking a free spin lock -> %d", p->rc); held = i; used = 1; }
    else if (op == 1 || op == 0) { CK(pup_do(p, sp_try), "trylock", "trylock blocked"); CK(p->rc == (held < 0 ? 0 : EBUSY), "trylock", "trylock -> %d, held by %d", p->rc, held); if (held < 0) held = i; used = 1; }
    else if (op == 2 && held >= 0) { p = &PUP[held]; CK(pup_do(p, sp_un) && p->rc == 0, "unlock", "unlock -> %d", p->rc); held = -1; }
    else if (op == 2) { CK(pup_do(p, sp_un), "unlock", "unlock blocked"); CK(p->rc == 0 || p->rc == EPERM, "unlock", "unlock of a free spin lock -> %d", p->rc); sim_stat("unlock_free", 1); }
    else if (op == 3 && R(3) == 0) { CK(pup_do(p, sp_de), "destroy", "destroy blocked"); if (held >= 0) { CK(p->rc == EBUSY || p->rc == EINVAL, "destroy-held", "destroying a held spin lock -> %d", p->rc); } else { CK(p->rc == 0, "destroy", "destroy -> %d", p->rc); EQ(pthread_spin_lock(&SM), EINVAL, "destroyed"); if (R(2)) SM = si; else OK(pthread_spin_init(&SM, 0), "init"); } }
    else if (op == 4 && held >= 0) { /* a spinning thread gets in once the lock is released */
      int j = (held + 1) % n; pup_go(&PUP[j], sp_lock); for (int q = R(30); q > 0; q--) sim_yield(); if (mx) sim_settle();
      CK(PUP[j].busy, "mutual-exclusion", "second holder let in"); pup_go(&PUP[held], sp_un);
      for (int q = 0; PUP[j].busy || PUP[held].busy; q++) { CK(q < 200000, "progress", "spinning thread never got the released lock"); sim_yield(); }
      CK(PUP[j].rc == 0 && PUP[held].rc == 0, "lock", "lock -> %d unlock -> %d", PUP[j].rc, PUP[held].rc); held = j; sim_stat("handover", 1); }
  }
  (void)used; if (held >= 0) OK(pthread_spin_unlock(&SM), "unlock"); OK(pthread_spin_destroy(&SM), "destroy"); sim_state(h); pup_stop(); sim_set_cpus(15, 15);
}

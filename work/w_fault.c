#include "wk.h"
/* ---- failing memory and system objects: an operation that can not get what it
 * needs reports it, changes nothing, leaks nothing, and works when tried again ---- */
static size_t psz; static pthread_key_t key0; static volatile int ran; static int inraw;
static int nblk(void) { return psz ? sim_live_allocs() - sim_live_allocs_sized(psz) : 0; } /* thread structs are pooled */
static int isres(int e) { return e == EAGAIN || e == ENOMEM || e == ENOSPC; }
static void *thr(void *v) { sim_add(&ran, 1); return v; }
static void *named(void *v) { char b[40]; OK(pthread_getname_np(pthread_self(), b, 40), "name"); CK(strcmp(b, "worker") == 0, "fault-create-name", "creation succeeded but the thread's name is \"%s\"", b); sim_add(&ran, 1); return v; }
static void dtor(void *v) { (void)v; }
enum { F_CREATE, F_CREATE_ATTR, F_CREATE_DET, F_MUTEX, F_MUTEX_ROBUST, F_MUTEX_REC, F_SMUTEX, F_SMUTEX_TRY, F_SMUTEX_TIMED, F_COND, F_SCOND, F_SCOND_SIG, F_RW, F_SRW, F_SRW_W, F_SRW_TRY, F_SRW_TRYW, F_SRW_TIMED, F_SRW_TIMEDW, F_SPIN, F_SPIN1, F_SSPIN, F_SSPIN_TRY, F_SSPIN1, F_BAR, F_SEM, F_KEY, F_KEYD, F_SET, F_ATTR, F_MATTR, F_CATTR, F_RATTR, F_BATTR, F_NAME, F_ANAME, F_NSELF, F_NSPEC, F_NCREATE, F_NMUTEX, F_NOWNED, F_NOWNTRY, F_NROBUST, F_NROBTRY, F_NUNL, F_NSEM, F_NCOND, F_NJOIN, F_NTJOIN, F_NBAR, F_NRW, F_NONCE, F_NCXL, F_NCLEAN, F_NDELAY, F_NSPIN, F_NATTRS, F_N };
static const char *fn[] = { "pthread_create", "pthread_create with attributes", "pthread_create detached", "pthread_mutex_init", "pthread_mutex_init (robust)", "pthread_mutex_init (recursive)", "pthread_mutex_lock of a static mutex", "pthread_mutex_trylock of a static mutex", "pthread_mutex_timedlock of a static mutex", "pthread_cond_init", "pthread_cond_timedwait of a static condition variable", "pthread_cond_signal of a static condition variable", "pthread_rwlock_init", "pthread_rwlock_rdlock of a static lock", "pthread_rwlock_wrlock of a static lock", "pthread_rwlock_tryrdlock of a static lock", "pthread_rwlock_trywrlock of a static lock", "pthread_rwlock_timedrdlock of a static lock", "pthread_rwlock_timedwrlock of a static lock", "pthread_spin_init", "pthread_spin_init (one CPU)", "pthread_spin_lock of a static lock", "pthread_spin_trylock of a static lock", "pthread_spin_lock of a static lock (one CPU)", "pthread_barrier_init", "sem_init", "pthread_key_create", "pthread_key_create with destructor", "pthread_setspecific", "pthread_attr_init", "pthread_mutexattr_init", "pthread_condattr_init", "pthread_rwlockattr_init", "pthread_barrierattr_init", "pthread_setname_np", "pthread_attr_setname_np", "pthread_self of a system thread", "pthread_setspecific of a system thread", "pthread_create by a system thread", "mutex use by a system thread", "owner-tracking mutex lock by a system thread", "owner-tracking mutex trylock by a system thread", "robust mutex use by a system thread", "robust mutex trylock by a system thread", "unlock of a mutex not held by a system thread", "sem_wait by a system thread", "pthread_cond_timedwait by a system thread", "pthread_join by a system thread", "pthread_timedjoin_np by a system thread", "pthread_barrier_wait by a system thread", "rwlock use by a system thread", "pthread_once by a system thread", "cancel state and type of a system thread", "cleanup handler of a system thread", "pthread_delay_np of a system thread", "static spin lock used by a system thread", "pthread_cancel and pthread_kill by a system thread" };
static int arm_n, arm_c, arm_m, injected, ikind; static int ARM(void) { sim_fault_arm(arm_m, arm_n, arm_c); return 0; }
static int DIS(int rc) { injected = sim_fault_disarm(); ikind = sim_fault_kind(); return rc; }
#define F(x) (ARM(), DIS(x))
static void mx_use(pthread_mutex_t *m) { OK(pthread_mutex_lock(m), "fault-use"); OK(pthread_mutex_unlock(m), "fault-use"); OK(pthread_mutex_destroy(m), "fault-use"); }
static void rw_use(pthread_rwlock_t *r) { OK(pthread_rwlock_rdlock(r), "fault-use"); OK(pthread_rwlock_unlock(r), "fault-use"); OK(pthread_rwlock_wrlock(r), "fault-use"); OK(pthread_rwlock_unlock(r), "fault-use"); OK(pthread_rwlock_destroy(r), "fault-use"); }
static void cv_use(pthread_cond_t *c) { pthread_mutex_t m; struct timespec ts; OK(pthread_mutex_init(&m, NULL), "fault-use"); OK(pthread_mutex_lock(&m), "fault-use"); wk_abs(&ts, R(50)); EQ(pthread_cond_timedwait(c, &m, &ts), ETIMEDOUT, "fault-use"); OK(pthread_mutex_unlock(&m), "fault-use"); OK(pthread_mutex_destroy(&m), "fault-use"); OK(pthread_cond_destroy(c), "fault-use"); }
static void sp_use(pthread_spinlock_t *s) { OK(pthread_spin_lock(s), "fault-use"); OK(pthread_spin_unlock(s), "fault-use"); OK(pthread_spin_destroy(s), "fault-use"); }
/* objects with static storage that survive a failed attempt */
static pthread_mutex_t sm; static pthread_cond_t sc; static pthread_rwlock_t sr; static pthread_spinlock_t ss; static int nraw; static pthread_mutex_t rm; static pthread_mutex_t om; static sem_t rs; static pthread_cond_t rc_; static pthread_mutex_t cm_;
static void fresh(int k) { pthread_mutex_t a = PTHREAD_MUTEX_INITIALIZER, b = PTHREAD_RECURSIVE_MUTEX_INITIALIZER_NP, c = PTHREAD_ERRORCHECK_MUTEX_INITIALIZER_NP; pthread_cond_t d = PTHREAD_COND_INITIALIZER; pthread_rwlock_t e = PTHREAD_RWLOCK_INITIALIZER; pthread_spinlock_t f = PTHREAD_SPINLOCK_INITIALIZER; int r = R(3); sm = r == 0 ? a : r == 1 ? b : c; sc = d; sr = e; ss = f; (void)k; }
static int rawk, rawres;
static pthread_t pre; static int havepre; static int prev_; static int non; static void nonce(void) { non++; } static void ncl(void *v) { (void)v; non += 100; } static volatile int nstop; static void *nwt(void *v) { while (!nstop) sim_delay_us(100); struct timespec iv = { 0, 100000 }; pthread_testcancel(); pthread_delay_np(&iv); return v; }
/* one attempt: the error (0: it worked, was used and disposed of) */
static int attempt(int k) {
  int rc, v = 0; struct timespec ts; wk_abs(&ts, 200); pthread_t t, nilt; memset(&nilt, 0, sizeof nilt);
  switch (k) {
  case F_CREATE: case F_CREATE_DET: case F_NCREATE: { int r0 = ran; pthread_attr_t a; if (k == F_CREATE_DET) { OK(pthread_attr_init(&a), "attr"); OK(pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED), "attr"); } rc = F(pthread_create(&t, k == F_CREATE_DET ? &a : NULL, thr, &v)); if (!rc && k != F_CREATE_DET) { void *r; OK(pthread_join(t, &r), "fault-use"); CK(r == &v, "fault-use", "join value"); } if (k == F_CREATE_DET) OK(pthread_attr_destroy(&a), "attr"); if (!inraw) sim_quiesce(); CK(ran == r0 + !rc, "fault-run", "pthread_create -> %d, the thread ran %d times", rc, ran - r0); return rc; }
  case F_CREATE_ATTR: { pthread_attr_t a; struct sched_param sp; cpu_set_t cs; int r0 = ran; OK(pthread_attr_init(&a), "attr"); OK(pthread_attr_setname_np(&a, "worker"), "attr"); sp.sched_priority = 1; OK(pthread_attr_setschedparam(&a, &sp), "attr"); CPU_ZERO(&cs); CPU_SET(0, &cs); OK(pthread_attr_setaffinity_np(&a, sizeof cs, &cs), "attr"); rc = F(pthread_create(&t, &a, named, &v)); OK(pthread_attr_destroy(&a), "attr"); if (!rc) wk_join(t); CK(ran == r0 + !rc, "fault-run", "pthread_create -> %d, the thread ran %d times", rc, ran - r0); return rc; }
  case F_MUTEX: { pthread_mutex_t m; rc = F(pthread_mutex_init(&m, NULL)); if (!rc) mx_use(&m); return rc; }
  case F_MUTEX_ROBUST: case F_MUTEX_REC: { pthread_mutex_t m; pthread_mutexattr_t a; OK(pthread_mutexattr_init(&a), "attr"); if (k == F_MUTEX_ROBUST) OK(pthread_mutexattr_setrobust(&a, PTHREAD_MUTEX_ROBUST), "attr"); OK(pthread_mutexattr_settype(&a, R(2) ? PTHREAD_MUTEX_RECURSIVE : PTHREAD_MUTEX_ERRORCHECK), "attr"); rc = F(pthread_mutex_init(&m, &a)); OK(pthread_mutexattr_destroy(&a), "attr"); if (!rc) mx_use(&m); return rc; }
  case F_SMUTEX: rc = F(pthread_mutex_lock(&sm)); if (!rc) { OK(pthread_mutex_unlock(&sm), "fault-use"); mx_use(&sm); } return rc;
  case F_SMUTEX_TRY: rc = F(pthread_mutex_trylock(&sm)); if (!rc) { OK(pthread_mutex_unlock(&sm), "fault-use"); mx_use(&sm); } return rc;
  case F_SMUTEX_TIMED: rc = F(pthread_mutex_timedlock(&sm, &ts)); if (!rc) { OK(pthread_mutex_unlock(&sm), "fault-use"); mx_use(&sm); } return rc;
  case F_COND: { pthread_cond_t c; rc = F(pthread_cond_init(&c, NULL)); if (!rc) cv_use(&c); return rc; }
  case F_SCOND: { pthread_mutex_t m; OK(pthread_mutex_init(&m, NULL), "init"); OK(pthread_mutex_lock(&m), "lock"); rc = F(pthread_cond_timedwait(&sc, &m, &ts)); OK(pthread_mutex_unlock(&m), "fault-mutex"); OK(pthread_mutex_destroy(&m), "fault-mutex"); if (rc == ETIMEDOUT) { cv_use(&sc); return 0; } CK(rc != 0, "fault-wait", "pthread_cond_timedwait returned 0 without a signal"); return rc; }
  case F_SCOND_SIG: rc = F(R(2) ? pthread_cond_signal(&sc) : pthread_cond_broadcast(&sc)); if (!rc) cv_use(&sc); return rc;
  case F_RW: { pthread_rwlock_t r; rc = F(pthread_rwlock_init(&r, NULL)); if (!rc) rw_use(&r); return rc; }
  case F_SRW: rc = F(pthread_rwlock_rdlock(&sr)); goto rw; case F_SRW_W: rc = F(pthread_rwlock_wrlock(&sr)); goto rw; case F_SRW_TRY: rc = F(pthread_rwlock_tryrdlock(&sr)); goto rw; case F_SRW_TRYW: rc = F(pthread_rwlock_trywrlock(&sr)); goto rw; case F_SRW_TIMED: rc = F(pthread_rwlock_timedrdlock(&sr, &ts)); goto rw; case F_SRW_TIMEDW: rc = F(pthread_rwlock_timedwrlock(&sr, &ts)); goto rw;
  rw: if (!rc) { OK(pthread_rwlock_unlock(&sr), "fault-use"); rw_use(&sr); } return rc;
  case F_SPIN: case F_SPIN1: { pthread_spinlock_t s; if (k == F_SPIN1) sim_set_cpus(1, 1); rc = F(pthread_spin_init(&s, PTHREAD_PROCESS_PRIVATE)); if (!rc) sp_use(&s); if (k == F_SPIN1) sim_set_cpus(0xff, 0xff); return rc; }
  case F_SSPIN: case F_SSPIN1: if (k == F_SSPIN1) sim_set_cpus(1, 1); rc = F(pthread_spin_lock(&ss)); if (!rc) { OK(pthread_spin_unlock(&ss), "fault-use"); sp_use(&ss); } sim_set_cpus(0xff, 0xff); return rc;
  case F_SSPIN_TRY: rc = F(pthread_spin_trylock(&ss)); if (!rc) { OK(pthread_spin_unlock(&ss), "fault-use"); sp_use(&ss); } return rc;
  case F_BAR: { pthread_barrier_t b; rc = F(pthread_barrier_init(&b, NULL, 1)); if (!rc) { EQ(pthread_barrier_wait(&b), PTHREAD_BARRIER_SERIAL_THREAD, "fault-use"); OK(pthread_barrier_destroy(&b), "fault-use"); } return rc; }
  case F_SEM: { sem_t s; rc = F(sem_init(&s, 0, 1)); if (rc) { CK(rc == -1, "fault-result", "sem_init -> %d", rc); return errno; } OK(sem_wait(&s), "fault-use"); OK(sem_destroy(&s), "fault-use"); return 0; }
  case F_KEY: case F_KEYD: { pthread_key_t q; rc = F(pthread_key_create(&q, k == F_KEYD ? dtor : NULL)); if (!rc) { OK(pthread_setspecific(q, &v), "fault-use"); CK(pthread_getspecific(q) == &v, "fault-use", "value"); OK(pthread_key_delete(q), "fault-use"); } return rc; }
  case F_SET: { pthread_key_t q; OK(pthread_key_create(&q, dtor), "init"); int n = 0; rc = F(pthread_setspecific(q, &v)); CK(pthread_getspecific(q) == (rc ? NULL : &v), "fault-value", "pthread_setspecific -> %d, value %p", rc, pthread_getspecific(q)); n = injected; if (rc) { OK(pthread_setspecific(q, &v), "fault-retry"); CK(pthread_getspecific(q) == &v, "fault-retry", "value"); } OK(pthread_key_delete(q), "fault-use"); injected = n; return rc; }
  case F_ATTR: { pthread_attr_t a; rc = F(pthread_attr_init(&a)); if (!rc) OK(pthread_attr_destroy(&a), "fault-use"); return rc; }
  case F_MATTR: { pthread_mutexattr_t a; rc = F(pthread_mutexattr_init(&a)); if (!rc) OK(pthread_mutexattr_destroy(&a), "fault-use"); return rc; }
  case F_CATTR: { pthread_condattr_t a; rc = F(pthread_condattr_init(&a)); if (!rc) OK(pthread_condattr_destroy(&a), "fault-use"); return rc; }
  case F_RATTR: { pthread_rwlockattr_t a; rc = F(pthread_rwlockattr_init(&a)); if (!rc) OK(pthread_rwlockattr_destroy(&a), "fault-use"); return rc; }
  case F_BATTR: { pthread_barrierattr_t a; rc = F(pthread_barrierattr_init(&a)); if (!rc) OK(pthread_barrierattr_destroy(&a), "fault-use"); return rc; }
  case F_NAME: { char b[40], n[20]; snprintf(n, sizeof n, "n%d", R(1000)); OK(pthread_setname_np(pthread_self(), "old"), "init"); rc = F(pthread_setname_np(pthread_self(), n)); OK(pthread_getname_np(pthread_self(), b, 40), "name"); CK(strcmp(b, rc ? "old" : n) == 0, "fault-name", "pthread_setname_np -> %d, name \"%s\"", rc, b); return rc; }
  case F_ANAME: { pthread_attr_t a; char b[40]; OK(pthread_attr_init(&a), "init"); OK(pthread_attr_setname_np(&a, "old"), "init"); rc = F(pthread_attr_setname_np(&a, "new")); OK(pthread_attr_getname_np(&a, b, 40), "name"); CK(strcmp(b, rc ? "old" : "new") == 0, "fault-name", "pthread_attr_setname_np -> %d, name \"%s\"", rc, b); OK(pthread_attr_destroy(&a), "destroy"); return rc; }
  /* in a thread unknown to the library: its identity may be what can't be had */
  case F_NSELF: ARM(); t = pthread_self(); DIS(0); if (t.p == NULL) { CK(injected, "fault-self", "pthread_self gave a null id"); return ENOMEM; } CK(pthread_equal(t, pthread_self()), "fault-self", "pthread_self is not stable"); OK(pthread_kill(t, 0), "fault-self"); return 0;
  case F_NSPEC: rc = F(pthread_setspecific(key0, &v)); CK(pthread_getspecific(key0) == (rc ? NULL : &v), "fault-value", "pthread_setspecific -> %d, value %p", rc, pthread_getspecific(key0)); if (!rc) OK(pthread_setspecific(key0, NULL), "fault-use"); return rc;
  case F_NMUTEX: rc = F(pthread_mutex_lock(&cm_)); if (rc) return rc; OK(pthread_mutex_unlock(&cm_), "fault-use"); return 0;
  case F_NROBUST: rc = F(pthread_mutex_lock(&rm)); if (rc) return rc; OK(pthread_mutex_unlock(&rm), "fault-use"); return 0;
  case F_NOWNED: rc = F(R(2) ? pthread_mutex_lock(&om) : pthread_mutex_timedlock(&om, &ts)); if (rc) return rc; OK(pthread_mutex_unlock(&om), "fault-use"); return 0;
  case F_NJOIN: case F_NTJOIN: { void *r = NULL; int r0 = ran, how = R(2); struct timespec far; wk_abs(&far, 100000000); void *val = havepre ? (void *)&prev_ : &v; if (havepre) { t = pre; havepre = 0; } else { wk_spawn(&t, thr, &v); while (ran == r0) sim_delay_us(50); } sim_delay_us(3000);
    do { ARM(); rc = k == F_NJOIN ? pthread_join(t, &r) : how ? pthread_timedjoin_np(t, &r, &far) : pthread_tryjoin_np(t, &r); DIS(0); if (rc == EBUSY || rc == ETIMEDOUT) sim_delay_us(100); } while (rc == EBUSY || rc == ETIMEDOUT);
    if (rc == 0) CK(r == val, "fault-use", "joined %p", r); else { CK(injected, "fault-free", "join -> %d", rc); CK(r == NULL, "fault-value", "a failed join (%d) gave a value", rc); int rc2; while ((rc2 = pthread_tryjoin_np(t, &r)) == EBUSY) sim_delay_us(100); CK(rc2 == 0 && r == val, "fault-join", "after a join that failed (%d) for lack of a resource, joining -> %d value %p", rc, rc2, r); } return rc; }
  case F_NBAR: { pthread_barrier_t b; OK(pthread_barrier_init(&b, NULL, 1), "init"); rc = F(pthread_barrier_wait(&b)); CK(rc == PTHREAD_BARRIER_SERIAL_THREAD || rc == 0 || injected, "fault-use", "-> %d", rc); if (rc == 0 || rc == PTHREAD_BARRIER_SERIAL_THREAD) EQ(rc, PTHREAD_BARRIER_SERIAL_THREAD, "fault-use"); rc = rc == PTHREAD_BARRIER_SERIAL_THREAD ? 0 : rc; EQ(pthread_barrier_wait(&b), PTHREAD_BARRIER_SERIAL_THREAD, "fault-use"); OK(pthread_barrier_destroy(&b), "fault-use"); return rc; }
  case F_NRW: { pthread_rwlock_t w; OK(pthread_rwlock_init(&w, NULL), "init"); int how = R(6); ARM(); rc = how == 0 ? pthread_rwlock_rdlock(&w) : how == 1 ? pthread_rwlock_wrlock(&w) : how == 2 ? pthread_rwlock_tryrdlock(&w) : how == 3 ? pthread_rwlock_trywrlock(&w) : how == 4 ? pthread_rwlock_timedrdlock(&w, &ts) : pthread_rwlock_timedwrlock(&w, &ts); DIS(0); if (!rc) OK(pthread_rwlock_unlock(&w), "fault-use"); rw_use(&w); return rc; }
  case F_NONCE: { static const pthread_once_t o0 = PTHREAD_ONCE_INIT; pthread_once_t o = o0; non = 0; rc = F(pthread_once(&o, nonce)); CK(non == (rc == 0), "fault-once", "pthread_once -> %d, %d runs", rc, non); if (rc) OK(pthread_once(&o, nonce), "fault-retry"); CK(non == 1, "fault-once", "%d runs", non); return rc; }
  case F_NCXL: { int o1 = -1, o2 = -1, o3 = -1; ARM(); rc = pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &o1); if (!rc) rc = pthread_setcanceltype(PTHREAD_CANCEL_ASYNCHRONOUS, &o2); pthread_testcancel(); DIS(0); if (o1 != -1 && !rc) CK(o1 == PTHREAD_CANCEL_ENABLE && o2 == PTHREAD_CANCEL_DEFERRED, "fault-value", "a new thread's cancel state %d type %d", o1, o2);
    OK(pthread_setcancelstate(PTHREAD_CANCEL_ENABLE, &o3), "fault-retry"); CK(rc || o3 == PTHREAD_CANCEL_DISABLE, "fault-value", "cancel state %d", o3); OK(pthread_setcanceltype(PTHREAD_CANCEL_DEFERRED, NULL), "fault-retry"); return rc; }
  case F_NCLEAN: non = 0; ARM(); pthread_cleanup_push(ncl, &v); DIS(0); non++; ARM(); pthread_cleanup_pop(1); injected += DIS(0) * 0; CK(non == 101, "fault-cleanup", "the handler ran %d times", (non - 1) / 100); return 0;
  case F_NDELAY: { struct timespec iv = { 0, 100000 * (long)R(30) }; rc = F(pthread_delay_np(&iv)); return rc; }
  case F_NSPIN: rc = F(R(2) ? pthread_spin_lock(&ss) : pthread_spin_trylock(&ss)); if (!rc) { OK(pthread_spin_unlock(&ss), "fault-use"); sp_use(&ss); } return rc;
  case F_NATTRS: { void *r; void *val = havepre ? (void *)&prev_ : &v; if (havepre) { t = pre; havepre = 0; } else { nstop = 0; wk_spawn(&t, nwt, &v); } int how = R(3); rc = F(how == 0 ? pthread_kill(t, 0) : how == 1 ? pthread_cancel(t) : pthread_detach(t)); nstop = 1; if (how == 2 && !rc) { sim_delay_us(5000); return 0; } r = wk_join(t); CK(r == (how == 1 && !rc ? PTHREAD_CANCELED : val), "fault-use", "how %d -> %d, value %p", how, rc, r); return rc; }
  case F_NOWNTRY: rc = F(pthread_mutex_trylock(&om)); if (rc) return rc; OK(pthread_mutex_unlock(&om), "fault-use"); return 0;
  case F_NROBTRY: rc = F(R(2) ? pthread_mutex_trylock(&rm) : pthread_mutex_timedlock(&rm, &ts)); if (rc) return rc; OK(pthread_mutex_unlock(&rm), "fault-use"); return 0;
  case F_NUNL: rc = F(pthread_mutex_unlock(R(2) ? &rm : &om)); CK(rc == EPERM, "fault-unlock", "unlocking a mutex the thread does not hold -> %d", rc); return 0;
  case F_NSEM: rc = F(sem_wait(&rs)); if (rc) { CK(rc == -1, "fault-result", "sem_wait -> %d", rc); return errno; } OK(sem_post(&rs), "fault-use"); return 0;
  case F_NCOND: OK(pthread_mutex_lock(&cm_), "lock"); rc = F(pthread_cond_timedwait(&rc_, &cm_, &ts)); OK(pthread_mutex_unlock(&cm_), "fault-mutex"); return rc == ETIMEDOUT ? 0 : rc; }
  return 0;
}
static DWORD WINAPI rawthr(void *v) { int inj, ik; inraw = 1; (void)v; sim_label(fn[rawk]); rawres = attempt(rawk); inj = injected; ik = ikind; if (rawres && rawk != F_NMUTEX) { arm_m = 0; int rc = attempt(rawk); CK(rc == 0, "fault-retry", "%s failed for lack of a resource, and again (%d) when there was enough", fn[rawk], rc); } injected = inj; ikind = ik; inraw = 0; pthread_win32_thread_detach_np(); return 0; }
static int run(int k) { if (k < F_NSELF) return attempt(k); rawk = k; if (k == F_NJOIN || k == F_NTJOIN) { int r0 = ran; havepre = 1; wk_spawn(&pre, thr, &prev_); while (ran == r0) sim_delay_us(50); } else if (k == F_NATTRS) { nstop = 0; havepre = 1; wk_spawn(&pre, nwt, &prev_); } HANDLE h = CreateThread(NULL, 0, (LPTHREAD_START_ROUTINE)(void *)rawthr, NULL, 0, NULL); CK(h != NULL, "setup", "CreateThread"); WaitForSingleObject(h, INFINITE); CloseHandle(h); return rawres; }
WORKLOAD(fault_enum) {
  psz = sim_block_size(pthread_self().p); int s0 = psz ? sim_live_allocs_sized(psz) : 0;
  OK(pthread_key_create(&key0, dtor), "init"); OK(sem_init(&rs, 0, 1), "init"); OK(pthread_cond_init(&rc_, NULL), "init"); OK(pthread_mutex_init(&cm_, NULL), "init"); pthread_mutexattr_t a; OK(pthread_mutexattr_init(&a), "init"); OK(pthread_mutexattr_setrobust(&a, PTHREAD_MUTEX_ROBUST), "init"); OK(pthread_mutex_init(&rm, &a), "init"); OK(pthread_mutexattr_setrobust(&a, PTHREAD_MUTEX_STALLED), "init"); OK(pthread_mutexattr_settype(&a, R(2) ? PTHREAD_MUTEX_RECURSIVE : PTHREAD_MUTEX_ERRORCHECK), "init"); OK(pthread_mutex_init(&om, &a), "init"); OK(pthread_mutexattr_destroy(&a), "init");
  int k = ep % F_N; sim_label(fn[k]); OK(pthread_setname_np(pthread_self(), "old"), "init"); 
  /* raise the demand for thread structs above what is pooled, sometimes */
  pthread_t hold[3]; int nh = 0; (void)hold; (void)nh;
  for (int c = 0; c < 3; c++) for (arm_n = 1; arm_n < 40; arm_n++) {
    arm_c = c == 0 ? 1 : c == 1 ? 2 : 1000; int mask = arm_m = c == 2 && R(2) ? 1 << R(7) : SIM_F_ALL; fresh(k);
    int b0 = nblk(), h0 = sim_live_handles(), t0 = sim_live_tls(); int rc = run(k), inj = injected, kind = ikind; arm_m = mask;
    sim_quiesce(); sim_stat(inj ? rc ? "fault_refused" : "fault_coped" : "fault_none", 1); sim_state(k * 4096 + arm_n * 64 + rc * 2 + (inj != 0));
    if (!inj) CK(rc == 0, "fault-free", "%s -> %d without a failing resource", fn[k], rc);
    CK(rc == 0 || isres(rc) || (k >= F_NSELF && (rc == ENOENT || (k == F_NCXL && rc == EINVAL))), "fault-result", "%s, when resource %d of kind %d failed, -> %d", fn[k], arm_n, kind, rc);
    if (nblk() != b0 || sim_live_handles() != h0 || sim_live_tls() != t0) { sim_dump_live(); sim_violation("fault-leak", "%s -> %d (failing resource %d of kind %d): heap blocks %d -> %d, handles %d -> %d, TLS slots %d -> %d", fn[k], rc, arm_n, kind, b0, nblk(), h0, sim_live_handles(), t0, sim_live_tls()); }
    if (rc && k < F_NSELF) { arm_m = 0; rc = run(k); CK(rc == 0, "fault-retry", "%s failed for lack of a resource, and again (%d) when there was enough", fn[k], rc); }
    if (!inj) break; }
  if (psz) CK(sim_live_allocs_sized(psz) <= s0 + 4, "fault-leak", "%d thread structures before, %d after failures of %s", s0, sim_live_allocs_sized(psz), fn[k]);
  OK(pthread_mutex_destroy(&om), "destroy"); OK(pthread_mutex_destroy(&rm), "destroy"); OK(pthread_mutex_destroy(&cm_), "destroy"); OK(pthread_cond_destroy(&rc_), "destroy"); OK(sem_destroy(&rs), "destroy"); OK(pthread_key_delete(key0), "destroy");
}
/* the process can't attach for lack of resources: refused, nothing kept, and it works later */
WORKLOAD(fault_attach) {
  for (int n = 1; n < 12; n++) { int c = 1 + R(3), m = R(3) ? SIM_F_ALL : R(2) ? SIM_F_TLS : SIM_F_MALLOC; sim_fault_arm(m, n, c); int ok = pthread_win32_process_attach_np(); int inj = sim_fault_disarm();
    if (!ok) { CK(inj, "fault-free", "process attach failed"); if (sim_live_allocs() || sim_live_tls() || sim_live_handles() > 0) { sim_dump_live(); sim_violation("fault-leak", "after a failed process attach %d heap blocks, %d TLS slots, %d handles are left", sim_live_allocs(), sim_live_tls(), sim_live_handles()); } sim_stat("attach_refused", 1); ok = pthread_win32_process_attach_np(); CK(ok, "fault-retry", "process attach failed again"); }
    pthread_t t, me = pthread_self(); CK(me.p != NULL && pthread_equal(me, pthread_self()), "fault-self", "no identity after attaching"); wk_spawn(&t, thr, &t); CK(wk_join(t) == &t, "fault-use", "join value"); sim_quiesce(); pthread_win32_process_detach_np(); sim_stat("attached", 1);
    if (!inj) break; }
  sim_state(1);
}
/* contention while system objects can't be had: everything exists already, but the
 * library makes events for queued threads as it goes; nothing may break */
static sem_t xs, xc; static pthread_mutex_t xm; static pthread_cond_t xv; static pthread_rwlock_t xr; static pthread_barrier_t xb; static pthread_key_t xk[3]; static pthread_once_t xo[4]; static const pthread_once_t xo0 = PTHREAD_ONCE_INIT; static volatile int xin, xrd, xwr, xposted, xgot, xonce, xwait, xtok, xtaken, xstop; static int xk_deleted;
static void xinit(void) { xonce++; }
static void *xthr(void *v) { int me = (int)(long long)v, rc; struct timespec ts; sim_label("starved");
  for (int i = 0, n = 4 + R(12); i < n; i++) switch (R(8)) {
    case 0: rc = sem_wait(&xs); CK(rc == 0, "fault-wait", "sem_wait -> %d errno %d", rc, errno); CK(sim_add(&xin, 1) == 1, "fault-excl", "two threads hold a binary semaphore"); wk_work(R(3)); sim_add(&xin, -1); OK(sem_post(&xs), "fault-post"); break;
    case 1: rc = pthread_mutex_lock(&xm); CK(rc == 0, "fault-lock", "-> %d", rc); xtok++; OK(R(2) ? pthread_cond_signal(&xv) : pthread_cond_broadcast(&xv), "fault-signal"); OK(pthread_mutex_unlock(&xm), "fault-lock"); break;
    case 2: OK(pthread_mutex_lock(&xm), "fault-lock"); wk_abs(&ts, R(500)); while (xtok == 0) { rc = pthread_cond_timedwait(&xv, &xm, &ts); CK(rc == 0 || rc == ETIMEDOUT, "fault-wait", "pthread_cond_timedwait -> %d", rc); if (rc) break; } if (xtok) { xtok--; xtaken++; } OK(pthread_mutex_unlock(&xm), "fault-lock"); break;
    case 3: OK(pthread_rwlock_rdlock(&xr), "fault-lock"); sim_add(&xrd, 1); CK(xwr == 0, "fault-excl", "reader beside a writer"); wk_work(R(3)); CK(xwr == 0, "fault-excl", "reader beside a writer"); sim_add(&xrd, -1); OK(pthread_rwlock_unlock(&xr), "fault-lock"); break;
    case 4: OK(pthread_rwlock_wrlock(&xr), "fault-lock"); CK(sim_add(&xwr, 1) == 1 && xrd == 0, "fault-excl", "writer beside another holder"); wk_work(R(3)); sim_add(&xwr, -1); OK(pthread_rwlock_unlock(&xr), "fault-lock"); break;
    case 5: OK(pthread_once(&xo[R(4)], xinit), "fault-once"); break;
    case 6: { int k = R(3); OK(pthread_setspecific(xk[k], (void *)(long long)(me * 8 + k + 1)), "fault-set"); CK(pthread_getspecific(xk[k]) == (void *)(long long)(me * 8 + k + 1), "fault-value", "key value"); break; }
    case 7: wk_abs(&ts, R(300)); rc = sem_timedwait(&xc, &ts); CK(rc == 0 || errno == ETIMEDOUT, "fault-wait", "sem_timedwait -> %d errno %d", rc, errno); if (!rc) sim_add(&xgot, 1); if (R(2)) { sim_add(&xposted, 1); OK(sem_post(&xc), "fault-post"); } break; }
  rc = pthread_barrier_wait(&xb); CK(rc == 0 || rc == PTHREAD_BARRIER_SERIAL_THREAD, "fault-barrier", "-> %d", rc); return v; }
static void xdt(void *v) { CK(v != NULL, "dtor", "null"); sim_yield(); }
WORKLOAD(fault_contended) {
  pthread_t t[5]; int n = 2 + R(4), s; for (int i = 0; i < 4; i++) xo[i] = xo0; xin = xrd = xwr = xposted = xgot = xonce = xtok = xtaken = 0;
  OK(sem_init(&xs, 0, 1), "init"); OK(sem_init(&xc, 0, 0), "init"); OK(pthread_mutex_init(&xm, NULL), "init"); OK(pthread_cond_init(&xv, NULL), "init"); OK(pthread_rwlock_init(&xr, NULL), "init"); OK(pthread_barrier_init(&xb, NULL, n), "init"); for (int i = 0; i < 3; i++) OK(pthread_key_create(&xk[i], xdt), "init");
  pthread_self(); int h0 = sim_live_handles();
  for (int i = 0; i < n; i++) wk_spawn(&t[i], xthr, (void *)(long long)i);
  sim_fault_arm(SIM_F_EVENT, 1 + R(6), R(3) ? 100000 : 1 + R(5));
  for (int i = 0; i < n; i++) CK(wk_join(t[i]) == (void *)(long long)i, "fault-join", "value");
  s = sim_fault_disarm(); sim_quiesce(); sim_stat("starved_events", s); CK(sim_live_handles() <= h0, "fault-leak", "%d handles before, %d after", h0, sim_live_handles());
  OK(sem_getvalue(&xc, &s), "value"); CK(s == xposted - xgot, "fault-count", "semaphore value %d after %d posts and %d waits", s, xposted, xgot); OK(sem_getvalue(&xs, &s), "value"); CK(s == 1, "fault-count", "binary semaphore at %d", s); CK(xonce <= 4, "fault-once", "%d runs", xonce);
  for (int i = 0; i < 3; i++) OK(pthread_key_delete(xk[i]), "destroy"); OK(pthread_barrier_destroy(&xb), "destroy"); OK(pthread_rwlock_destroy(&xr), "destroy"); OK(pthread_cond_destroy(&xv), "destroy"); OK(pthread_mutex_destroy(&xm), "destroy"); OK(sem_destroy(&xc), "destroy"); OK(sem_destroy(&xs), "destroy"); sim_state(xgot * 16 + n);
}

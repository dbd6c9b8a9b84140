#include "wk.h"
/* ---- Win32 threads that use the library (implicit POSIX threads) ------------ */
enum { E_RETURN, E_EXITTHREAD, E_PEXIT, E_CANCEL, E_ASYNC, E_PURE, E_N };
enum { C_TEST, C_SEM, C_COND, C_DELAY, C_JOIN, C_RW, C_KINDS };
#define MAXI 6
typedef struct { int id, route, cp, posix, ops, code, simid; HANDLE h; pthread_t self; unsigned long long uniq; volatile int selfset, entered, cleaned, ended, dtor[2], tok[2][64], ntok, incv, holds, cur[2]; } im;
static im I[MAXI]; static int ni; static pthread_key_t ik[2]; static pthread_mutex_t iml, icm, irob; static pthread_cond_t icv; static sem_t isem; static pthread_rwlock_t irw; static pthread_once_t ionce; static volatile int oncecnt, inm, robin, shared, robdead, wait_n; static pthread_t never; static volatile int stop_never;
static im *whoami(void) { for (int i = 0; i < ni; i++) if (I[i].simid == sim_self()) return &I[i]; sim_violation("tsd-thread", "destructor in a foreign thread"); }
static void idt(int k, void *v) { im *a = whoami(); int t = (int)(intptr_t)v; CK(t / 1000 == a->id + 1 && t / 500 % 2 == k && t % 500 == a->cur[k], "dtor-value", "destructor of key %d in thread %d got value %d", k, a->id, t); CK(!a->tok[k][t % 500], "dtor-once", "destructor called twice"); a->tok[k][t % 500] = 1; a->cur[k] = 0; a->dtor[k]++; sim_stat("implicit_destroyed", 1); }
static void PTW32_CDECL id0(void *v) { idt(0, v); } static void PTW32_CDECL id1(void *v) { idt(1, v); }
static void PTW32_CDECL iclean(void *v) { im *a = (im *)v; CK(!a->cleaned, "cleanup-once", "cleanup handler called twice"); a->cleaned = 1; if (a->incv) { /* cancelled in the wait: the mutex must have been taken again */ int rc = pthread_mutex_unlock(&icm); CK(rc == 0, "cond-cancel-mutex", "mutex not held after a cancelled wait in an implicit thread (unlock -> %d)", rc); a->incv = 0; } }
static void ionce_fn(void) { sim_add(&oncecnt, 1); sim_user_point(); }
static void check_self(im *a) {
  pthread_t t = pthread_self(); CK(t.p != NULL, "self", "no id"); unsigned long long u = (unsigned long long)pthread_getunique_np(t);
  if (!a->selfset) { for (int i = 0; i < ni; i++) if (I[i].selfset) { if (!I[i].ended) CK(!pthread_equal(I[i].self, t), "unique-id", "threads %d and %d have the same id", a->id, i); CK(!(I[i].self.p == t.p && I[i].self.x == t.x), "unique-id", "thread %d got the id of the finished thread %d", a->id, i); CK(u != I[i].uniq, "unique-number", "threads %d and %d have the same number", a->id, i); } a->self = t; a->uniq = u; a->selfset = 1; sim_stat("implicit_ids", 1); }
  CK(pthread_equal(t, a->self) && u == a->uniq, "stable-id", "thread %d changed its id", a->id);
  CK(pthread_kill(t, 0) == 0, "live-id", "own id refused"); }
static void iop(im *a) {
  int rc; struct timespec ts;
  switch (R(9)) {
  case 0: check_self(a); break;
  case 1: { int k = R(2); void *v = pthread_getspecific(ik[k]); CK((int)(intptr_t)v == (a->cur[k] ? (a->id + 1) * 1000 + k * 500 + a->cur[k] : 0), "private-value", "implicit thread %d key %d reads %d", a->id, k, (int)(intptr_t)v); if (a->ntok < 60) { a->cur[k] = ++a->ntok; OK(pthread_setspecific(ik[k], (void *)(intptr_t)((a->id + 1) * 1000 + k * 500 + a->cur[k])), "setspecific"); } break; }
  case 2: OK(pthread_mutex_lock(&iml), "lock"); CK(!inm, "mutual-exclusion", "mutex shared"); inm = 1; wk_work(R(3)); inm = 0; OK(pthread_mutex_unlock(&iml), "unlock"); break;
  case 3: rc = pthread_mutex_trylock(&iml); CK(rc == 0 || rc == EBUSY, "trylock", "-> %d", rc); if (!rc) { CK(!inm, "mutual-exclusion", "mutex shared"); OK(pthread_mutex_unlock(&iml), "unlock"); } break;
  case 4: OK(sem_post(&isem), "post"); wk_abs(&ts, R(2000)); if (sem_timedwait(&isem, &ts)) CK(errno == ETIMEDOUT, "wait", "errno %d", errno); break;
  case 5: OK(pthread_rwlock_rdlock(&irw), "rdlock"); wk_work(R(3)); OK(pthread_rwlock_unlock(&irw), "unlock"); break;
  case 6: OK(pthread_once(&ionce, ionce_fn), "once"); CK(oncecnt == 1, "once", "routine ran %d times", oncecnt); break;
  case 7: OK(pthread_mutex_lock(&icm), "lock"); wk_abs(&ts, R(2000)); a->holds = 0; rc = pthread_cond_timedwait(&icv, &icm, &ts); CK(rc == 0 || rc == ETIMEDOUT, "wait", "-> %d", rc); OK(pthread_mutex_unlock(&icm), "unlock"); break;
  case 8: OK(pthread_cond_broadcast(&icv), "broadcast"); break; } }
static void rob(im *a) { if (R(2)) return; int rc = pthread_mutex_lock(&irob); CK(rc == 0 || rc == EOWNERDEAD, "robust", "-> %d", rc); CK((rc == EOWNERDEAD) == (robdead != 0), "owner-dead", "robust lock -> %d, owner %s", rc, robdead ? "dead" : "not dead"); if (rc) { robdead = 0; OK(pthread_mutex_consistent(&irob), "consistent"); } CK(!robin, "mutual-exclusion", "robust mutex shared"); robin = 1; wk_work(R(3)); robin = 0; if (R(2)) { robdead = 1; a->holds = 1; sim_stat("implicit_died_owner", 1); return; } OK(pthread_mutex_unlock(&irob), "unlock"); }
static void suicide(im *a) { /* a cancellation point to be cancelled at */
  a->entered = 1;
  switch (a->cp) {
  case C_TEST: for (;;) { sim_delay_us(300); pthread_testcancel(); }
  case C_SEM: { for (;;) { int rc = sem_wait(&isem); CK(rc == 0, "wait", "sem_wait -> %d", rc); } }
  case C_COND: OK(pthread_mutex_lock(&icm), "lock"); a->incv = 1; for (;;) OK(pthread_cond_wait(&icv, &icm), "wait");
  case C_DELAY: for (;;) { struct timespec t = { 100, 0 }; OK(pthread_delay_np(&t), "delay"); }
  case C_JOIN: { void *v; pthread_join(never, &v); sim_violation("join", "join of a running thread returned"); }
  case C_RW: { for (;;) { struct timespec t = { 50, 0 }; OK(pthread_delay_np(&t), "delay"); OK(pthread_rwlock_wrlock(&irw), "wrlock"); OK(pthread_rwlock_unlock(&irw), "unlock"); } } } }
static unsigned WINAPI imain(void *v) {
  im *a = (im *)v; a->simid = sim_self(); sim_label("implicit-thread");
  if (a->route == E_PURE) { pthread_exit((void *)(intptr_t)a->code); }
  pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, NULL); for (int i = 0; i < a->ops; i++) iop(a);
  check_self(a);
  pthread_cleanup_push(iclean, a);
  for (int i = 0, n = R(4); i < n; i++) iop(a);
  rob(a); pthread_setcancelstate(PTHREAD_CANCEL_ENABLE, NULL);
  if (a->route == E_PEXIT) pthread_exit((void *)(intptr_t)a->code);
  if (a->route == E_CANCEL) { suicide(a); }
  if (a->route == E_ASYNC) { OK(pthread_setcanceltype(PTHREAD_CANCEL_ASYNCHRONOUS, NULL), "type"); a->entered = 1; for (;;) { sim_user_point(); if (R(20) == 0) sim_delay_us(50); } }
  pthread_cleanup_pop(1);
  pthread_win32_thread_detach_np(); /* the DLL / TLS callback does this at thread detach */
  if (a->route == E_EXITTHREAD) ExitThread(a->code);
  return a->code; }
static void *nmain(void *v) { while (!stop_never) sim_delay_us(1000); return v; }
static void *pmain(void *v) { for (int i = 0, n = R(6); i < n; i++) { OK(pthread_mutex_lock(&iml), "lock"); CK(!inm, "mutual-exclusion", "mutex shared"); inm = 1; wk_work(R(3)); inm = 0; OK(pthread_mutex_unlock(&iml), "unlock"); OK(pthread_cond_broadcast(&icv), "broadcast"); } rob(&I[0]); return v; }
WORKLOAD(implicit_life) {
  pthread_t pt[2]; int np_ = R(3); DWORD code; pthread_mutexattr_t ra; sim_calm(1); if (!never.p) wk_spawn(&never, nmain, 0);
  ni = 1 + R(MAXI); memset(I, 0, sizeof I); oncecnt = inm = robin = robdead = 0; pthread_once_t o1 = PTHREAD_ONCE_INIT; ionce = o1;
  for (int k = 0; k < 2; k++) OK(pthread_key_create(&ik[k], k ? id1 : id0), "key"); OK(pthread_mutex_init(&iml, NULL), "init"); OK(pthread_mutex_init(&icm, NULL), "init"); OK(pthread_cond_init(&icv, NULL), "init"); OK(sem_init(&isem, 0, 0), "init"); OK(pthread_rwlock_init(&irw, NULL), "init");
  OK(pthread_mutexattr_init(&ra), "init"); OK(pthread_mutexattr_setrobust(&ra, PTHREAD_MUTEX_ROBUST), "robust"); OK(pthread_mutexattr_settype(&ra, R(3)), "type"); OK(pthread_mutex_init(&irob, &ra), "init"); OK(pthread_mutexattr_destroy(&ra), "destroy");
  for (int i = 0; i < ni; i++) { I[i].id = i; I[i].route = R(E_N); I[i].cp = R(C_KINDS); if (sim_variant_cxx && I[i].cp != C_TEST && I[i].cp != C_DELAY && I[i].cp != C_JOIN) I[i].cp = R(3) ? C_TEST : C_JOIN; I[i].ops = R(8); I[i].code = R(100000); I[i].simid = -1; I[i].h = CreateThread(NULL, 0, (LPTHREAD_START_ROUTINE)(void *)imain, &I[i], 0, NULL); CK(I[i].h != NULL, "harness", "CreateThread"); if (R(3) == 0) sim_delay_us(R(3000)); }
  for (int i = 0; i < np_; i++) wk_spawn(&pt[i], pmain, &pt[i]);
  for (int i = 0; i < ni; i++) { im *a = &I[i]; if (a->route != E_CANCEL && a->route != E_ASYNC) continue; while (!a->selfset || (a->route == E_ASYNC && !a->entered && R(3))) sim_delay_us(100); if (R(2)) sim_delay_us(R(5000)); void *r;
    EQ(pthread_join(a->self, &r), EINVAL, "join-implicit"); EQ(pthread_detach(a->self), EINVAL, "detach-implicit"); OK(pthread_cancel(a->self), "cancel"); sim_stat("implicit_cancelled", 1); }
  for (int i = 0; i < ni; i++) { im *a = &I[i]; CK(WaitForSingleObject(a->h, INFINITE) == WAIT_OBJECT_0, "harness", "wait"); a->ended = 1; CK(GetExitCodeThread(a->h, &code), "harness", "code"); CloseHandle(a->h);
    DWORD want = a->route == E_CANCEL || a->route == E_ASYNC ? (DWORD)(size_t)PTHREAD_CANCELED : (DWORD)a->code; CK(code == want, "exit-code", "implicit thread (route %d) ended with code %u, expected %u", a->route, code, want);
    if (a->selfset) { EQ(pthread_kill(a->self, 0), ESRCH, "stale-id"); EQ(pthread_cancel(a->self), ESRCH, "stale-id"); EQ(pthread_detach(a->self), ESRCH, "stale-id"); }
    for (int k = 0; k < 2; k++) CK(!a->cur[k], "dtor-missing", "value of key %d of implicit thread %d (route %d) was not destroyed", k, i, a->route);
    if (a->route != E_PURE && !a->cleaned) { if (sim_variant_cxx) sim_finding("implicit-cleanup", "C++ build: cleanup handler of an implicit thread that left by %s did not run", a->route == E_PEXIT ? "pthread_exit" : "cancellation"); else sim_violation("implicit-cleanup", "cleanup handler of an implicit thread that left by %s (cancellation point %d) did not run", a->route == E_PEXIT ? "pthread_exit" : "cancellation", a->cp); }
    sim_stat("implicit_ended", 1); }
  for (int i = 0; i < np_; i++) wk_join(pt[i]);
  int rc = pthread_mutex_trylock(&irob); CK(rc == (robdead ? EOWNERDEAD : 0), "owner-dead", "robust mutex at the end: trylock -> %d, owner %s", rc, robdead ? "dead" : "not dead"); if (rc) OK(pthread_mutex_consistent(&irob), "consistent"); OK(pthread_mutex_unlock(&irob), "unlock"); OK(pthread_mutex_destroy(&irob), "destroy");
  OK(pthread_mutex_destroy(&iml), "destroy"); OK(pthread_mutex_destroy(&icm), "destroy"); OK(pthread_cond_destroy(&icv), "destroy-cond"); OK(sem_destroy(&isem), "destroy"); OK(pthread_rwlock_destroy(&irw), "destroy"); for (int k = 0; k < 2; k++) OK(pthread_key_delete(ik[k]), "key-delete");
  uint64_t h = ni; for (int i = 0; i < ni; i++) h = h * 31 + I[i].route * 8 + I[i].cp; sim_state(h);
  if (ep + 1 == nep) { stop_never = 1; wk_join(never); }
}
/* ---- process detach and attach: everything is given back ------------------- */
static pthread_key_t pk; static volatile int pkd; static void PTW32_CDECL pkdt(void *v) { (void)v; sim_add(&pkd, 1); }
static pthread_mutex_t pm; static pthread_cond_t pc;
static void *pthr(void *v) {
  OK(pthread_setspecific(pk, v), "setspecific"); OK(pthread_mutex_lock(&pm), "lock"); OK(pthread_cond_broadcast(&pc), "broadcast"); OK(pthread_mutex_unlock(&pm), "unlock");
  switch (R(4)) { case 0: pthread_exit(v); case 1: if (v != &pk) { int rc = pthread_detach(pthread_self()); CK(rc == 0 || rc == EINVAL, "detach", "-> %d", rc); } break; case 2: OK(pthread_cancel(pthread_self()), "cancel"); pthread_testcancel(); break; }
  return v; }
static unsigned WINAPI prawm(void *v) { pthr_again: (void)v; CK(pthread_self().p != NULL, "self", "no id"); OK(pthread_setspecific(pk, v), "setspecific"); if (R(2)) { OK(pthread_mutex_lock(&pm), "lock"); OK(pthread_mutex_unlock(&pm), "unlock"); } if (R(4) == 0) goto pthr_again; pthread_win32_thread_detach_np(); return 0; }
extern int ptw32_on_process_exit(void) __attribute__((weak));
WORKLOAD(process_cycle) {
  pthread_t t; struct timespec ts; int made = 0; pthread_mutex_t pmi = PTHREAD_MUTEX_INITIALIZER; pthread_cond_t pci = PTHREAD_COND_INITIALIZER; pkd = 0; sim_calm(1);
  if (R(3) == 0) { pthread_t f = pthread_self(); CK(f.p != NULL && pthread_equal(f, pthread_self()), "self", "no id on first use without attach"); sim_stat("used_before_attach", 1); } int ok = pthread_win32_process_attach_np(); CK(ok, "attach", "process attach failed");
  pm = pmi; pc = pci; OK(pthread_key_create(&pk, pkdt), "key");
  for (int i = 0, n = R(6); i < n; i++) { if (R(3) == 0) { HANDLE h = CreateThread(NULL, 0, (LPTHREAD_START_ROUTINE)(void *)prawm, &pk, 0, NULL); made++; if (R(2)) WaitForSingleObject(h, INFINITE); CloseHandle(h); }
    else { int det = R(2); OK(pthread_create(&t, NULL, pthr, det ? (void *)&pm : (void *)&pk), "create"); made++; int rc = det ? pthread_detach(t) : pthread_join(t, NULL); CK(rc == 0 || rc == EINVAL || rc == ESRCH, "join", "-> %d", rc); } }
  OK(pthread_mutex_lock(&pm), "lock"); wk_abs(&ts, R(3000)); int rc = pthread_cond_timedwait(&pc, &pm, &ts); CK(rc == 0 || rc == ETIMEDOUT, "wait", "-> %d", rc); OK(pthread_mutex_unlock(&pm), "unlock");
  sim_quiesce(); CK(pkd == made, "dtor-missing", "%d threads set a value, %d destructor calls", made, pkd);
  OK(pthread_cond_destroy(&pc), "destroy"); OK(pthread_mutex_destroy(&pm), "destroy"); OK(pthread_key_delete(pk), "key-delete");
  if (ptw32_on_process_exit && R(3) == 0) ptw32_on_process_exit(); /* what the static library has the system call at exit */
  else { if (R(2)) pthread_win32_thread_detach_np(); pthread_win32_process_detach_np(); }
  if (sim_live_allocs() || sim_live_tls() || sim_live_handles() > 0) { sim_dump_live(); sim_violation("detach-leak", "after process detach %d heap blocks, %d TLS slots and %d handles are left", sim_live_allocs(), sim_live_tls(), sim_live_handles()); }
  sim_stat("process_cycles", 1); sim_stat("cycle_threads", made); sim_state(made);
}

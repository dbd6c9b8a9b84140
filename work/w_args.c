#include "wk.h"
/* ---- wrong arguments: objects that are missing or were destroyed, values out of range and
 * threads that do not exist any more are refused with the documented error, at any time and
 * from any thread, and nothing else changes ------------------------------------------------- */
#define ER(x) (errno = 0, (x) == -1 ? (errno ? errno : -2) : -3)
static void fo(void) { CK(0, "args-routine", "init routine called"); }
static void kd(void *v) { (void)v; }
static pthread_mutex_t M, Ml; static pthread_mutexattr_t MA, MAl; static pthread_cond_t C, Cl; static pthread_condattr_t CA; static pthread_rwlock_t RW, RWl; static pthread_rwlockattr_t RA;
static pthread_spinlock_t S, Sl; static pthread_barrier_t B; static pthread_barrierattr_t BA; static sem_t Q, Ql; static pthread_attr_t A, Al; static volatile int wstop, wbad;
typedef struct { int rc, want, n; const char *what; } res;
#define T(n, call, w) case n: r.what = #call; r.rc = (call); r.want = (w); break;
#define T2(n, call, w) case n: r.what = #call; r.rc = ER(call); r.want = (w); break;
#define NT_OBJ 128
/* objects: NULL pointers and destroyed objects */
static res t_obj(int k) {
  res r = {0, 0, 0, "-"}; int i = 0; size_t sz = 0; struct timespec ts; struct sched_param sp; cpu_set_t cs; pthread_once_t O = PTHREAD_ONCE_INIT; pthread_barrier_t nb; sem_t ns = NULL; memset(&sp, 0, sizeof sp); CPU_ZERO(&cs); CPU_SET(0, &cs); wk_abs(&ts, R(2) ? R(2000) : -R(2000));
  switch (k) {
  T(0, pthread_mutex_init(NULL, NULL), EINVAL) T(1, pthread_mutex_destroy(&M), EINVAL) T(2, pthread_mutex_lock(&M), EINVAL) T(3, pthread_mutex_trylock(&M), EINVAL) T(4, pthread_mutex_timedlock(&M, &ts), EINVAL) T(5, pthread_mutex_unlock(&M), EINVAL) T(6, pthread_mutex_consistent(&M), EINVAL)
  T(7, pthread_mutexattr_destroy(NULL), EINVAL) T(8, pthread_mutexattr_destroy(&MA), EINVAL) T(9, pthread_mutexattr_settype(NULL, 0), EINVAL) T(10, pthread_mutexattr_settype(&MA, 0), EINVAL) T(11, pthread_mutexattr_gettype(NULL, &i), EINVAL) T(12, pthread_mutexattr_gettype(&MA, &i), EINVAL) T(13, pthread_mutexattr_gettype(&MAl, NULL), EINVAL)
  T(14, pthread_mutexattr_setpshared(NULL, 0), EINVAL) T(15, pthread_mutexattr_setpshared(&MA, 0), EINVAL) T(16, pthread_mutexattr_setpshared(&MAl, 9), EINVAL) T(17, pthread_mutexattr_getpshared(NULL, &i), EINVAL) T(18, pthread_mutexattr_getpshared(&MA, &i), EINVAL) T(19, pthread_mutexattr_getpshared(&MAl, NULL), EINVAL)
  T(20, pthread_mutexattr_setrobust(NULL, 0), EINVAL) T(21, pthread_mutexattr_setrobust(&MA, 0), EINVAL) T(22, pthread_mutexattr_setrobust(&MAl, 9), EINVAL) T(23, pthread_mutexattr_getrobust(NULL, &i), EINVAL) T(24, pthread_mutexattr_getrobust(&MA, &i), EINVAL) T(25, pthread_mutexattr_getrobust(&MAl, NULL), EINVAL) T(26, pthread_mutexattr_settype(&MAl, 77), EINVAL) T(27, pthread_mutexattr_settype(&MAl, -1), EINVAL)
  T(28, pthread_cond_init(NULL, NULL), EINVAL) T(29, pthread_cond_destroy(NULL), EINVAL) T(30, pthread_cond_destroy(&C), EINVAL) T(31, pthread_cond_signal(NULL), EINVAL) T(32, pthread_cond_signal(&C), EINVAL) T(33, pthread_cond_broadcast(NULL), EINVAL) T(34, pthread_cond_broadcast(&C), EINVAL)
  case 35: case 36: case 37: case 38: { pthread_cond_t *c = k & 1 ? NULL : &C; OK(pthread_mutex_lock(&Ml), "args-lock"); r.what = k < 37 ? "pthread_cond_wait(missing condition)" : "pthread_cond_timedwait(missing condition)"; r.rc = k < 37 ? pthread_cond_wait(c, &Ml) : pthread_cond_timedwait(c, &Ml, &ts); r.want = EINVAL; EQ(pthread_mutex_unlock(&Ml), 0, "args-mutex-held"); break; }
  case 39: OK(pthread_mutex_lock(&Ml), "args-lock"); r.what = "pthread_cond_timedwait(no time)"; r.rc = pthread_cond_timedwait(&Cl, &Ml, NULL); r.want = EINVAL; EQ(pthread_mutex_unlock(&Ml), 0, "args-mutex-held"); break;
  T(40, pthread_condattr_destroy(NULL), EINVAL) T(41, pthread_condattr_destroy(&CA), EINVAL) T(42, pthread_condattr_setpshared(NULL, 0), EINVAL) T(43, pthread_condattr_setpshared(&CA, 0), EINVAL) T(44, pthread_condattr_getpshared(NULL, &i), EINVAL) T(45, pthread_condattr_getpshared(&CA, &i), EINVAL)
  T(46, pthread_rwlock_init(NULL, NULL), EINVAL) T(47, pthread_rwlock_destroy(NULL), EINVAL) T(48, pthread_rwlock_destroy(&RW), EINVAL) T(49, pthread_rwlock_rdlock(NULL), EINVAL) T(50, pthread_rwlock_rdlock(&RW), EINVAL) T(51, pthread_rwlock_wrlock(NULL), EINVAL) T(52, pthread_rwlock_wrlock(&RW), EINVAL) T(53, pthread_rwlock_tryrdlock(NULL), EINVAL) T(54, pthread_rwlock_tryrdlock(&RW), EINVAL)
  T(55, pthread_rwlock_trywrlock(NULL), EINVAL) T(56, pthread_rwlock_trywrlock(&RW), EINVAL) T(57, pthread_rwlock_timedrdlock(NULL, &ts), EINVAL) T(58, pthread_rwlock_timedrdlock(&RW, &ts), EINVAL) T(59, pthread_rwlock_timedwrlock(NULL, &ts), EINVAL) T(60, pthread_rwlock_timedwrlock(&RW, &ts), EINVAL) T(61, pthread_rwlock_unlock(NULL), EINVAL) T(62, pthread_rwlock_unlock(&RW), EINVAL)
  T(63, pthread_rwlockattr_destroy(NULL), EINVAL) T(64, pthread_rwlockattr_destroy(&RA), EINVAL) T(65, pthread_rwlockattr_setpshared(NULL, 0), EINVAL) T(66, pthread_rwlockattr_setpshared(&RA, 0), EINVAL) T(67, pthread_rwlockattr_getpshared(NULL, &i), EINVAL) T(68, pthread_rwlockattr_getpshared(&RA, &i), EINVAL)
  T(69, pthread_spin_init(NULL, 0), EINVAL) T(70, pthread_spin_destroy(NULL), EINVAL) T(71, pthread_spin_destroy(&S), EINVAL) T(72, pthread_spin_lock(NULL), EINVAL) T(73, pthread_spin_lock(&S), EINVAL) T(74, pthread_spin_trylock(NULL), EINVAL) T(75, pthread_spin_trylock(&S), EINVAL) T(76, pthread_spin_unlock(NULL), EINVAL) T(77, pthread_spin_unlock(&S), EINVAL)
  T(78, pthread_barrier_init(NULL, NULL, 1), EINVAL) T(79, pthread_barrier_init(&nb, NULL, 0), EINVAL) T(80, pthread_barrier_destroy(NULL), EINVAL) T(81, pthread_barrier_destroy(&B), EINVAL) T(82, pthread_barrier_wait(NULL), EINVAL) T(83, pthread_barrier_wait(&B), EINVAL) T(84, pthread_barrierattr_destroy(NULL), EINVAL) T(85, pthread_barrierattr_destroy(&BA), EINVAL) T(86, pthread_barrierattr_setpshared(NULL, 0), EINVAL) T(87, pthread_barrierattr_setpshared(&BA, 0), EINVAL) T(88, pthread_barrierattr_getpshared(NULL, &i), EINVAL) T(89, pthread_barrierattr_getpshared(&BA, &i), EINVAL)
  T2(90, sem_init(&ns, 1, 1), EPERM) T2(91, sem_init(&ns, 0, (unsigned)SEM_VALUE_MAX + 1u), EINVAL) T2(92, sem_destroy(NULL), EINVAL) T2(93, sem_destroy(&Q), EINVAL) T2(94, sem_timedwait(NULL, &ts), EINVAL) T2(95, sem_timedwait(&Q, &ts), EINVAL) T2(96, sem_post_multiple(&Ql, 0), EINVAL) T2(97, sem_post_multiple(&Ql, -1 - R(5)), EINVAL) case 98: r.what = "sem_open"; errno = 0; r.rc = sem_open("x", 0) == SEM_FAILED ? errno : -3; r.want = ENOSYS; break; T2(99, sem_close(&Ql), ENOSYS) T2(100, sem_unlink("x"), ENOSYS)
  T(101, pthread_once(NULL, fo), EINVAL) T(102, pthread_once(&O, NULL), EINVAL)
  T(103, pthread_attr_init(NULL), EINVAL) T(104, pthread_attr_destroy(&A), EINVAL) T(105, pthread_attr_setdetachstate(&A, 0), EINVAL) T(106, pthread_attr_getdetachstate(&A, &i), EINVAL) T(107, pthread_attr_setstacksize(R(2) ? &A : NULL, 1), EINVAL) T(108, pthread_attr_getstacksize(R(2) ? &A : NULL, &sz), EINVAL) T(109, pthread_attr_setscope(&Al, 9), EINVAL) T(110, pthread_attr_setinheritsched(R(2) ? &A : NULL, 0), EINVAL) T(111, pthread_attr_getinheritsched(R(2) ? &A : NULL, &i), EINVAL) T(112, pthread_attr_setschedparam(R(2) ? &A : NULL, &sp), EINVAL) T(113, pthread_attr_getschedparam(R(2) ? &A : NULL, &sp), EINVAL)
  T(114, pthread_attr_setschedpolicy(R(2) ? &A : NULL, SCHED_OTHER), EINVAL) T(115, pthread_attr_getschedpolicy(R(2) ? &A : NULL, &i), EINVAL) T(116, pthread_attr_setaffinity_np(R(2) ? &A : NULL, sizeof cs, &cs), EINVAL) T(117, pthread_attr_getaffinity_np(R(2) ? &A : NULL, sizeof cs, &cs), EINVAL)
  T(118, pthread_setcancelstate(7 + R(3), &i), EINVAL) T(119, pthread_setcanceltype(7 + R(3), &i), EINVAL) T(120, pthread_delay_np(NULL), EINVAL) T(121, pthread_kill(pthread_self(), R(3) == 0 ? 40 + R(30) : R(2) ? 7 + R(8) : -1 - R(30)), EINVAL) T(122, pthread_setconcurrency(-1 - R(9)), EINVAL) T(123, pthread_attr_setstackaddr(&Al, &i), ENOSYS) T2(124, sched_setaffinity(0, sizeof cs, NULL), EFAULT) T2(125, sched_getaffinity(0, sizeof cs, NULL), EFAULT) T2(126, sem_init(&ns, 0, 0x80000000u + (unsigned)R(1000)), EINVAL)
  case 127: { struct timespec bt; bt.tv_nsec = R(2) ? 0 : R(1000000000); bt.tv_sec = R(2) ? -1 - R(10) : 2147484 + R(100000000); r.what = "pthread_delay_np(bad interval)"; r.rc = pthread_delay_np(&bt); r.want = EINVAL; break; } }
  sim_stat("args_refused", 1); return r; }
static void *worker(void *v) { /* others use the live objects while wrong calls go on */
  int n = 0; while (!wstop || n < 3) { n++; switch (R(4)) {
    case 0: OK(pthread_mutex_lock(&Ml), "args-others"); wk_work(R(4)); OK(pthread_mutex_unlock(&Ml), "args-others"); break;
    case 1: OK(sem_wait(&Ql), "args-others"); wk_work(R(4)); OK(sem_post(&Ql), "args-others"); break;
    case 2: if (R(2)) { OK(pthread_rwlock_rdlock(&RWl), "args-others"); } else OK(pthread_rwlock_wrlock(&RWl), "args-others"); wk_work(R(4)); OK(pthread_rwlock_unlock(&RWl), "args-others"); break;
    default: OK(pthread_spin_lock(&Sl), "args-others"); wk_work(R(2)); OK(pthread_spin_unlock(&Sl), "args-others"); } sim_yield(); } return v; }
static void *wrong(void *v) { int n = (int)(size_t)v, cs = -1, ct = -1; for (int i = 0; i < n; i++) { int k = R(NT_OBJ); res r = t_obj(k); CK(r.rc == r.want, "args-refused", "%s -> %d, expected %d", r.what, r.rc, r.want); }
  OK(pthread_setcancelstate(PTHREAD_CANCEL_ENABLE, &cs), "args"); OK(pthread_setcanceltype(PTHREAD_CANCEL_DEFERRED, &ct), "args"); CK(cs == PTHREAD_CANCEL_ENABLE && ct == PTHREAD_CANCEL_DEFERRED, "args-effect", "cancel state %d, type %d after refused changes", cs, ct); return v; }
static DWORD WINAPI wrong_raw(void *v) { wrong(v); pthread_win32_thread_detach_np(); return 0; }
WORKLOAD(args_objects) {
  pthread_t w[2], x; int nw = R(3), v = -1; HANDLE h = NULL; wstop = 0; M = NULL; S = NULL; struct sched_param sp; size_t z = 7;
  OK(pthread_mutex_init(&M, NULL), "i"); OK(pthread_mutex_destroy(&M), "d"); OK(pthread_mutexattr_init(&MA), "i"); OK(pthread_mutexattr_destroy(&MA), "d"); OK(pthread_cond_init(&C, NULL), "i"); OK(pthread_cond_destroy(&C), "d"); OK(pthread_condattr_init(&CA), "i"); OK(pthread_condattr_destroy(&CA), "d"); OK(pthread_rwlock_init(&RW, NULL), "i"); OK(pthread_rwlock_destroy(&RW), "d"); OK(pthread_rwlockattr_init(&RA), "i"); OK(pthread_rwlockattr_destroy(&RA), "d"); OK(pthread_spin_init(&S, 0), "i"); OK(pthread_spin_destroy(&S), "d"); OK(pthread_barrier_init(&B, NULL, 1), "i"); OK(pthread_barrier_destroy(&B), "d"); OK(pthread_barrierattr_init(&BA), "i"); OK(pthread_barrierattr_destroy(&BA), "d"); OK(sem_init(&Q, 0, 1), "i"); OK(sem_destroy(&Q), "d"); Q = NULL; OK(pthread_attr_init(&A), "i"); OK(pthread_attr_destroy(&A), "d");
  OK(pthread_mutex_init(&Ml, NULL), "i"); OK(pthread_mutexattr_init(&MAl), "i"); OK(pthread_cond_init(&Cl, NULL), "i"); OK(pthread_rwlock_init(&RWl, NULL), "i"); OK(sem_init(&Ql, 0, 1), "i"); OK(pthread_attr_init(&Al), "i"); OK(pthread_spin_init(&Sl, 0), "i");
  for (int i = 0; i < nw; i++) wk_spawn(&w[i], worker, NULL); if (R(2)) wk_spawn(&x, wrong, (void *)(size_t)(5 + R(20))); else memset(&x, 0, sizeof x); if (R(3) == 0) { h = CreateThread(NULL, 0, (LPTHREAD_START_ROUTINE)(void *)wrong_raw, (void *)(size_t)(3 + R(12)), 0, NULL); sim_stat("args_system_thread", 1); }
  for (int i = 0, n = 10 + R(40), at = R(NT_OBJ); i < n; i++) { res r = t_obj((at + i) % NT_OBJ); CK(r.rc == r.want, "args-refused", "%s -> %d, expected %d", r.what, r.rc, r.want); }
  wstop = 1; for (int i = 0; i < nw; i++) wk_join(w[i]); if (x.p) wk_join(x); if (h) { WaitForSingleObject(h, INFINITE); CloseHandle(h); }
  CK(!M && !C && !RW && !S && !B && !Q && !A && !MA && !CA && !RA && !BA, "args-effect", "a destroyed object came back");
  EQ(pthread_mutex_trylock(&Ml), 0, "args-effect"); OK(pthread_mutex_unlock(&Ml), "args-effect"); EQ(pthread_rwlock_trywrlock(&RWl), 0, "args-effect"); OK(pthread_rwlock_unlock(&RWl), "args-effect"); OK(sem_getvalue(&Ql, &v), "args-effect"); CK(v == 1, "args-effect", "the semaphore has %d, expected 1", v); EQ(pthread_spin_trylock(&Sl), 0, "args-effect"); OK(pthread_spin_unlock(&Sl), "args-effect");
  OK(pthread_mutexattr_gettype(&MAl, &v), "args-effect"); CK(v == PTHREAD_MUTEX_DEFAULT, "args-effect", "mutex type %d", v); OK(pthread_mutexattr_getrobust(&MAl, &v), "args-effect"); CK(v == PTHREAD_MUTEX_STALLED, "args-effect", "robust %d", v); OK(pthread_mutexattr_getpshared(&MAl, &v), "args-effect"); CK(v == PTHREAD_PROCESS_PRIVATE, "args-effect", "pshared %d", v); OK(pthread_attr_getschedparam(&Al, &sp), "args-effect"); CK(sp.sched_priority == 0, "args-effect", "priority %d", sp.sched_priority); OK(pthread_attr_getstacksize(&Al, &z), "args-effect"); CK(z == 0, "args-effect", "stack size"); EQ(pthread_getconcurrency() >= 0, 1, "args-effect");
  OK(pthread_mutex_destroy(&Ml), "args-live"); OK(pthread_mutexattr_destroy(&MAl), "args-live"); OK(pthread_cond_destroy(&Cl), "args-live"); OK(pthread_rwlock_destroy(&RWl), "args-live"); OK(sem_destroy(&Ql), "args-live"); OK(pthread_attr_destroy(&Al), "args-live"); OK(pthread_spin_destroy(&Sl), "args-live"); sim_state(nw * 4 + (h != NULL) * 2); }

/* threads: the id of a thread that was joined, or no id, means nobody, also when its structure serves another thread */
#define NT_THR 15
static pthread_t gone[6]; static volatile int ngone, hold, up, bad;
static void *shortl(void *v) { return v; }
static void *longl(void *v) { /* the thread that lives in the recycled structure: nothing may happen to it */
  struct sched_param sp; int pol; char nb[24], want[24]; cpu_set_t cs; int me = (int)(size_t)v; pthread_t s = pthread_self(); sim_add(&up, 1);
  sp.sched_priority = me % 3; OK(pthread_setschedparam(s, SCHED_OTHER, &sp), "args"); snprintf(want, sizeof want, "t%d", me); OK(pthread_setname_np(s, want), "args"); CPU_ZERO(&cs); CPU_SET(me % 4, &cs); OK(pthread_setaffinity_np(s, sizeof cs, &cs), "args");
  while (hold) { sim_delay_us(30); pthread_testcancel(); }
  OK(pthread_getschedparam(s, &pol, &sp), "args"); CK(sp.sched_priority == me % 3, "args-other-thread", "priority %d of another thread was changed to %d through a stale id", me % 3, sp.sched_priority); OK(pthread_getname_np(s, nb, sizeof nb), "args"); CK(!strcmp(nb, want), "args-other-thread", "name \"%s\" became \"%s\"", want, nb); OK(pthread_getaffinity_np(s, sizeof cs, &cs), "args"); CK(CPU_COUNT(&cs) == 1 && CPU_ISSET(me % 4, &cs), "args-other-thread", "affinity of another thread was changed");
  pthread_testcancel(); sim_add(&bad, -1); return v; }
static res t_thr(pthread_t t) {
  res r = {0, ESRCH, 0, "-"}; struct sched_param sp; int i; cpu_set_t cs; char nb[20] = "#"; struct timespec ts; void *x = &r; sp.sched_priority = 1 + R(2); CPU_ZERO(&cs); CPU_SET(4 + R(4), &cs); wk_abs(&ts, R(300) - 100);
  switch (R(NT_THR)) { T(0, pthread_join(t, &x), ESRCH) T(1, pthread_tryjoin_np(t, &x), ESRCH) T(2, pthread_timedjoin_np(t, &x, &ts), ESRCH) T(3, pthread_detach(t), ESRCH) T(4, pthread_cancel(t), ESRCH) T(5, pthread_kill(t, 0), ESRCH) T(6, pthread_kill(t, SIGTERM), ESRCH) T(7, pthread_getschedparam(t, &i, &sp), ESRCH) T(8, pthread_setschedparam(t, SCHED_OTHER, &sp), ESRCH) T(9, pthread_setaffinity_np(t, sizeof cs, &cs), ESRCH) T(10, pthread_getaffinity_np(t, sizeof cs, &cs), ESRCH) T(11, pthread_getname_np(t, nb, sizeof nb), ESRCH) T(12, pthread_setname_np(t, "stale"), ESRCH) T(13, pthread_tryjoin_np(t, NULL), ESRCH) T(14, pthread_timedjoin_np(t, NULL, &ts), ESRCH) }
  CK(x == &r, "args-effect", "%s stored a result", r.what); sim_stat("args_stale", 1); return r; }
static void *stale(void *v) { for (int i = 0, n = (int)(size_t)v; i < n; i++) { pthread_t t = gone[R(ngone)]; res r = t_thr(t); CK(r.rc == r.want, "args-stale", "%s of a thread that is gone -> %d, expected %d", r.what, r.rc, r.want); } return v; }
static DWORD WINAPI stale_raw(void *v) { stale(v); pthread_win32_thread_detach_np(); return 0; }
WORKLOAD(args_threads) {
  pthread_t l[6], x; int n = 1 + R(4), nl, me = R(3), k; HANDLE h = NULL; void *q; ngone = 0; hold = 1; up = 0; memset(&gone[ngone++], 0, sizeof gone[0]);
  for (int i = 0; i < n; i++) wk_spawn(&gone[ngone++], shortl, &ngone == NULL ? NULL : (void *)(size_t)(i + 1)); for (int i = 1; i < ngone; i++) wk_join(gone[i]);
  nl = n + R(2); bad = nl; for (int i = 0; i < nl; i++) wk_spawn(&l[i], longl, (void *)(size_t)(i + 1)); for (int i = 0; i < nl; i++) for (int j = 1; j < ngone; j++) if (l[i].p == gone[j].p) { CK(l[i].x != gone[j].x, "ids", "id reused"); sim_stat("args_recycled", 1); }
  while (R(4) && up < nl) sim_delay_us(20);
  if (R(2)) wk_spawn(&x, stale, (void *)(size_t)(5 + R(15))); else memset(&x, 0, sizeof x); if (me == 0) { h = CreateThread(NULL, 0, (LPTHREAD_START_ROUTINE)(void *)stale_raw, (void *)(size_t)(3 + R(8)), 0, NULL); sim_stat("args_system_thread", 1); }
  stale((void *)(size_t)(8 + R(25)));
  for (int i = 0, m = R(6); i < m; i++) { struct timespec ts; wk_abs(&ts, 50); k = R(3); int rc = k == 0 ? pthread_join(pthread_self(), &q) : k == 1 ? pthread_tryjoin_np(pthread_self(), &q) : pthread_timedjoin_np(pthread_self(), &q, &ts); CK(rc == EDEADLK || rc == EINVAL, "args-self", "join of oneself -> %d", rc); }
  if (x.p) wk_join(x); if (h) { WaitForSingleObject(h, INFINITE); CloseHandle(h); }
  hold = 0; for (int i = 0; i < nl; i++) { q = wk_join(l[i]); CK(q == (void *)(size_t)(i + 1), "args-other-thread", "thread %d was joined with %p", i + 1, q); } CK(bad == 0, "args-other-thread", "%d threads did not end by themselves", bad); sim_state(n * 8 + nl); }

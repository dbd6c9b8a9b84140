#include "wk.h"
/* ---- attributes objects: every attribute is an independent register with its
 * documented default; creation takes a snapshot --------------------------------- */
#define NA 3
typedef struct { int live, detach, prio, inherit, cpu, named; size_t stack; void *saddr; unsigned long long cpus; char name[24]; pthread_attr_t a; } ta;
static ta A[NA];
typedef struct { int prio, wprio, detach, named; size_t stack; unsigned long long cpus; char name[24]; volatile int ran; pthread_t th; } ex;
static ex X[8]; static unsigned long long allcpus;
static int clampp(int p) { return p == -15 || p == 15 ? p : p < -2 ? -2 : p > 2 ? 2 : p; }
static unsigned long long bits(const cpu_set_t *c) { unsigned long long v = 0; for (int i = 0; i < 64; i++) if (CPU_ISSET(i, c)) v |= 1ull << i; return v; }
static void mkset(cpu_set_t *c, unsigned long long v) { CPU_ZERO(c); for (int i = 0; i < 64; i++) if (v >> i & 1) CPU_SET(i, c); }
static void *athr(void *v) {
  ex *x = (ex *)v; struct sched_param sp; int pol = -1, me = sim_self(); cpu_set_t cs; char nb[40]; pthread_t s = pthread_self();
  OK(pthread_getschedparam(s, &pol, &sp), "getschedparam"); CK(pol == SCHED_OTHER && sp.sched_priority == x->prio, "create-priority", "thread created with priority %d reads %d (policy %d)", x->prio, sp.sched_priority, pol);
  CK(sim_thread_winprio_of(me) == x->wprio, "create-os-priority", "thread created with priority %d runs at level %d", x->prio, sim_thread_winprio_of(me));
  OK(pthread_getaffinity_np(s, sizeof cs, &cs), "getaffinity"); CK(bits(&cs) == x->cpus, "create-affinity", "thread created with CPUs %llx reads %llx", x->cpus, bits(&cs)); CK(sim_thread_affinity_of(me) == x->cpus, "create-os-affinity", "thread created with CPUs %llx runs on %llx", x->cpus, (unsigned long long)sim_thread_affinity_of(me));
  CK(sim_thread_stack_of(me) == (x->stack & 0xffffffff), "create-stack", "thread created with stack size %llu: the system was asked for %llu", (unsigned long long)x->stack, (unsigned long long)sim_thread_stack_of(me));
  OK(pthread_getname_np(s, nb, 40), "getname"); CK(strcmp(nb, x->name) == 0, "create-name", "thread created with the name \"%s\" has \"%s\"", x->name, nb);
  x->ran = 1; return v; }
static void adef(ta *t) { t->live = 1; t->detach = PTHREAD_CREATE_JOINABLE; t->prio = 0; t->inherit = PTHREAD_EXPLICIT_SCHED; t->cpu = 0; t->cpus = 0; t->stack = 0; t->named = 0; t->name[0] = 0; }
static void acheck(ta *t) {
  int i = -7; size_t z = 77; struct sched_param sp; cpu_set_t cs; char nb[40];
  OK(pthread_attr_getdetachstate(&t->a, &i), "attr-get"); CK(i == t->detach, "attr-value", "detach state %d, set to %d", i, t->detach);
  OK(pthread_attr_getschedparam(&t->a, &sp), "attr-get"); CK(sp.sched_priority == t->prio, "attr-value", "priority %d, set to %d", sp.sched_priority, t->prio);
  OK(pthread_attr_getinheritsched(&t->a, &i), "attr-get"); CK(i == t->inherit, "attr-value", "inheritsched %d, set to %d", i, t->inherit);
  OK(pthread_attr_getschedpolicy(&t->a, &i), "attr-get"); CK(i == SCHED_OTHER, "attr-value", "policy %d", i);
  OK(pthread_attr_getstacksize(&t->a, &z), "attr-get"); CK(z == t->stack, "attr-value", "stack size %llu, set to %llu", (unsigned long long)z, (unsigned long long)t->stack);
  OK(pthread_attr_getaffinity_np(&t->a, sizeof cs, &cs), "attr-get"); CK(bits(&cs) == t->cpus, "attr-value", "CPUs %llx, set to %llx", bits(&cs), t->cpus);
  OK(pthread_attr_getname_np(&t->a, nb, 40), "attr-get"); CK(strcmp(nb, t->name) == 0, "attr-value", "name \"%s\", set to \"%s\"", nb, t->name); }
static unsigned long long rcpus(void) { unsigned long long v = 0; for (int i = 0, n = 1 + R(3); i < n; i++) v |= 1ull << R(64); return R(4) ? v & allcpus : v; }
WORKLOAD(attr_threads) {
  pthread_t me = pthread_self(); int nx = 0, myprio; unsigned long long mycpus; cpu_set_t cs; struct sched_param sp; memset(X, 0, sizeof X); memset(A, 0, sizeof A);
  unsigned long long sysm = R(3) ? 0xffull : R(2) ? ~0ull : 0xffffffffull << R(32); allcpus = sysm; if (R(2)) { allcpus = 0; while (!allcpus) for (int i = 0; i < 5; i++) allcpus |= (1ull << R(64)) & sysm; } sim_set_cpus(allcpus, sysm);
  mkset(&cs, ~0ull); OK(pthread_setaffinity_np(me, sizeof cs, &cs), "setaffinity"); mycpus = allcpus;
  sp.sched_priority = myprio = 0; OK(pthread_setschedparam(me, SCHED_OTHER, &sp), "setschedparam");
  for (int op = 0, n = 4 + R(50); op < n; op++) {
    ta *t = &A[R(NA)]; int k = R(16); 
    if (!t->live) { if (k < 12) { OK(pthread_attr_init(&t->a), "attr-init"); adef(t); acheck(t); } else if (t->a == NULL) { int i; pthread_attr_t z = t->a; EQ(pthread_attr_destroy(&z), EINVAL, "attr-destroyed"); EQ(pthread_attr_setdetachstate(&z, 0), EINVAL, "attr-destroyed"); EQ(pthread_attr_getdetachstate(&z, &i), EINVAL, "attr-destroyed"); EQ(pthread_attr_setschedparam(&z, &sp), EINVAL, "attr-destroyed"); EQ(pthread_attr_setstacksize(&z, 4096), EINVAL, "attr-destroyed"); EQ(pthread_attr_setinheritsched(&z, 0), EINVAL, "attr-destroyed"); EQ(pthread_attr_setaffinity_np(&z, sizeof cs, &cs), EINVAL, "attr-destroyed"); } continue; }
    switch (k) {
    case 0: { int v = R(5) ? R(2) : 2 + R(9); int rc = pthread_attr_setdetachstate(&t->a, v); int ok = v == PTHREAD_CREATE_JOINABLE || v == PTHREAD_CREATE_DETACHED; CK(rc == (ok ? 0 : EINVAL), "attr-set", "detach state %d -> %d", v, rc); if (ok) t->detach = v; break; }
    case 1: { sp.sched_priority = R(37) - 18; int rc = pthread_attr_setschedparam(&t->a, &sp); int ok = sp.sched_priority >= -15 && sp.sched_priority <= 15; CK(rc == (ok ? 0 : EINVAL), "attr-set", "priority %d -> %d", sp.sched_priority, rc); if (ok) t->prio = sp.sched_priority; break; }
    case 2: { int v = R(5) ? R(2) : 2 + R(9); int rc = pthread_attr_setinheritsched(&t->a, v); int ok = v == PTHREAD_INHERIT_SCHED || v == PTHREAD_EXPLICIT_SCHED; CK(rc == (ok ? 0 : EINVAL), "attr-set", "inheritsched %d -> %d", v, rc); if (ok) t->inherit = v; break; }
    case 3: { int v = R(3); int rc = pthread_attr_setschedpolicy(&t->a, v); CK(rc == (v == SCHED_OTHER ? 0 : ENOTSUP), "attr-set", "policy %d -> %d", v, rc); break; }
    case 4: { size_t z = (size_t)R(1 << 20) * (R(4) ? 1 : 64); OK(pthread_attr_setstacksize(&t->a, z), "attr-set"); t->stack = z; break; }
    case 5: { t->cpus = rcpus() & allcpus; mkset(&cs, t->cpus); OK(pthread_attr_setaffinity_np(&t->a, sizeof cs, &cs), "attr-set"); EQ(pthread_attr_setaffinity_np(&t->a, sizeof cs, NULL), EINVAL, "attr-set"); break; }
    case 6: snprintf(t->name, sizeof t->name, "n%d.%d", op, R(100000)); OK(pthread_attr_setname_np(&t->a, t->name), "attr-set"); break;
    case 7: { int v = R(2); EQ(pthread_attr_setscope(&t->a, v), v == PTHREAD_SCOPE_SYSTEM ? 0 : ENOTSUP, "attr-set"); v = 9; OK(pthread_attr_getscope(&t->a, &v), "attr-get"); CK(v == PTHREAD_SCOPE_SYSTEM, "attr-value", "scope %d", v); break; }
    case 8: acheck(t); OK(pthread_attr_destroy(&t->a), "attr-destroy"); CK(t->a == NULL, "attr-destroy", "object not reset"); t->live = 0; break;
    case 9: { int i; EQ(pthread_attr_getdetachstate(&t->a, NULL), EINVAL, "attr-null"); EQ(pthread_attr_getinheritsched(&t->a, NULL), EINVAL, "attr-null"); EQ(pthread_attr_getschedparam(&t->a, NULL), EINVAL, "attr-null"); EQ(pthread_attr_setschedparam(&t->a, NULL), EINVAL, "attr-null"); EQ(pthread_attr_getschedpolicy(&t->a, NULL), EINVAL, "attr-null"); EQ(pthread_attr_getaffinity_np(&t->a, sizeof cs, NULL), EINVAL, "attr-null"); EQ(pthread_attr_init(NULL), EINVAL, "attr-null"); EQ(pthread_attr_getdetachstate(NULL, &i), EINVAL, "attr-null"); EQ(pthread_attr_destroy(NULL), EINVAL, "attr-null"); break; }
    case 10: sp.sched_priority = R(31) - 15; OK(pthread_setschedparam(me, SCHED_OTHER, &sp), "setschedparam"); myprio = sp.sched_priority; CK(sim_thread_winprio_of(sim_self()) == clampp(myprio), "os-priority", "priority %d gives level %d", myprio, sim_thread_winprio_of(sim_self())); break;
    case 11: { unsigned long long v = rcpus(); mkset(&cs, v); int rc = pthread_setaffinity_np(me, sizeof cs, &cs); CK(rc == (v & allcpus ? 0 : EINVAL), "setaffinity", "CPUs %llx of %llx -> %d", v, allcpus, rc); if (!rc) mycpus = v & allcpus; break; }
    default: if (nx < 8) { ex *x = &X[nx++]; int use = R(6) != 0; int d = use && t->detach == PTHREAD_CREATE_DETACHED;
        x->prio = !use ? 0 : t->inherit == PTHREAD_INHERIT_SCHED ? myprio : t->prio; x->wprio = clampp(x->prio); x->detach = d; x->cpus = use && t->cpus ? t->cpus : mycpus; x->stack = use ? t->stack : 0; x->named = use && t->name[0]; if (x->named) strcpy(x->name, t->name);
        OK(pthread_create(&x->th, use ? &t->a : NULL, athr, x), "create"); sim_stat("attr_creates", 1); if (R(3) == 0) sim_yield(); if (R(4) == 0) { OK(pthread_attr_destroy(&t->a), "attr-destroy"); t->live = 0; } break; } } 
    if (t->live && R(2)) acheck(t); sim_stat("attr_ops", 1); }
  for (int i = 0; i < nx; i++) { ex *x = &X[i]; void *v; if (!x->detach) { OK(pthread_join(x->th, &v), "create-joinable"); CK(v == x && x->ran, "create-joinable", "join of a thread created joinable"); } else { int rc = pthread_join(x->th, &v); CK(rc == EINVAL || rc == ESRCH, "create-detached", "a thread created detached was joined (-> %d)", rc); } }
  sim_quiesce(); for (int i = 0; i < nx; i++) CK(X[i].ran, "ran", "thread %d did not run", i);
  for (int i = 0; i < NA; i++) if (A[i].live) OK(pthread_attr_destroy(&A[i].a), "attr-destroy");
  sim_state(nx); sim_set_cpus(0xff, 0xff); mkset(&cs, 0xff); OK(pthread_setaffinity_np(me, sizeof cs, &cs), "setaffinity"); sp.sched_priority = 0; OK(pthread_setschedparam(me, SCHED_OTHER, &sp), "setschedparam");
}
/* ---- the other attributes, and objects made from them ------------------------- */
static pthread_mutex_t om; static volatile int ores; static int okind, orob;
static void *owner_dies(void *v) { OK(pthread_mutex_lock(&om), "lock"); return v; }
static void *foreign(void *v) { ores = pthread_mutex_unlock(&om); return v; }
static void mutex_is(pthread_mutex_t *m, int kind, int robust) { /* observe what the mutex is */
  pthread_t t; om = *m; okind = kind; orob = robust; OK(pthread_mutex_lock(&om), "lock");
  int rc = pthread_mutex_trylock(&om); CK(rc == (kind == PTHREAD_MUTEX_RECURSIVE ? 0 : EBUSY), "mutex-kind", "kind %d: trylock by the owner -> %d", kind, rc); if (!rc) OK(pthread_mutex_unlock(&om), "unlock");
  if (kind != PTHREAD_MUTEX_NORMAL || robust) { if (kind != PTHREAD_MUTEX_NORMAL) { rc = pthread_mutex_lock(&om); CK(rc == (kind == PTHREAD_MUTEX_RECURSIVE ? 0 : EDEADLK), "mutex-kind", "kind %d: relock -> %d", kind, rc); if (!rc) OK(pthread_mutex_unlock(&om), "unlock"); }
    wk_spawn(&t, foreign, NULL); wk_join(t); CK(ores == EPERM, "mutex-kind", "kind %d robust %d: unlock by another thread -> %d", kind, robust, ores); }
  OK(pthread_mutex_unlock(&om), "unlock");
  if (robust) { wk_spawn(&t, owner_dies, NULL); wk_join(t); EQ(pthread_mutex_trylock(&om), EOWNERDEAD, "mutex-robust"); OK(pthread_mutex_consistent(&om), "mutex-robust"); OK(pthread_mutex_unlock(&om), "unlock"); }
  else { int rc2; rc2 = pthread_mutex_lock(&om); CK(rc2 == 0, "lock", "-> %d", rc2); rc2 = pthread_mutex_consistent(&om); CK(rc2 == EINVAL, "mutex-robust", "consistent on a stalled mutex -> %d", rc2); OK(pthread_mutex_unlock(&om), "unlock"); }
  *m = om; sim_stat("attr_mutexes", 1); }
WORKLOAD(attr_objects) {
  pthread_mutexattr_t ma; int kind = PTHREAD_MUTEX_DEFAULT, rob = PTHREAD_MUTEX_STALLED, psh = PTHREAD_PROCESS_PRIVATE, i; static pthread_mutex_t M[4]; int mk[4], mr[4], nm = 0;
  OK(pthread_mutexattr_init(&ma), "attr-init");
  for (int op = 0, n = R(24); op < n; op++) switch (R(9)) {
    case 0: case 1: { int v = R(5) ? R(3) : 3 + R(5); int ok = v == PTHREAD_MUTEX_NORMAL || v == PTHREAD_MUTEX_RECURSIVE || v == PTHREAD_MUTEX_ERRORCHECK; int rc = R(2) ? pthread_mutexattr_settype(&ma, v) : pthread_mutexattr_setkind_np(&ma, v); CK(rc == (ok ? 0 : EINVAL), "attr-set", "type %d -> %d", v, rc); if (ok) kind = v; break; }
    case 2: case 3: { int v = R(5) ? R(2) : 2 + R(5); int ok = v == PTHREAD_MUTEX_STALLED || v == PTHREAD_MUTEX_ROBUST; int rc = pthread_mutexattr_setrobust(&ma, v); CK(rc == (ok ? 0 : EINVAL), "attr-set", "robustness %d -> %d", v, rc); if (ok) rob = v; break; }
    case 4: { int v = R(3); int rc = pthread_mutexattr_setpshared(&ma, v); CK(v == PTHREAD_PROCESS_PRIVATE ? rc == 0 : v == PTHREAD_PROCESS_SHARED ? rc == 0 || rc == ENOSYS || rc == ENOTSUP : rc == EINVAL, "attr-set", "pshared %d -> %d", v, rc); if (!rc) psh = v; break; }
    case 5: OK(pthread_mutexattr_getpshared(&ma, &i), "attr-get"); CK(i == psh, "attr-value", "pshared %d, set to %d", i, psh); EQ(pthread_mutexattr_gettype(&ma, NULL), EINVAL, "attr-null"); EQ(pthread_mutexattr_getrobust(&ma, NULL), EINVAL, "attr-null"); EQ(pthread_mutexattr_getpshared(&ma, NULL), EINVAL, "attr-null"); break;
    case 6: { OK(pthread_mutexattr_gettype(&ma, &i), "attr-get"); CK(i == kind, "attr-value", "type %d, set to %d", i, kind); OK(pthread_mutexattr_getkind_np(&ma, &i), "attr-get"); CK(i == kind, "attr-value", "kind %d, set to %d", i, kind); OK(pthread_mutexattr_getrobust(&ma, &i), "attr-get"); CK(i == rob, "attr-value", "robustness %d, set to %d", i, rob); break; }
    default: if (psh == PTHREAD_PROCESS_SHARED) { pthread_mutex_t q = NULL; int rc = pthread_mutex_init(&q, &ma); CK(rc == ENOSYS || rc == ENOTSUP, "shared-refused", "init of a process-shared mutex -> %d", rc); } else if (nm < 4) { OK(pthread_mutex_init(&M[nm], &ma), "init"); mk[nm] = kind; mr[nm] = rob == PTHREAD_MUTEX_ROBUST; nm++; } else { int q = R(4); mutex_is(&M[q], mk[q], mr[q]); } break; }
  OK(pthread_mutexattr_destroy(&ma), "attr-destroy"); EQ(pthread_mutexattr_destroy(&ma), EINVAL, "attr-destroyed"); EQ(pthread_mutexattr_settype(&ma, 0), EINVAL, "attr-destroyed"); EQ(pthread_mutexattr_setrobust(&ma, 0), EINVAL, "attr-destroyed"); EQ(pthread_mutexattr_setpshared(&ma, 0), EINVAL, "attr-destroyed");
  for (int k = 0; k < nm; k++) { mutex_is(&M[k], mk[k], mr[k]); OK(pthread_mutex_destroy(&M[k]), "destroy"); }
  if (R(3) == 0) { pthread_mutex_t m; OK(pthread_mutex_init(&m, NULL), "init"); mutex_is(&m, PTHREAD_MUTEX_DEFAULT, 0); OK(pthread_mutex_destroy(&m), "destroy"); }
  switch (R(3)) {
#define PSH(T, nm_) { pthread_##T##_t a; OK(pthread_##T##_init(&a), "attr-init"); OK(pthread_##T##_getpshared(&a, &i), "attr-get"); CK(i == PTHREAD_PROCESS_PRIVATE, "attr-value", #T " pshared %d by default", i); \
    psh = i; for (int q = 0, w = R(6); q < w; q++) { int v = R(3); int rc = pthread_##T##_setpshared(&a, v); CK(v == PTHREAD_PROCESS_PRIVATE ? rc == 0 : v == PTHREAD_PROCESS_SHARED ? rc == 0 || rc == ENOSYS || rc == ENOTSUP : rc == EINVAL, "attr-set", #T " pshared %d -> %d", v, rc); if (!rc) psh = v; OK(pthread_##T##_getpshared(&a, &i), "attr-get"); CK(i == psh, "attr-value", #T " pshared %d, set to %d", i, psh); EQ(pthread_##T##_getpshared(&a, NULL), EINVAL, "attr-null"); } \
    { nm_ } OK(pthread_##T##_destroy(&a), "attr-destroy"); EQ(pthread_##T##_destroy(&a), EINVAL, "attr-destroyed"); EQ(pthread_##T##_setpshared(&a, 0), EINVAL, "attr-destroyed"); }
  case 0: PSH(condattr, pthread_cond_t c; if (psh == PTHREAD_PROCESS_SHARED) { int rc = pthread_cond_init(&c, &a); CK(rc == ENOSYS || rc == ENOTSUP, "shared-refused", "init of a process-shared condition variable -> %d", rc); OK(pthread_condattr_setpshared(&a, PTHREAD_PROCESS_PRIVATE), "attr-set"); } OK(pthread_cond_init(&c, &a), "init"); OK(pthread_cond_signal(&c), "signal"); OK(pthread_cond_destroy(&c), "destroy");) break;
  case 1: PSH(rwlockattr, pthread_rwlock_t c; if (psh == PTHREAD_PROCESS_SHARED) { int rc = pthread_rwlock_init(&c, &a); CK(rc == ENOSYS || rc == ENOTSUP, "shared-refused", "init of a process-shared rwlock -> %d", rc); } OK(pthread_rwlockattr_setpshared(&a, PTHREAD_PROCESS_PRIVATE), "attr-set"); OK(pthread_rwlock_init(&c, &a), "init"); OK(pthread_rwlock_wrlock(&c), "wrlock"); OK(pthread_rwlock_unlock(&c), "unlock"); OK(pthread_rwlock_destroy(&c), "destroy");) break;
  case 2: PSH(barrierattr, pthread_barrier_t c; OK(pthread_barrierattr_setpshared(&a, PTHREAD_PROCESS_PRIVATE), "attr-set"); OK(pthread_barrier_init(&c, &a, 1), "init"); EQ(pthread_barrier_wait(&c), PTHREAD_BARRIER_SERIAL_THREAD, "serial"); OK(pthread_barrier_destroy(&c), "destroy");) break; }
  if (R(4) == 0) { pthread_spinlock_t sl; int rc = pthread_spin_init(&sl, PTHREAD_PROCESS_SHARED); CK(rc == ENOSYS || rc == ENOTSUP, "shared-refused", "init of a process-shared spin lock -> %d", rc); sem_t se; rc = sem_init(&se, 1, 0); CK(rc == -1 && (errno == EPERM || errno == ENOSYS), "shared-refused", "init of a process-shared semaphore -> %d errno %d", rc, errno); }
  sim_state(kind * 2 + rob); sim_stat("attr_ops", 1);
}

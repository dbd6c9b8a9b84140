#include "wk.h"
/* ---- scheduling: priority and CPU set of live threads are registers kept in step
 * with the system; CPU set algebra; processor counts ---------------------------- */
typedef unsigned long long u64_;
static int clampp(int p) { return p == -15 || p == 15 ? p : p < -2 ? -2 : p > 2 ? 2 : p; }
static u64_ bits(const cpu_set_t *c) { u64_ v = 0; for (int i = 0; i < 64; i++) if (CPU_ISSET(i, c)) v |= 1ull << i; return v; }
static void mkset(cpu_set_t *c, u64_ v) { CPU_ZERO(c); for (int i = 0; i < 64; i++) if (v >> i & 1) CPU_SET(i, c); }
#define NT 4
#define NW 80
typedef struct { uint64_t b, e; u64_ v; } wr;
typedef struct { int id, ops, simid; pthread_t th; volatile int made, over, np, na; wr p[NW], a[NW]; } st;
static st S[NT]; static int ns; static u64_ pmask, smask; static volatile int seen_n;
static void regcheck(wr *w, int n, u64_ v, uint64_t b, uint64_t e, const char *what, int id) { /* is v a value the register may have had during [b, e]? */
  for (int k = 0; k < n && k < NW; k++) { if (w[k].v != v || w[k].b > e || !w[k].b) continue; int dead = 0; if (w[k].e) for (int o = 0; o < n && o < NW; o++) if (o != k && w[k].e && w[o].b > w[k].e && w[o].e && w[o].e < b) dead = 1; if (!dead) return; }
  sim_violation("register", "%s of thread %d reads %lld, which was not its value at that time", what, id, (long long)v); }
static void op(void) {
  st *t = &S[R(ns)]; struct sched_param sp; int pol, rc; cpu_set_t cs; if (!t->made) return;
  switch (R(5)) {
  case 0: { int k = sim_add(&t->np, 1) - 1; if (k >= NW) { t->np = NW; return; } int p = R(31) - 15; t->p[k].v = (u64_)(long long)p; t->p[k].b = sim_seq(); sp.sched_priority = p; OK(pthread_setschedparam(t->th, SCHED_OTHER, &sp), "setschedparam"); t->p[k].e = sim_seq(); sim_stat("prio_set", 1); break; }
  case 1: { uint64_t b = sim_seq(); OK(pthread_getschedparam(t->th, &pol, &sp), "getschedparam"); uint64_t e = sim_seq(); CK(pol == SCHED_OTHER, "policy", "policy %d", pol); regcheck(t->p, t->np, (u64_)(long long)sp.sched_priority, b, e, "priority", t->id); sim_stat("prio_get", 1); break; }
  case 2: { u64_ v = 0; for (int i = 0, n = 1 + R(4); i < n; i++) v |= 1ull << R(64); if (R(4)) v |= smask & (0x1111111111111111ull << R(4)); mkset(&cs, v); u64_ ef = v & pmask; if (!ef) { EQ(pthread_setaffinity_np(t->th, sizeof cs, &cs), EINVAL, "affinity-none"); break; } int k = sim_add(&t->na, 1) - 1; if (k >= NW) { t->na = NW; return; } t->a[k].v = ef; t->a[k].b = sim_seq(); rc = pthread_setaffinity_np(t->th, sizeof cs, &cs); t->a[k].e = sim_seq(); CK(rc == 0, "setaffinity", "-> %d", rc); sim_stat("aff_set", 1); break; }
  case 3: { uint64_t b = sim_seq(); OK(pthread_getaffinity_np(t->th, sizeof cs, &cs), "getaffinity"); uint64_t e = sim_seq(); regcheck(t->a, t->na, bits(&cs), b, e, "CPU set", t->id); sim_stat("aff_get", 1); break; }
  default: sp.sched_priority = R(2) ? 16 + R(9) : -16 - R(9); EQ(pthread_setschedparam(t->th, SCHED_OTHER, &sp), EINVAL, "prio-range"); sp.sched_priority = 0; EQ(pthread_setschedparam(t->th, R(2) ? SCHED_FIFO : SCHED_RR, &sp), ENOTSUP, "policy"); EQ(pthread_setschedparam(t->th, R(2) ? -1 - R(3) : 3 + R(9), &sp), EINVAL, "policy"); EQ(pthread_getschedparam(t->th, NULL, &sp), EINVAL, "policy"); EQ(pthread_setaffinity_np(t->th, sizeof cs, NULL), EFAULT, "null"); EQ(pthread_getaffinity_np(t->th, sizeof cs, NULL), EFAULT, "null"); } }
static void *sthr(void *v) { st *s = (st *)v; s->simid = sim_self(); while (!s->made) sim_delay_us(20); for (int i = 0; i < s->ops; i++) { op(); if (R(6) == 0) sim_delay_us(R(100)); } sim_add(&s->over, 1); for (int i = 0; i < ns; i++) while (!S[i].over) sim_delay_us(100); sim_add(&seen_n, 1); while (seen_n <= ns) sim_delay_us(100); return v; }
static void masks(void) { smask = R(3) ? 0xffull : R(2) ? ~0ull : 0xffffffffull << R(32); pmask = smask; if (R(2)) { pmask = 0; while (!pmask) for (int i = 0; i < 5; i++) pmask |= (1ull << R(64)) & smask; } sim_set_cpus(pmask, smask); }
WORKLOAD(sched_threads) {
  cpu_set_t cs; pthread_t me = pthread_self(); struct sched_param sp; int pol; memset(S, 0, sizeof S); masks(); mkset(&cs, ~0ull); OK(pthread_setaffinity_np(me, sizeof cs, &cs), "setaffinity"); sp.sched_priority = R(31) - 15; OK(pthread_setschedparam(me, SCHED_OTHER, &sp), "setschedparam"); seen_n = 0;
  int cnt = 0; for (int i = 0; i < 64; i++) if (pmask >> i & 1) cnt++; int np = pthread_num_processors_np(); CK(np == cnt, "num-processors", "%d processors, the process has %d", np, cnt);
  ns = 1 + R(NT); for (int i = 0; i < ns; i++) { st *t = &S[i]; t->id = i; t->ops = R(20); t->p[0].v = 0; t->p[0].b = t->p[0].e = 1; t->a[0].v = pmask; t->a[0].b = t->a[0].e = 1; t->np = t->na = 1; pthread_t h; wk_spawn(&h, sthr, t); t->th = h; t->made = 1; }
  for (int i = 0, n = R(20); i < n; i++) op();
  while (seen_n < ns) sim_delay_us(100);
  for (int i = 0; i < ns; i++) { st *t = &S[i]; OK(pthread_getschedparam(t->th, &pol, &sp), "getschedparam"); CK(sim_thread_winprio_of(t->simid) == clampp(sp.sched_priority), "os-priority", "thread %d has priority %d but runs at level %d", i, sp.sched_priority, sim_thread_winprio_of(t->simid));
    OK(pthread_getaffinity_np(t->th, sizeof cs, &cs), "getaffinity"); CK(sim_thread_affinity_of(t->simid) == bits(&cs), "os-affinity", "thread %d has the CPUs %llx but runs on %llx", i, bits(&cs), (u64_)sim_thread_affinity_of(t->simid)); }
  seen_n = ns + 1; for (int i = 0; i < ns; i++) { wk_join(S[i].th); EQ(pthread_getschedparam(S[i].th, &pol, &sp), ESRCH, "stale-id"); EQ(pthread_setschedparam(S[i].th, SCHED_OTHER, &sp), ESRCH, "stale-id"); EQ(pthread_setaffinity_np(S[i].th, sizeof cs, &cs), ESRCH, "stale-id"); EQ(pthread_getaffinity_np(S[i].th, sizeof cs, &cs), ESRCH, "stale-id"); }
  sim_state(ns); sim_set_cpus(0xff, 0xff); mkset(&cs, 0xff); OK(pthread_setaffinity_np(me, sizeof cs, &cs), "setaffinity"); sp.sched_priority = 0; OK(pthread_setschedparam(me, SCHED_OTHER, &sp), "setschedparam");
}
static u64_ r64(void) { u64_ v = 0; for (int i = 0; i < 4; i++) v = v << 16 | (u64_)R(65536); return R(4) ? v : R(2) ? 0 : ~0ull; }
WORKLOAD(sched_sets) {
  cpu_set_t a, b, c; u64_ A = r64(), B = r64(), C = 0; mkset(&a, A); mkset(&b, B); CPU_ZERO(&c);
  for (int i = 0, n = 20 + R(60); i < n; i++) switch (R(11)) {
    case 0: { int k = R(64); CPU_SET(k, &a); A |= 1ull << k; break; }
    case 1: { int k = R(64); CPU_CLR(k, &a); A &= ~(1ull << k); break; }
    case 2: { int k = 64 + R(200); if (R(2)) k = -1 - R(200); CPU_SET(k, &a); CPU_CLR(k, &b); CK(!CPU_ISSET(k, &a), "set-bounds", "CPU %d can not be in a set", k); break; }
    case 3: CPU_AND(&c, &a, &b); C = A & B; break;
    case 4: CPU_OR(&c, &a, &b); C = A | B; break;
    case 5: CPU_XOR(&c, &a, &b); C = A ^ B; break;
    case 6: CPU_AND(&a, &a, &c); A &= C; break;
    case 7: CPU_XOR(&b, &a, &b); B ^= A; break;
    case 8: { u64_ v = A; int k = 0; for (; v; v >>= 1) k += (int)(v & 1); int g = CPU_COUNT(&a); CK(g == k, "set-count", "count %d of %llx", g, A); break; }
    case 9: CK((CPU_EQUAL(&a, &b) != 0) == (A == B) && CPU_EQUAL(&c, &c), "set-equal", "%llx and %llx", A, B); break;
    default: if (R(3) == 0) { CPU_ZERO(&c); C = 0; } else { A = r64(); mkset(&a, A); } }
  CK(bits(&a) == A && bits(&b) == B && bits(&c) == C, "set-algebra", "sets %llx %llx %llx, expected %llx %llx %llx", bits(&a), bits(&b), bits(&c), A, B, C);
  /* the process-wide calls */
  masks(); int rc; u64_ v = r64(); mkset(&a, v); errno = 0; rc = sched_setaffinity(R(2) ? 0 : (pid_t)GetCurrentProcessId(), sizeof a, &a);
  if (v & smask) { CK(rc == 0, "sched-affinity", "-> %d", rc); pmask = v & smask; } else CK(rc == -1 && errno == EINVAL, "sched-affinity", "-> %d errno %d", rc, errno);
  OK(sched_getaffinity(0, sizeof b, &b), "sched-affinity"); CK(bits(&b) == pmask, "sched-affinity", "the process has %llx, reads %llx", pmask, bits(&b));
  EQ(sched_setaffinity(0, sizeof a, NULL), -1, "sched-affinity"); CK(errno == EFAULT, "errno", "%d", errno); EQ(sched_getaffinity(0, sizeof a, NULL), -1, "sched-affinity"); CK(errno == EFAULT, "errno", "%d", errno); EQ(sched_getaffinity(99999, sizeof a, &b), -1, "sched-affinity");
  CK(errno == ESRCH, "errno", "%d", errno);
  /* other processes: 5152 is one like this, 4 may not be touched, the rest do not exist */
  { u64_ own = pmask, oth = sim_process_cpus(1); pid_t no = (pid_t)(6000 + R(1000)); errno = 0; mkset(&a, 1); EQ(sched_setaffinity(no, sizeof a, &a), -1, "process-missing"); CK(errno == ESRCH, "errno", "%d", errno); errno = 0; EQ(sched_setscheduler(no, SCHED_OTHER), -1, "process-missing"); CK(errno == ESRCH, "errno", "%d", errno);
    errno = 0; EQ(sched_setaffinity(4, sizeof a, &a), -1, "process-denied"); CK(errno == EPERM, "errno", "%d", errno); errno = 0; EQ(sched_getaffinity(4, sizeof a, &a), -1, "process-denied"); CK(errno == EPERM, "errno", "%d", errno); errno = 0; EQ(sched_getscheduler(4), -1, "process-denied"); CK(errno == EPERM, "errno", "%d", errno); errno = 0; EQ(sched_setscheduler(4, SCHED_OTHER), -1, "process-denied"); CK(errno == EPERM, "errno", "%d", errno);
    EQ(sched_getscheduler(5152), SCHED_OTHER, "scheduler"); EQ(sched_setscheduler(5152, SCHED_OTHER), SCHED_OTHER, "scheduler"); errno = 0; EQ(sched_setscheduler(5152, SCHED_FIFO), -1, "scheduler"); CK(errno == ENOSYS, "errno", "%d", errno);
    v = r64(); mkset(&a, v); errno = 0; rc = sched_setaffinity(5152, sizeof a, &a); if (v & smask) { CK(rc == 0, "process-affinity", "-> %d", rc); oth = v & smask; } else CK(rc == -1 && errno == EINVAL, "process-affinity", "-> %d errno %d", rc, errno);
    OK(sched_getaffinity(5152, sizeof b, &b), "process-affinity"); CK(bits(&b) == oth && sim_process_cpus(1) == oth, "process-affinity", "the other process has %llx, reads %llx, was given %llx", (u64_)sim_process_cpus(1), bits(&b), oth); CK(sim_process_cpus(0) == own, "process-affinity", "this process has %llx after changing another one, had %llx", (u64_)sim_process_cpus(0), own); sim_stat("process_ops", 1); }
  CK(sched_get_priority_min(SCHED_OTHER) == -15 && sched_get_priority_max(SCHED_OTHER) == 15, "priority-range", "%d..%d", sched_get_priority_min(SCHED_OTHER), sched_get_priority_max(SCHED_OTHER)); errno = 0; EQ(sched_get_priority_min(-1 - R(5)), -1, "priority-range"); CK(errno == EINVAL, "errno", "%d", errno); errno = 0; EQ(sched_get_priority_max(3 + R(5)), -1, "priority-range"); CK(errno == EINVAL, "errno", "%d", errno);
  EQ(sched_getscheduler(0), SCHED_OTHER, "scheduler"); EQ(sched_getscheduler((pid_t)GetCurrentProcessId()), SCHED_OTHER, "scheduler"); errno = 0; EQ(sched_getscheduler(99999), -1, "scheduler"); CK(errno == ESRCH, "errno", "%d", errno); EQ(sched_setscheduler(0, SCHED_OTHER), SCHED_OTHER, "scheduler"); errno = 0; EQ(sched_setscheduler(0, SCHED_RR), -1, "scheduler"); CK(errno == ENOSYS, "errno", "%d", errno);
  { static int level; int l = R(5) ? R(1000) : -1 - R(5); rc = pthread_setconcurrency(l); CK(rc == (l < 0 ? EINVAL : 0), "concurrency", "%d -> %d", l, rc); if (!rc) level = l; CK(pthread_getconcurrency() == level, "concurrency", "%d, set to %d", pthread_getconcurrency(), level); }
  EQ(sched_yield(), 0, "yield"); sim_stat("set_ops", 1);
  sim_set_cpus(0xff, 0xff); mkset(&a, 0xff); OK(pthread_setaffinity_np(pthread_self(), sizeof a, &a), "setaffinity");
}
/* system threads: what they set with system calls before they become POSIX threads is what
 * they have then; affinity changed behind the library's back is reported; a change the system
 * refuses changes nothing ------------------------------------------------------------------- */
typedef struct { int id, flt, lev, lev2, simid, kid_simid, kid_inh; u64_ m, m2; volatile int step; pthread_t self; HANDLE h; } sy;
static sy Y[3]; static u64_ inset(u64_ of) { u64_ v = 0; while (!v) for (int i = 0; i < 4; i++) v |= (1ull << R(64)) & of; return v; }
static int level(void) { int l = R(7) - 3; return l == -3 ? -15 : l == 3 ? 15 : l; }
static u64_ aff(pthread_t t) { cpu_set_t c; OK(pthread_getaffinity_np(t, sizeof c, &c), "getaffinity"); return bits(&c); }
static int prio(pthread_t t) { struct sched_param sp; int pol; OK(pthread_getschedparam(t, &pol, &sp), "getschedparam"); return sp.sched_priority; }
static void *kid(void *v) { sy *y = (sy *)v; y->kid_simid = sim_self(); return v; }
static unsigned WINAPI symain(void *v) {
  sy *y = (sy *)v; y->simid = sim_self(); pthread_t k; pthread_attr_t a;
  if (y->m) CK(SetThreadAffinityMask(GetCurrentThread(), y->m) != 0, "harness", "affinity"); else y->m = pmask;
  if (y->lev) SetThreadPriority(GetCurrentThread(), y->lev);
  if (y->flt) { static const int ms[] = { SIM_F_SYS, SIM_F_SET, SIM_F_DUP, SIM_F_EVENT, SIM_F_ALL }; int m = ms[R(5)], in; sim_fault_arm(m, 1 + R(2), 1 + R(2)); y->self = pthread_self(); in = sim_fault_disarm();
    if (!y->self.p) { CK(in, "implicit-refused", "no identity though nothing was refused"); sim_stat("identity_refused", 1); if (m == SIM_F_SET) SetThreadAffinityMask(GetCurrentThread(), y->m); } }
  y->self = pthread_self(); CK(sim_thread_affinity_of(y->simid) == y->m, "implicit-affinity", "a system thread on %llx became a POSIX thread and runs on %llx", y->m, (u64_)sim_thread_affinity_of(y->simid)); y->step = 1;
  CK(prio(y->self) == y->lev, "implicit-priority", "a system thread of level %d has priority %d", y->lev, prio(y->self)); CK(aff(y->self) == y->m, "implicit-affinity", "a system thread on %llx has the CPUs %llx", y->m, aff(y->self));
  y->kid_inh = R(3); OK(pthread_attr_init(&a), "attr"); OK(pthread_attr_setinheritsched(&a, y->kid_inh == 1 ? PTHREAD_INHERIT_SCHED : PTHREAD_EXPLICIT_SCHED), "attr"); OK(pthread_create(&k, y->kid_inh == 2 ? NULL : &a, kid, y), "create"); OK(pthread_attr_destroy(&a), "attr");
  int want = y->kid_inh == 1 ? y->lev : 0; CK(prio(k) == want, "inherit", "thread made by a system thread of level %d (inherit %d) has priority %d", y->lev, y->kid_inh, prio(k)); CK(aff(k) == y->m, "inherit-affinity", "thread made by a system thread on %llx has the CPUs %llx", y->m, aff(k));
  wk_join(k); CK(sim_thread_affinity_of(y->kid_simid) == y->m && sim_thread_winprio_of(y->kid_simid) == want, "inherit-affinity", "thread made by a system thread on %llx level %d ran on %llx level %d", y->m, y->lev, (u64_)sim_thread_affinity_of(y->kid_simid), sim_thread_winprio_of(y->kid_simid));
  CK(sim_thread_affinity_of(y->simid) == y->m && sim_thread_winprio_of(y->simid) == y->lev, "implicit-affinity", "a system thread on %llx level %d now runs on %llx level %d", y->m, y->lev, (u64_)sim_thread_affinity_of(y->simid), sim_thread_winprio_of(y->simid));
  y->step = 2; while (y->step != 3) sim_delay_us(50); pthread_win32_thread_detach_np(); return 0; }
WORKLOAD(sched_implicit) {
  cpu_set_t c; struct sched_param sp; pthread_t me = pthread_self(); sim_calm(1); masks(); mkset(&c, ~0ull); OK(pthread_setaffinity_np(me, sizeof c, &c), "setaffinity"); int n = 1 + R(3); memset(Y, 0, sizeof Y);
  for (int i = 0; i < n; i++) { sy *y = &Y[i]; y->flt = n == 1 && R(2); y->lev = level(); y->m = R(3) ? inset(pmask) : 0; y->h = CreateThread(NULL, 0, (LPTHREAD_START_ROUTINE)(void *)symain, y, 0, NULL); CK(y->h != NULL, "harness", "CreateThread"); }
  for (int i = 0; i < n; i++) { while (Y[i].step < 2) { sim_delay_us(50); if (Y[i].step == 1 && R(4) == 0) { CK(prio(Y[i].self) == Y[i].lev, "implicit-priority", "a system thread of level %d has priority %d", Y[i].lev, prio(Y[i].self)); } } }
  for (int i = 0; i < n; i++) { sy *y = &Y[i];
    if (R(2)) { y->m2 = inset(pmask); CK(SetThreadAffinityMask(y->h, y->m2) != 0, "harness", "affinity"); for (int k = 0; k < 1 + (int)R(2); k++) { CK(aff(y->self) == y->m2, "system-affinity", "affinity %llx given by a system call reads %llx (time %d; %llx before)", y->m2, aff(y->self), k, y->m); CK(sim_thread_affinity_of(y->simid) == y->m2, "system-affinity", "reading the affinity %llx changed it to %llx", y->m2, (u64_)sim_thread_affinity_of(y->simid)); } sim_stat("system_affinity", 1); y->m = y->m2; }
    /* refused by the system */
    int p0 = prio(y->self); u64_ a0 = aff(y->self); int rc, in; u64_ nm = inset(pmask); mkset(&c, nm); sp.sched_priority = R(31) - 15;
    sim_fault_arm(SIM_F_SET, 1, 9); rc = pthread_setschedparam(y->self, SCHED_OTHER, &sp); in = sim_fault_disarm(); CK(in ? rc == EINVAL : rc == 0, "priority-refused", "the system refused %d times: pthread_setschedparam -> %d", in, rc); if (!rc) p0 = sp.sched_priority;
    CK(prio(y->self) == p0, "priority-refused", "priority %d after a refused change, was %d", prio(y->self), p0); CK(sim_thread_winprio_of(y->simid) == clampp(p0), "priority-refused", "level %d after a refused change, priority %d", sim_thread_winprio_of(y->simid), p0);
    sim_fault_arm(R(2) ? SIM_F_SET : SIM_F_SYS, 1, 9); rc = pthread_setaffinity_np(y->self, sizeof c, &c); in = sim_fault_disarm(); CK(in ? rc == EAGAIN : rc == 0, "affinity-refused", "the system refused %d times: pthread_setaffinity_np -> %d", in, rc); if (!rc) a0 = nm;
    CK(aff(y->self) == a0 && sim_thread_affinity_of(y->simid) == a0, "affinity-refused", "affinity %llx, really %llx, after a refused change, was %llx", aff(y->self), (u64_)sim_thread_affinity_of(y->simid), a0); sim_stat("system_refused", 2);
    if (R(2)) { nm = inset(pmask); mkset(&c, nm); OK(pthread_setaffinity_np(y->self, sizeof c, &c), "setaffinity"); CK(aff(y->self) == nm && sim_thread_affinity_of(y->simid) == nm, "os-affinity", "affinity %llx reads %llx and really is %llx", nm, aff(y->self), (u64_)sim_thread_affinity_of(y->simid)); } }
  { int rc, in; u64_ own = sim_process_cpus(0); errno = 0; mkset(&c, inset(smask)); sim_fault_arm(R(2) ? SIM_F_SET : SIM_F_SYS, 1, 9); rc = sched_setaffinity(0, sizeof c, &c); in = sim_fault_disarm(); if (in) { CK(rc == -1 && errno == EAGAIN, "process-refused", "the system refused: sched_setaffinity -> %d errno %d", rc, errno); CK(sim_process_cpus(0) == own, "process-refused", "the process has %llx after a refused change, had %llx", (u64_)sim_process_cpus(0), own); }
    errno = 0; sim_fault_arm(SIM_F_SYS, 1, 9); rc = sched_getaffinity(0, sizeof c, &c); in = sim_fault_disarm(); if (in) CK(rc == -1 && errno == EAGAIN, "process-refused", "the system refused: sched_getaffinity -> %d errno %d", rc, errno); }
  for (int i = 0; i < n; i++) { Y[i].step = 3; WaitForSingleObject(Y[i].h, INFINITE); CloseHandle(Y[i].h); }
  sim_state(n * 64 + Y[0].kid_inh * 16 + Y[0].lev); sim_set_cpus(0xff, 0xff); mkset(&c, 0xff); OK(pthread_setaffinity_np(me, sizeof c, &c), "setaffinity");
}

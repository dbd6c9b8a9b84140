#include "wk.h"
#include <limits.h>
/* ---- deadlines: every timed operation against the virtual clock ----------- */
enum { T_MUTEX, T_ROBUST, T_COND, T_SEM, T_RD, T_WR, T_JOIN, T_NOP };
static const char *const TN[] = { "pthread_mutex_timedlock", "pthread_mutex_timedlock (robust)", "pthread_cond_timedwait", "sem_timedwait", "pthread_rwlock_timedrdlock", "pthread_rwlock_timedwrlock", "pthread_timedjoin_np" };
#define MS 10000LL
#define DAY (86400LL * 1000 * MS)
#define LATE (50 * MS)      /* generous bound on how late a time-out may be noticed in a quiet system */
static pthread_mutex_t tm, cm; static pthread_cond_t tc; static sem_t ts_; static pthread_rwlock_t tw; static int op, got; static volatile int granted, held; static volatile uint64_t grant_at, freed_at;
static void at(uint64_t t) { while (sim_now() < t) { uint64_t d = (t - sim_now()) / 10; sim_delay_us(d > 1000000000 ? 1000000000 : d ? (uint32_t)d : 1); } }
/* the holder keeps the resource until grant_at (0: until told) */
static HANDLE fin;
static void waitgrant(void) { if (grant_at == 1) WaitForSingleObject(fin, INFINITE); else at(grant_at); freed_at = sim_now(); }
static void *holder(void *v) {
  sim_label("deadline-holder");
  switch (op) {
  case T_MUTEX: case T_ROBUST: OK(pthread_mutex_lock(&tm), "lock"); held = 1; waitgrant(); OK(pthread_mutex_unlock(&tm), "unlock"); break;
  case T_COND: held = 1; waitgrant(); OK(pthread_mutex_lock(&cm), "lock"); granted = 1; OK(pthread_cond_signal(&tc), "signal"); OK(pthread_mutex_unlock(&cm), "unlock"); break;
  case T_SEM: held = 1; waitgrant(); OK(sem_post(&ts_), "post"); break;
  case T_RD: OK(pthread_rwlock_wrlock(&tw), "lock"); held = 1; waitgrant(); OK(pthread_rwlock_unlock(&tw), "unlock"); break;
  case T_WR: OK(R(2) ? pthread_rwlock_rdlock(&tw) : pthread_rwlock_wrlock(&tw), "lock"); held = 1; waitgrant(); OK(pthread_rwlock_unlock(&tw), "unlock"); break;
  case T_JOIN: held = 1; waitgrant(); break; }
  return v; }
static int timed(pthread_t h, struct timespec *t) {
  int rc = -9; void *v = NULL; got = 0;
  switch (op) {
  case T_MUTEX: case T_ROBUST: rc = pthread_mutex_timedlock(&tm, t); if (!rc) { got = 1; OK(pthread_mutex_unlock(&tm), "unlock"); } break;
  case T_COND: OK(pthread_mutex_lock(&cm), "lock"); rc = 0; while (!granted && rc == 0) rc = pthread_cond_timedwait(&tc, &cm, t); if (granted && rc == ETIMEDOUT) granted = 1; OK(pthread_mutex_unlock(&cm), "unlock"); break;
  case T_SEM: rc = sem_timedwait(&ts_, t); if (rc) { CK(rc == -1, "result", "sem_timedwait -> %d", rc); rc = errno; } else got = 1; break;
  case T_RD: rc = pthread_rwlock_timedrdlock(&tw, t); if (!rc) OK(pthread_rwlock_unlock(&tw), "unlock"); break;
  case T_WR: rc = pthread_rwlock_timedwrlock(&tw, t); if (!rc) OK(pthread_rwlock_unlock(&tw), "unlock"); break;
  case T_JOIN: rc = pthread_timedjoin_np(h, &v, t); if (!rc) { got = 1; CK(v == (void *)&op, "join", "value %p", v); } break; }
  return rc; }
static void settime(struct timespec *t, int64_t v100) { if (v100 < 0) v100 = 0; t->tv_sec = v100 / 10000000; t->tv_nsec = (int)(v100 % 10000000) * 100; }
WORKLOAD(timed_deadline) {
  pthread_mutexattr_t ma; pthread_t h; struct timespec t; int kind, calm = sim_calm(1);
  static int era; if (ep % 50 == 0) { static const int64_t E[] = { 0, 20LL * 365 * DAY, 100LL * 365 * DAY, 12LL * 365 * DAY }; int64_t to = E[(ep / 50) % 4] + (int64_t)R(1000000) * 10000 * MS; sim_wall_adjust((int64_t)1700000000 * 10000000 + to - (int64_t)sim_now()); era = (ep / 50) % 4; }
  op = R(T_NOP); grant_at = 0; granted = held = 0; freed_at = 0; fin = CreateEventA(NULL, 1, 0, NULL);
  OK(pthread_mutexattr_init(&ma), "init"); if (op == T_ROBUST) OK(pthread_mutexattr_setrobust(&ma, PTHREAD_MUTEX_ROBUST), "attr"); OK(pthread_mutexattr_settype(&ma, R(3)), "attr");
  OK(pthread_mutex_init(&tm, &ma), "init"); OK(pthread_mutexattr_destroy(&ma), "attr"); OK(pthread_mutex_init(&cm, NULL), "init"); OK(pthread_cond_init(&tc, NULL), "init"); OK(sem_init(&ts_, 0, 0), "init"); OK(pthread_rwlock_init(&tw, NULL), "init");
  kind = R(17) / 2; int64_t start = (int64_t)sim_now(), dl, sub = 0; struct timespec *tp = &t;
  switch (kind) {
  case 0: dl = start - 1 - R(3 * (int)MS); break;                                      /* just past */
  case 1: dl = R(2) ? start : R(2) ? (int64_t)R(1000) : start - 1000 * DAY; break;       /* now, the epoch, long past */
  case 2: dl = start + 1 + R(3 * (int)MS); sub = R(100); break;                       /* less than three milliseconds ahead */
  case 3: case 4: dl = start + R(2000) * MS / 1 + R((int)MS); break;
  case 5: dl = start + R(40) * DAY + R(1000) * MS; break;
  case 6: dl = start + (50LL + R(20000)) * DAY; break;                                 /* further than the system call can wait */
  case 8: dl = start + (4294967293LL + R(5)) * MS - (R(2) ? R((int)MS) : 0); break; /* where the distance in milliseconds does not fit or means for ever */
  default: dl = INT64_MAX; break; }
  if (dl < INT64_MAX) { settime(&t, dl); t.tv_nsec += (int)sub; if (sub) dl++; } else if (R(2) && (op == T_MUTEX || op == T_ROBUST || op == T_SEM || op == T_JOIN)) tp = NULL; else { static const int64_t S[] = { 9223372036LL, 9223372037LL, 9300000000LL, 18446744073LL, 18446744075LL, 253402300799LL, INT64_MAX / 1000000000 * 7, INT64_MAX / 2, INT64_MAX }; t.tv_sec = S[R(NELEM(S))]; t.tv_nsec = R(2) ? 999999999 : 0; }
  /* when the resource becomes available */
  int64_t lim = dl - start > 45 * DAY ? 45 * DAY : dl - start; int avail = R(8) == 0;
  if (!avail) grant_at = kind >= 5 || R(2) ? (kind >= 5 && kind != 6 && dl < INT64_MAX && R(2) ? 1 : kind < 5 && R(2) ? 1 : (uint64_t)(start + 1 + (lim > 0 ? (int64_t)(((uint64_t)sim_rand(1u << 30) << 20 | sim_rand(1 << 20)) % (uint64_t)lim) : 0))) : 1;
  if (kind == 8) { avail = 0; grant_at = 1; }
  if (avail) grant_at = (uint64_t)start;
  OK(pthread_create(&h, NULL, holder, (void *)&op), "create"); if (!avail) { while (!held) sim_yield(); } sim_settle();
  uint64_t t0 = sim_now(); int rc = timed(h, tp); int64_t t1 = (int64_t)sim_now();
  CK(rc == 0 || rc == ETIMEDOUT, "result", "%s -> %d", TN[op], rc);
  if (rc == ETIMEDOUT) { sim_stat("timed_out", 1);
    CK(t1 >= dl || (kind == 8 && t1 >= (int64_t)t0 + 4294967294LL * MS), "early-timeout", "%s timed out %lld ns before its deadline (call made %lld us before it, deadline class %d)", TN[op], (long long)(dl - t1) * 100, (long long)(dl - (int64_t)t0) / 10, kind);
    CK(!avail || op == T_COND, "available", "%s timed out although the object was available all the time", TN[op]);
    CK(t1 <= (dl > (int64_t)t0 ? dl : (int64_t)t0) + LATE, "late-timeout", "%s timed out %lld ms after its deadline", TN[op], (long long)(t1 - dl) / MS);
    if (freed_at) CK((int64_t)freed_at + LATE >= (dl > (int64_t)t0 ? dl : (int64_t)t0) || t1 <= (int64_t)freed_at + LATE, "missed-grant", "%s timed out although the object had become available %lld ms earlier", TN[op], (long long)(t1 - (int64_t)freed_at) / MS);
  } else { sim_stat("granted", 1); if (kind >= 6) sim_stat("far_deadlines_granted", 1); CK(freed_at || avail, "grant", "%s succeeded although the object was not available", TN[op]); CK(t1 >= (int64_t)freed_at, "grant", "%s succeeded before the object was available", TN[op]); CK(t1 <= (int64_t)(freed_at > t0 ? freed_at : t0) + LATE, "late-grant", "%s returned %lld ms after the object became available", TN[op], (long long)(t1 - (int64_t)freed_at) / MS); }
  if (kind <= 1) CK(t1 - (int64_t)t0 <= LATE, "past-deadline", "%s with a past deadline took %lld ms", TN[op], (long long)(t1 - (int64_t)t0) / MS);
  SetEvent(fin); if (!(op == T_JOIN && got)) wk_join(h); CloseHandle(fin);
  OK(pthread_mutex_destroy(&tm), "destroy"); OK(pthread_mutex_destroy(&cm), "destroy"); OK(pthread_cond_destroy(&tc), "destroy"); int v = -1; OK(sem_getvalue(&ts_, &v), "getvalue"); CK(v == (op == T_SEM && !got), "sem-value", "semaphore value %d after a timed wait -> %d and one post", v, rc); OK(sem_destroy(&ts_), "destroy"); OK(pthread_rwlock_destroy(&tw), "destroy");
  sim_state(op * 8 + kind + (rc ? 64 : 0) + era * 128); sim_calm(calm);
}
/* ---- pthread_delay_np and pthread_win32_getabstime_np --------------------- */
WORKLOAD(timed_delay) {
  struct timespec iv, ab, *rp; int calm = sim_calm(1);
  static const int64_t SEC[] = { 0, 0, 0, 1, 5, 86400, 2147482, 2147483, 2147484, 3000000, 4294966, 4294967, 4294968, 4294969, 8589935, 1LL << 31, 1LL << 32, (1LL << 32) + 5, 1LL << 40, -1, INT64_MAX / 1000 + 7 };
  static const int NS[] = { 0, 1, 100, 999999, 1000000, 1000001, 500000000, 647000000, 999000000, 999000001, 999999999 };
  iv.tv_sec = SEC[R(NELEM(SEC))]; iv.tv_nsec = NS[R(NELEM(NS))]; if (iv.tv_sec < 0) iv.tv_nsec = 0;
  int dis = R(2); if (dis) OK(pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, NULL), "state");
  uint64_t t0 = sim_mono(); int rc = pthread_delay_np(&iv); uint64_t el = sim_mono() - t0; /* 100 ns units */
  if (dis) OK(pthread_setcancelstate(PTHREAD_CANCEL_ENABLE, NULL), "state");
  if (rc == 0) { CK(iv.tv_sec >= 0, "delay-result", "a negative delay was accepted"); uint64_t want = (uint64_t)iv.tv_sec * 10000000 + (iv.tv_nsec + 99) / 100;
    CK(iv.tv_sec < 1LL << 40 && el >= want, "delay-short", "pthread_delay_np(%lld s + %d ns) took only %llu us", (long long)iv.tv_sec, (int)iv.tv_nsec, (unsigned long long)el / 10); CK(el <= want + LATE, "delay-long", "pthread_delay_np(%lld s + %d ns) took %llu us", (long long)iv.tv_sec, (int)iv.tv_nsec, (unsigned long long)el / 10); sim_stat("delays", 1); }
  else { CK(rc == EINVAL && (iv.tv_sec < 0 || iv.tv_sec >= 2147483), "delay-result", "pthread_delay_np(%lld s + %d ns) -> %d", (long long)iv.tv_sec, (int)iv.tv_nsec, rc); CK(el <= LATE, "delay-result", "a refused delay took time"); sim_stat("delays_refused", 1); }
  EQ(pthread_delay_np(NULL), EINVAL, "delay-result");
  static const int64_t E[] = { 0, 14LL * 365 * DAY, 100LL * 365 * DAY }; sim_wall_adjust((int64_t)1700000000 * 10000000 + E[R(3)] + R(10000000) - (int64_t)sim_now());
  rp = R(4) ? &iv : NULL; iv.tv_sec = R(3) ? R(100000) : (int64_t)R(1000000) * 100000; iv.tv_nsec = NS[R(NELEM(NS))];
  if (R(3) == 0) { int z = (int)((int64_t)sim_now() % 10000000) * 100; iv.tv_nsec = z ? 1000000000 - z - (R(3) == 0) : 0; } /* to, or just short of, the full second */
  memset(&ab, 0x55, sizeof ab);
  CK(pthread_win32_getabstime_np(&ab, rp) == &ab, "abstime", "returned another pointer"); int64_t now = (int64_t)sim_now();
  CK(ab.tv_nsec >= 0 && ab.tv_nsec < 1000000000, "abstime", "nanoseconds %d", (int)ab.tv_nsec); int64_t s = now / 10000000, n = now % 10000000 * 100; if (rp) { s += iv.tv_sec; n += iv.tv_nsec; if (n >= 1000000000) { n -= 1000000000; s++; } }
  CK(ab.tv_sec == s && ab.tv_nsec == n, "abstime", "now %lld.%09d + %lld.%09d gave %lld.%09d", (long long)(now / 10000000), (int)(now % 10000000 * 100), rp ? (long long)iv.tv_sec : 0, rp ? (int)iv.tv_nsec : 0, (long long)ab.tv_sec, (int)ab.tv_nsec);
  sim_state((uint64_t)iv.tv_nsec + (uint64_t)(rc != 0) + 2 * (iv.tv_sec % 1000)); sim_calm(calm); sim_stat("abstimes", 1);
}

#include "wk_pup.h"
#include "wk_age.h"
/* ---- readers/writer exclusion, no lost updates, progress ------------------ */
static pthread_rwlock_t RW; static volatile int rd_in, wr_in, shared_a, shared_b, wr_cnt; static int canceled;
typedef struct { int id, iters, cancelable; int w; volatile int waiting; } rwa;
static void rd_body(int id) { CK(wr_in == 0, "exclusion", "reader %d inside together with a writer", id); sim_add(&rd_in, 1); int a = shared_a; sim_user_point(); if (R(4) == 0) sim_yield(); int b = shared_b; CK(a == b, "torn-read", "reader saw %d/%d", a, b); CK(wr_in == 0, "exclusion", "a writer entered while reader %d was inside", id); sim_stat(rd_in > 1 ? "parallel_readers" : "single_reader", 1); sim_add(&rd_in, -1); }
static void wr_body(int id) { CK(wr_in == 0 && rd_in == 0, "exclusion", "writer %d entered with %d writers and %d readers inside", id, wr_in, rd_in); wr_in = 1; int a = shared_a; shared_a = a + 1; sim_user_point(); if (R(4) == 0) sim_yield(); shared_b = a + 1; wr_cnt++; CK(wr_in == 1 && rd_in == 0, "exclusion", "writer %d was not alone", id); wr_in = 0; }
static void *rwthr(void *v) {
  rwa *a = (rwa *)v; sim_label("rw-thread"); struct timespec ts; int rc, w;
  for (int i = 0; i < a->iters; i++) {
    w = 0; rc = 0;
    switch (R(6)) {
      case 0: rc = pthread_rwlock_rdlock(&RW); CK(rc == 0, "result", "rdlock -> %d", rc); break;
      case 1: w = 1; a->waiting = 1; rc = pthread_rwlock_wrlock(&RW); a->waiting = 0; CK(rc == 0, "result", "wrlock -> %d", rc); break;
      case 2: rc = pthread_rwlock_tryrdlock(&RW); CK(rc == 0 || rc == EBUSY, "result", "tryrdlock -> %d", rc); break;
      case 3: w = 1; rc = pthread_rwlock_trywrlock(&RW); CK(rc == 0 || rc == EBUSY, "result", "trywrlock -> %d", rc); break;
      case 4: wk_abs(&ts, R(3) ? R(30000) : -R(1000000)); rc = pthread_rwlock_timedrdlock(&RW, &ts); CK(rc == 0 || rc == ETIMEDOUT, "result", "timedrdlock -> %d", rc); break;
      case 5: w = 1; wk_abs(&ts, R(3) ? R(30000) : -R(1000000)); a->waiting = 1; rc = pthread_rwlock_timedwrlock(&RW, &ts); a->waiting = 0; CK(rc == 0 || rc == ETIMEDOUT, "result", "timedwrlock -> %d", rc); break;
    }
    if (rc == 0) { if (w) { wr_body(a->id); a->w++; } else rd_body(a->id);
      if (R(5) == 0) { if (w) wr_in = 1; else sim_add(&rd_in, 1); sim_delay_us(R(15000)); if (w) { CK(wr_in == 1 && rd_in == 0, "exclusion", "writer %d not alone", a->id); wr_in = 0; } else { CK(wr_in == 0, "exclusion", "writer entered while reader %d held the lock", a->id); sim_add(&rd_in, -1); } }
      OK(pthread_rwlock_unlock(&RW), "unlock"); }
    else sim_stat("rw_busy", 1);
  }
  return v;
}
WORKLOAD(rw_stress) {
  pthread_t t[6]; static rwa a[6]; int n = 2 + R(4); pthread_rwlock_t s = PTHREAD_RWLOCK_INITIALIZER;
  rd_in = wr_in = shared_a = shared_b = wr_cnt = canceled = 0; int st = R(3) == 0; if (st) RW = s; else { OK(pthread_rwlock_init(&RW, NULL), "init"); if (R(3) == 0) age_rwlock(&RW); }
  int cx = R(3) == 0;
  for (int i = 0; i < n; i++) { memset(&a[i], 0, sizeof a[i]); a[i].id = i; a[i].iters = 1 + R(6); wk_spawn(&t[i], rwthr, &a[i]); }
  if (cx) { /* cancel threads that may be waiting for the write lock (deferred cancellation only) */
    for (int k = 0; k < 4; k++) { int i = R(n); sim_delay_us(R(4000)); int rc = pthread_cancel(t[i]); CK(rc == 0 || rc == ESRCH, "cancel", "cancel -> %d", rc); if (a[i].waiting) sim_stat("cancel_in_wrlock", 1); } }
  for (int i = 0; i < n; i++) { void *r = wk_join(t[i]); CK(r == (void *)&a[i] || (cx && r == PTHREAD_CANCELED), "join", "join value %p", r); if (r == PTHREAD_CANCELED) { canceled++; sim_stat("cancelled_threads", 1); } }
  int s2 = 0; for (int i = 0; i < n; i++) s2 += a[i].w;
  CK(shared_a == s2 && shared_b == s2, "lost-update", "%d write sections but counters %d/%d", s2, shared_a, shared_b);
  CK(wr_in == 0 && rd_in == 0, "harness", "%d %d", wr_in, rd_in); sim_state(n + 8 * canceled + 64 * s2);
  OK(pthread_rwlock_trywrlock(&RW), "free-at-end"); OK(pthread_rwlock_unlock(&RW), "free-at-end");
  OK(pthread_rwlock_tryrdlock(&RW), "free-at-end"); EQ(pthread_rwlock_trywrlock(&RW), EBUSY, "try-held"); EQ(pthread_rwlock_destroy(&RW), EBUSY, "destroy-held"); OK(pthread_rwlock_tryrdlock(&RW), "second-reader"); OK(pthread_rwlock_unlock(&RW), "free-at-end"); EQ(pthread_rwlock_trywrlock(&RW), EBUSY, "try-held"); OK(pthread_rwlock_unlock(&RW), "free-at-end");
  OK(pthread_rwlock_destroy(&RW), "destroy"); EQ(pthread_rwlock_rdlock(&RW), EINVAL, "use-after-destroy");
}
/* ---- sequential model: who may hold, who may block ------------------------ */
static pthread_rwlock_t RM_; static int rheld[MAXPUP], wheld[MAXPUP], want[MAXPUP]; /* want: 0 none 1 read 2 write */ static int64_t wdl[MAXPUP];
static int q_rd(pup *p) { (void)p; return pthread_rwlock_rdlock(&RM_); }
static int q_wr(pup *p) { (void)p; return pthread_rwlock_wrlock(&RM_); }
static int q_trd(pup *p) { (void)p; return pthread_rwlock_tryrdlock(&RM_); }
static int q_twr(pup *p) { (void)p; return pthread_rwlock_trywrlock(&RM_); }
static void ts_of(struct timespec *t, int64_t v) { t->tv_sec = v / 10000000; t->tv_nsec = (int)(v % 10000000) * 100; }
static int q_mrd(pup *p) { struct timespec ts; ts_of(&ts, p->a[0]); return pthread_rwlock_timedrdlock(&RM_, &ts); }
static int q_mwr(pup *p) { struct timespec ts; ts_of(&ts, p->a[0]); return pthread_rwlock_timedwrlock(&RM_, &ts); }
static int q_un(pup *p) { (void)p; return pthread_rwlock_unlock(&RM_); }
static int q_de(pup *p) { (void)p; return pthread_rwlock_destroy(&RM_); }
static void rw_scan(int n) {
  int nr = 0, nw = 0, br = 0, bw = 0;
  for (int i = 0; i < n; i++) { if (want[i] && !PUP[i].busy) { if (PUP[i].rc == ETIMEDOUT && wdl[i]) { CK(PUP[i].t1 + 10000 >= (uint64_t)wdl[i], "timeout", "rwlock timed out %lld us early", (long long)(wdl[i] - (int64_t)PUP[i].t1) / 10); sim_stat("rw_timeouts", 1); } else { CK(PUP[i].rc == 0, "result", "blocked rwlock request returned %d", PUP[i].rc); if (want[i] == 1) rheld[i]++; else wheld[i]++; sim_stat("rw_granted_later", 1); } want[i] = 0; }
    if (want[i] && wdl[i]) CK(sim_now() < (uint64_t)wdl[i] + 30000, "timeout", "timed rwlock request still blocked %lld us after its deadline", (long long)((int64_t)sim_now() - wdl[i]) / 10); }
  for (int i = 0; i < n; i++) { nr += rheld[i]; nw += wheld[i]; if (want[i] == 1) br++; if (want[i] == 2) bw++; }
  CK(nw <= 1 && !(nw && nr), "exclusion", "%d writers and %d readers hold the lock", nw, nr);
  CK(!(nw == 0 && nr == 0 && (br || bw)), "progress", "lock free but %d readers and %d writers stay blocked", br, bw);
  CK(!(nw == 0 && bw == 0 && br), "progress", "%d readers blocked although no writer holds or waits (%d readers hold)", br, nr);
}
WORKLOAD(rw_model) {
  sim_calm(1); int n = 2 + R(4); pthread_rwlock_t s = PTHREAD_RWLOCK_INITIALIZER; if (R(3) == 0) RM_ = s; else OK(pthread_rwlock_init(&RM_, NULL), "init");
  memset(rheld, 0, sizeof rheld); memset(wheld, 0, sizeof wheld); memset(want, 0, sizeof want); memset(wdl, 0, sizeof wdl);
  pup_start(n); uint64_t h = 1469598103934665603ull;
  for (int st = 0, ops = 5 + R(30); st < ops; st++) {
    int i = R(n); pup *p = &PUP[i];
    if (p->busy) { if (R(3) == 0) { pup_pass(5000 + R(60000)); rw_scan(n); } continue; }
    int nr = 0, nw = 0, bw = 0; for (int j = 0; j < n; j++) { nr += rheld[j]; nw += wheld[j]; bw += want[j] == 2; }
    int op = R(9); h = (h ^ (op + 16 * i)) * 1099511628211ull;
    if (wheld[i] || (rheld[i] && R(2))) { /* release */ CK(pup_do(p, q_un) && p->rc == 0, "unlock", "unlock -> %d busy %d", p->rc, p->busy); if (wheld[i]) wheld[i]--; else rheld[i]--; rw_scan(n); continue; }
    if (rheld[i] && op != 2 && op != 3) continue; /* a holder only uses try operations: the script must not deadlock itself */
    int dn; wdl[i] = 0;
    switch (op) {
      case 0: case 1: case 8: dn = pup_do(p, op == 1 ? q_wr : q_rd); if (dn) { CK(p->rc == 0, "result", "lock -> %d", p->rc); if (op == 1) wheld[i]++; else rheld[i]++; } else { want[i] = op == 1 ? 2 : 1; CK(op == 1 ? nr + nw + bw > 0 : nw + bw > 0, "progress", "%s blocked with %d readers %d writers %d waiting writers", op == 1 ? "wrlock" : "rdlock", nr, nw, bw); } break;
      case 2: dn = pup_do(p, q_trd); CK(dn && (p->rc == 0 || p->rc == EBUSY), "result", "tryrdlock -> %d", p->rc); if (p->rc == 0) rheld[i]++; else CK(nw || bw, "try-free", "tryrdlock EBUSY although no writer holds or waits"); break;
      case 3: dn = pup_do(p, q_twr); CK(dn && (p->rc == 0 || p->rc == EBUSY), "result", "trywrlock -> %d", p->rc); if (p->rc == 0) wheld[i]++; else CK(nw || nr || bw, "try-free", "trywrlock EBUSY although the lock is free"); break;
      case 4: case 5: { int past = R(3) == 0; p->a[0] = (int64_t)sim_now() + (past ? -(int64_t)R(20000000) : 10000 * (1 + R(40))); wdl[i] = p->a[0]; dn = pup_do(p, op == 5 ? q_mwr : q_mrd);
        if (dn) { CK(p->rc == 0 || (p->rc == ETIMEDOUT && (op == 5 ? nr + nw + bw : nw + bw)), "result", "timed %s -> %d with %d readers %d writers %d waiting writers", op == 5 ? "wrlock" : "rdlock", p->rc, nr, nw, bw); if (p->rc == ETIMEDOUT) CK(p->t1 + 10000 >= (uint64_t)p->a[0], "timeout", "timed lock returned ETIMEDOUT early"); else { if (op == 5) wheld[i]++; else rheld[i]++; } }
        else { CK(!past, "timeout", "timed lock with a past deadline blocked"); want[i] = op == 5 ? 2 : 1; CK(op == 5 ? nr + nw + bw > 0 : nw + bw > 0, "progress", "timed lock blocked on an available lock"); } break; }
      case 6: pup_pass(R(40000)); break;
      case 7: if (nw || bw) break; { int br = 0; for (int j = 0; j < n; j++) br += want[j] == 1; if (br) break; } dn = pup_do(p, q_de); if (nr) CK(dn && p->rc == EBUSY, "destroy-held", "destroy of a read-locked rwlock -> %d", p->rc); else { CK(dn && p->rc == 0, "destroy", "destroy of a free rwlock -> %d", p->rc); if (R(2)) RM_ = s; else OK(pthread_rwlock_init(&RM_, NULL), "init"); } break;
    }
    rw_scan(n);
  }
  sim_state(h);
  for (int r = 0; r < 60; r++) { int any = 0; for (int i = 0; i < n; i++) if (!PUP[i].busy && (rheld[i] || wheld[i])) { any = 1; CK(pup_do(&PUP[i], q_un) && PUP[i].rc == 0, "unlock", "unlock -> %d", PUP[i].rc); if (wheld[i]) wheld[i]--; else rheld[i]--; rw_scan(n); } if (!any) break; }
  for (int i = 0; i < n; i++) CK(!PUP[i].busy, "progress", "request still blocked after everybody released");
  OK(pthread_rwlock_destroy(&RM_), "destroy"); pup_stop();
}
/* ---- a lock that has been read-locked billions of times ---------------------- */
static volatile int ag_in;
static void *ag_wr(void *v) { int rc; if (R(2)) rc = pthread_rwlock_wrlock(&RW); else { struct timespec ts; wk_abs(&ts, 60000000); rc = pthread_rwlock_timedwrlock(&RW, &ts); } CK(rc == 0, "result", "wrlock -> %d", rc); ag_in = 1; OK(pthread_rwlock_unlock(&RW), "unlock"); return v; }
WORKLOAD(rw_aged) {
  pthread_t w; OK(pthread_rwlock_init(&RW, NULL), "init"); age_rwlock(&RW); sim_calm(1);
  for (int round = 0, m = 1 + R(4); round < m; round++) {
    int h = 0, top = 1 + R(5), cxl = R(4) == 0;
    for (int k = 0, ops = top + R(6); k < ops; k++) {
      if (h == 0 || R(3)) { struct timespec ts; wk_abs(&ts, 1000); int how = R(3), rc = how == 0 ? pthread_rwlock_rdlock(&RW) : how == 1 ? pthread_rwlock_tryrdlock(&RW) : pthread_rwlock_timedrdlock(&RW, &ts); CK(rc == 0, "reader-kept-out", "read lock (how %d) with %d readers and no writer -> %d", how, h, rc); h++; }
      else { OK(pthread_rwlock_unlock(&RW), "unlock"); h--; }
      if (h && R(3) == 0) EQ(pthread_rwlock_trywrlock(&RW), EBUSY, "exclusion"); if (h && R(6) == 0) EQ(pthread_rwlock_destroy(&RW), EBUSY, "destroy-held");
      if (h && R(6) == 0) { struct timespec ts; wk_abs(&ts, 2000); EQ(pthread_rwlock_timedwrlock(&RW, &ts), ETIMEDOUT, "exclusion"); } }
    ag_in = 0; int joined = 0; wk_spawn(&w, ag_wr, NULL); sim_settle(); CK(!h || !ag_in, "exclusion", "a writer entered with %d readers inside", h);
    if (cxl && h) { joined = 1; OK(pthread_cancel(w), "cancel"); void *r = wk_join(w); CK(r == PTHREAD_CANCELED && !ag_in, "cancel", "join %p", r); }
    while (h) { CK(!ag_in, "exclusion", "a writer entered with %d readers inside", h); OK(pthread_rwlock_unlock(&RW), "unlock"); h--; if (R(2)) sim_settle(); }
    if (!joined) { sim_settle(); CK(ag_in, "progress", "the writer stays blocked although the lock is free"); wk_join(w); }
    OK(pthread_rwlock_trywrlock(&RW), "free-at-end"); OK(pthread_rwlock_unlock(&RW), "unlock");
    if (R(3) == 0) { OK(pthread_rwlock_destroy(&RW), "destroy"); OK(pthread_rwlock_init(&RW, NULL), "init"); age_rwlock(&RW); } }
  OK(pthread_rwlock_destroy(&RW), "destroy"); sim_state(1);
}
/* many readers at the moment the counters of an old lock are folded; most are impatient */
static volatile int ovr, ovw;
static void *ov_rd(void *v) { struct timespec ts; for (int i = 0, n = 2 + R(4); i < n; i++) { int rc, how = R(5);
    if (how == 0) rc = pthread_rwlock_rdlock(&RW); else if (how == 1) rc = pthread_rwlock_tryrdlock(&RW); else { wk_abs(&ts, R(2) ? -1000 : (int)R(60)); rc = pthread_rwlock_timedrdlock(&RW, &ts); }
    if (rc == 0) { sim_add(&ovr, 1); CK(!ovw, "exclusion", "a reader entered beside a writer"); wk_work(R(4)); CK(!ovw, "exclusion", "a writer entered beside a reader"); sim_add(&ovr, -1); OK(pthread_rwlock_unlock(&RW), "unlock"); }
    else { CK(how == 1 ? rc == EBUSY : how > 1 && rc == ETIMEDOUT, "result", "read lock (how %d) -> %d", how, rc); sim_stat("impatient", 1); } }
  return v; }
static void *ov_wr(void *v) { struct timespec ts; for (int i = 0, n = 1 + R(2); i < n; i++) { int rc; if (R(2)) wk_work(R(6)); if (R(3)) rc = pthread_rwlock_wrlock(&RW); else { wk_abs(&ts, R(200)); rc = pthread_rwlock_timedwrlock(&RW, &ts); if (rc == ETIMEDOUT) continue; } CK(rc == 0, "result", "write lock -> %d", rc);
    CK(sim_add(&ovw, 1) == 1 && !ovr, "exclusion", "a writer entered beside %d readers and %d writers", ovr, ovw - 1); wk_work(R(3)); CK(ovw == 1 && !ovr, "exclusion", "%d readers beside a writer", ovr); sim_add(&ovw, -1); OK(pthread_rwlock_unlock(&RW), "unlock"); }
  return v; }
WORKLOAD(rw_folding) {
  pthread_t t[6]; OK(pthread_rwlock_init(&RW, NULL), "init"); ovr = ovw = 0;
  for (int rd = 0, m = 1 + R(3); rd < m; rd++) { int n = 2 + R(3), w = R(3) ? 1 : 0; age_rwlock(&RW); for (int i = 0; i < n; i++) wk_spawn(&t[i], ov_rd, NULL); if (w) wk_spawn(&t[n], ov_wr, NULL); for (int i = 0; i < n + w; i++) wk_join(t[i]);
    OK(pthread_rwlock_trywrlock(&RW), "free-at-end"); EQ(pthread_rwlock_tryrdlock(&RW), EBUSY, "exclusion"); OK(pthread_rwlock_unlock(&RW), "unlock"); OK(pthread_rwlock_tryrdlock(&RW), "free-at-end"); EQ(pthread_rwlock_trywrlock(&RW), EBUSY, "exclusion"); OK(pthread_rwlock_unlock(&RW), "unlock");
    if (R(3) == 0) { OK(pthread_rwlock_destroy(&RW), "destroy"); OK(pthread_rwlock_init(&RW, NULL), "init"); } sim_state(n * 2 + w); }
  OK(pthread_rwlock_destroy(&RW), "destroy");
}

#include "wk.h"
/* ---- thread life cycle: every created thread runs its routine once with its
 * argument; join delivers its value after everything it did (handlers and key
 * destructors included); detached and joined threads release everything; an id
 * whose thread is gone never designates another thread ----------------------- */
#define NT 24
enum { J_DRIVER, J_OTHER, J_DETACH, J_SELF, J_ATTR, J_TRY, J_TIMED, J_LAST };
enum { F_RETURN, F_EXIT, F_CANCEL, F_LAST };
typedef struct { int id, how, fate, dly, hdly, kdly, kid, joiner; pthread_t th; void *val; volatile int started, body, handler, destr, joined, made, cancelled; int inject; unsigned long long uq; } rec;
static rec T[NT]; static int nrec, maxrec; static pthread_key_t key;
static void pause_us(int us) { if (us > 0) sim_delay_us(us); else if (us < 0) wk_work(-us); }
static int rnd_pause(void) { int r = R(4); return r == 0 ? 1 + R(3000) : r == 1 ? -R(6) : 0; }
static void kd(void *v) { rec *r = (rec *)v; CK(r->body && r->handler, "destructor-order", "key destructor of thread %d before its body or its cleanup handler was over", r->id); pause_us(r->kdly); sim_add(&r->destr, 1); }
static void ch(void *v) { rec *r = (rec *)v; CK(r->body, "handler-early", "cleanup handler before the end of the body"); pause_us(r->hdly); sim_add(&r->handler, 1); }
static void *body(void *v);
static void make(int i) {
  rec *r = &T[i]; pthread_attr_t a; int useattr = r->how == J_ATTR || R(4) == 0;
  if (useattr) { OK(pthread_attr_init(&a), "attr"); if (r->how == J_ATTR) OK(pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED), "attr"); }
  pthread_t id; OK(pthread_create(&id, useattr ? &a : NULL, body, r), "create"); r->th = id; r->made = 1;
  if (useattr) OK(pthread_attr_destroy(&a), "attr");
}
static void finished_check(rec *r, const char *who) {
  CK(r->started == 1, "ran-once", "thread %d ran %d times when %s returned", r->id, r->started, who);
  CK(r->body == 1 && r->handler == 1 && r->destr == 1, "join-complete", "%s returned before thread %d was over (body %d, handler %d, destructor %d)", who, r->id, r->body, r->handler, r->destr); }
static void stale(rec *r) { /* joined: the id must be dead for good */
  int k = R(6), rc;
  switch (k) {
  case 0: rc = pthread_join(r->th, NULL); break; case 1: rc = pthread_detach(r->th); break; case 2: rc = pthread_cancel(r->th); break; case 3: rc = pthread_kill(r->th, 0); break;
  case 4: rc = pthread_tryjoin_np(r->th, NULL); break; default: { struct timespec ts; wk_abs(&ts, -10); rc = pthread_timedjoin_np(r->th, NULL, &ts); } }
  CK(rc == ESRCH, "stale-id", "operation %d on the id of a joined thread -> %d, expected ESRCH", k, rc); sim_stat("stale_ids", 1); }
static int unjoinable(pthread_t t) { /* any operation that is for joinable threads only */
  void *v; struct timespec ts; wk_abs(&ts, R(3) * 1000 - 1000);
  switch (R(4)) { case 0: return pthread_join(t, &v); case 1: return pthread_detach(t); case 2: return pthread_tryjoin_np(t, &v); default: return pthread_timedjoin_np(t, &v, R(4) ? &ts : NULL); } }
static void dojoin(rec *r, int how) {
  void *v = (void *)1; int rc;
  if (how == J_TRY) { int k; for (k = 0; (rc = pthread_tryjoin_np(r->th, &v)) == EBUSY && k < 40; k++) { if (k & 1) sim_delay_us(200); } if (rc == EBUSY) rc = pthread_join(r->th, &v); }
  else if (how == J_TIMED) { do { struct timespec ts; int us = R(3) ? R(3000) : -R(3000); wk_abs(&ts, us); rc = pthread_timedjoin_np(r->th, &v, &ts); if (rc == ETIMEDOUT) { sim_stat("join_timeouts", 1); CK(sim_now() + 10000 >= (uint64_t)wk_ts100(&ts), "early-timeout", "timed join timed out %lld00 ns before its deadline", (long long)(wk_ts100(&ts) - (int64_t)sim_now())); } } while (rc == ETIMEDOUT); }
  else rc = pthread_join(r->th, &v);
  CK(rc == 0, "join", "join of thread %d (kind %d) -> %d", r->id, how, rc);
  sim_add(&r->joined, 1); finished_check(r, "join");
  void *ex = r->cancelled ? PTHREAD_CANCELED : r->val; CK(v == ex, "join-value", "thread %d: join gave %p, its value was %p", r->id, v, ex);
  stale(r); sim_stat("joins", 1);
}
static void *body(void *v) {
  rec *r = (rec *)v; int s = sim_add(&r->started, 1); CK(s == 1, "ran-once", "thread %d runs for the %dth time", r->id, s); CK(r >= T && r < T + nrec, "argument", "wrong argument %p", v); sim_label("thr"); r->uq = pthread_getunique_np(pthread_self());
  OK(pthread_setspecific(key, r), "setspecific");
  pthread_cleanup_push(ch, r);
  if (R(2)) wk_work(R(4));
  if (r->kid) { make(r->kid); }
  pause_us(r->dly);
  if (r->how == J_SELF) OK(pthread_detach(pthread_self()), "detach-self");
  if (r->joiner) { rec *o = &T[r->joiner]; while (!o->made) sim_delay_us(50);  /* joining is a cancellation point */ dojoin(o, o->how == J_OTHER ? (R(2) ? J_DRIVER : R(2) ? J_TRY : J_TIMED) : J_DRIVER); }
  sim_add(&r->body, 1);
  if (r->fate == F_EXIT) { pthread_exit(r->val); }
  if (r->fate == F_CANCEL) { r->cancelled = 1; OK(pthread_cancel(pthread_self()), "cancel-self"); pthread_testcancel(); CK(0, "cancel-self", "thread survived its cancellation"); }
  pthread_cleanup_pop(1);
  return r->val;
}
WORKLOAD(thread_life) {
  int n = 2 + R(9); memset(T, 0, sizeof T); nrec = n; OK(pthread_key_create(&key, kd), "key"); int base = sim_live_handles(); (void)base;
  for (int i = 0; i < n; i++) { rec *r = &T[i]; r->id = i; r->how = R(J_LAST); if (r->how == J_OTHER) r->how = J_DRIVER; r->fate = R(F_LAST); r->dly = rnd_pause(); r->hdly = rnd_pause(); r->kdly = rnd_pause(); r->val = (void *)(size_t)(0x1000 + i * 16 + R(16)); if (R(8) == 0) r->val = NULL; }
  /* some threads are created by others (a later index by an earlier one), some joined by others */
  int made_by[NT]; memset(made_by, 0, sizeof made_by);
  for (int i = 1; i < n; i++) if (R(3) == 0) { int p = R(i); if (!T[p].kid) { T[p].kid = i; made_by[i] = 1; } }
  for (int i = 0; i < n; i++) if (R(3) == 0) { int o = R(n); if (o > i && (T[o].how == J_DRIVER || T[o].how == J_TRY || T[o].how == J_TIMED)) { T[o].how = J_OTHER; T[i].joiner = o; } }
  for (int i = 0; i < n; i++) if (!made_by[i]) { make(i); if (R(3) == 0) sim_yield(); }
  for (int q = 0, k = R(n); q < n; q++) { int i = (k + q) % n; rec *r = &T[i]; while (!r->made) sim_delay_us(50);
    switch (r->how) { case J_DRIVER: case J_TRY: case J_TIMED: if (R(3) == 0) sim_delay_us(R(4000)); dojoin(r, r->how); break;
    case J_DETACH: if (R(2)) sim_delay_us(R(4000)); OK(pthread_detach(r->th), "detach"); sim_stat("detaches", 1); if (R(2)) { int rc = unjoinable(r->th); CK(rc == EINVAL || rc == ESRCH, "detach-again", "join or detach of a detached thread -> %d", rc); } break;
    case J_ATTR: if (R(2)) { if (R(2)) sim_delay_us(R(4000)); int rc = unjoinable(r->th); CK(rc == EINVAL || rc == ESRCH, "detached-created", "join or detach of a thread created detached -> %d", rc); } break;
    default: break; } }
  sim_quiesce();
  for (int i = 0; i < n; i++) { rec *r = &T[i]; finished_check(r, "quiescence"); CK(r->joined == (r->how == J_OTHER || r->how == J_DRIVER || r->how == J_TRY || r->how == J_TIMED), "join-count", "thread %d joined %d times", i, r->joined);
    if (!r->joined) { int rc = pthread_kill(r->th, 0); CK(rc == ESRCH, "stale-id", "kill(0) of a detached thread that is gone -> %d", rc); } }
  for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) CK(T[i].uq != T[j].uq, "unique-number", "threads %d and %d both have the unique number %llu", i, j, T[i].uq);
  uint64_t h = n; for (int i = 0; i < n; i++) h = h * 31 + T[i].how * 4 + T[i].fate; sim_state(h);
  OK(pthread_key_delete(key), "key");
}
/* ---- ids are unique among live threads, self is stable, stale ids stay stale -- */
#define MAXID 64
static pthread_t seen[MAXID]; static int nseen; static unsigned long long uq[MAXID];
static volatile int idn, go;
static void *id_thr(void *v) {
  pthread_t s = pthread_self(), s2; int k = (int)(size_t)v; wk_work(R(3)); s2 = pthread_self(); CK(pthread_equal(s, s2), "self-stable", "pthread_self changed");
  CK(sim_thread_tid_of_handle(pthread_getw32threadhandle_np(s)) == sim_self(), "system-handle", "pthread_getw32threadhandle_np gives another thread"); CK(pthread_getw32threadid_np(s) == GetCurrentThreadId(), "system-id", "pthread_getw32threadid_np gives another thread"); uq[k] = pthread_getunique_np(s); seen[k] = s; sim_add(&idn, 1); while (!go) sim_delay_us(100); wk_work(R(3));
  CK(pthread_equal(pthread_self(), s), "self-stable", "pthread_self changed"); CK(pthread_getunique_np(s) == uq[k], "unique-stable", "unique id changed"); return v; }
WORKLOAD(thread_ids) {
  pthread_t t[8]; nseen = 0; pthread_t old[32]; int nold = 0; unsigned long long allu[64]; int nu = 0;
  pthread_t me = pthread_self(); allu[nu++] = pthread_getunique_np(me);
  for (int round = 0, m = 1 + R(3); round < m; round++) {
    int n = 2 + R(6); idn = go = 0; for (int i = 0; i < n; i++) wk_spawn(&t[i], id_thr, (void *)(size_t)i);
    while (idn < n) sim_delay_us(100);
    for (int i = 0; i < n; i++) { CK(pthread_equal(seen[i], t[i]), "create-id", "the id given by pthread_create differs from the thread's own"); CK(!pthread_equal(seen[i], me), "unique", "id equal to the creator's"); OK(pthread_kill(t[i], 0), "kill0"); CK(pthread_getw32threadid_np(t[i]) != 0, "w32id", "no Win32 thread id");
      for (int j = 0; j < i; j++) CK(!pthread_equal(seen[i], seen[j]), "unique", "two live threads have the same id");
      for (int j = 0; j < nold; j++) { CK(!pthread_equal(seen[i], old[j]), "id-recycled", "a new thread has the id of a dead one"); }
      for (int j = 0; j < nu; j++) CK(allu[j] != uq[i], "unique-number", "pthread_getunique_np gave %llu twice", uq[i]); allu[nu++] = uq[i]; }
    for (int j = 0; j < nold; j++) { EQ(pthread_kill(old[j], 0), ESRCH, "stale-id"); EQ(pthread_cancel(old[j]), ESRCH, "stale-id"); }
    go = 1; for (int i = 0; i < n; i++) { wk_join(t[i]); if (nold < 32) old[nold++] = t[i]; }
  }
  sim_state(nu);
}
/* ---- results of misuse and edge cases -------------------------------------------- */
static volatile int stop; static void *wait_thr(void *v) { while (!stop) sim_delay_us(300); return v; }
static void *self_thr(void *v) { EQ(pthread_join(pthread_self(), NULL), EDEADLK, "join-self"); EQ(pthread_tryjoin_np(pthread_self(), NULL), EDEADLK, "join-self"); struct timespec ts; wk_abs(&ts, 1000); EQ(pthread_timedjoin_np(pthread_self(), NULL, &ts), EDEADLK, "join-self"); return v; }
static void *cj_thr(void *v) { void *x = NULL; pthread_join(*(pthread_t *)v, &x); return x; }
WORKLOAD(thread_edges) {
  pthread_t t, u, j; struct timespec ts; void *v; stop = 0;
  wk_spawn(&t, wait_thr, (void *)5); wk_spawn(&u, self_thr, (void *)6); 
  EQ(pthread_tryjoin_np(t, &v), EBUSY, "tryjoin"); uint64_t t0 = sim_now(); wk_abs(&ts, 2000); EQ(pthread_timedjoin_np(t, &v, &ts), ETIMEDOUT, "timedjoin"); CK(sim_now() + 10000 >= t0 + 20000, "early-timeout", "timed join returned after %lld00ns", (long long)(sim_now() - t0));
  OK(pthread_kill(t, 0), "kill0"); EQ(pthread_kill(t, 99), EINVAL, "kill-bad-signal");
  wk_spawn(&j, cj_thr, &t); if (R(2)) sim_settle(); OK(pthread_cancel(j), "cancel"); v = wk_join(j); CK(v == PTHREAD_CANCELED, "cancel-join", "a thread cancelled while joining returned %p", v);
  OK(pthread_kill(t, 0), "join-cancel-detached"); /* the target must still be joinable */
  stop = 1; int w = R(3);
  if (w == 0) { v = wk_join(t); CK(v == (void *)5, "join-value", "value %p", v); }
  else if (w == 1) { OK(pthread_timedjoin_np(t, &v, NULL), "timedjoin-null"); CK(v == (void *)5, "join-value", "value %p", v); }
  else { OK(pthread_detach(t), "detach"); int rc = unjoinable(t); CK(rc == EINVAL || rc == ESRCH, "join-detached", "-> %d", rc); rc = pthread_detach(t); CK(rc == EINVAL || rc == ESRCH, "detach-detached", "-> %d", rc); }
  v = wk_join(u); CK(v == (void *)6, "join-value", "value %p", v);
  pthread_t z; memset(&z, 0, sizeof z); EQ(pthread_join(z, NULL), ESRCH, "null-id"); EQ(pthread_detach(z), ESRCH, "null-id"); EQ(pthread_kill(z, 0), ESRCH, "null-id"); EQ(pthread_cancel(z), ESRCH, "null-id");
  sim_state(w);
}
/* ---- threads created by several threads at once, and Win32 threads that become
 * POSIX threads at the same time: all ids and all numbers differ ---------------- */
static struct { pthread_t t; unsigned long long u; } all[96]; static volatile int nall, prun, pgo;
static void note_id(void) { pthread_t s = pthread_self(); int k = sim_add(&nall, 1) - 1; all[k].t = s; all[k].u = pthread_getunique_np(s); CK(sim_thread_tid_of_handle(pthread_getw32threadhandle_np(s)) == sim_self(), "system-handle", "pthread_getw32threadhandle_np gives another thread"); CK(pthread_getw32threadid_np(s) == GetCurrentThreadId(), "system-id", "pthread_getw32threadid_np gives another thread"); CK(pthread_equal(pthread_self(), s), "self-stable", "pthread_self changed"); sim_add(&prun, 1); while (!pgo) sim_delay_us(100); CK(pthread_equal(pthread_self(), s) && pthread_getunique_np(s) == all[k].u, "self-stable", "identity changed"); }
static void *leaf(void *v) { note_id(); return v; }
static void *creator(void *v) { int n = (int)(size_t)v; pthread_t t[4]; for (int i = 0; i < n; i++) wk_spawn(&t[i], leaf, NULL); note_id(); for (int i = 0; i < n; i++) wk_join(t[i]); return v; }
static unsigned WINAPI rawid(void *v) { (void)v; note_id(); pthread_win32_thread_detach_np(); return 0; }
WORKLOAD(thread_ids_par) {
  static pthread_t past[64]; static unsigned long long pastu[64]; static int npast; if (ep == 0) npast = 0;
  pthread_t c[4]; HANDLE h[4]; int nc = 1 + R(4), nh = R(4), want = nc + nh, each[4]; nall = prun = pgo = 0;
  for (int i = 0; i < nc; i++) { each[i] = R(4); want += each[i]; }
  for (int i = 0; i < nc; i++) wk_spawn(&c[i], creator, (void *)(size_t)each[i]);
  for (int i = 0; i < nh; i++) h[i] = CreateThread(NULL, 0, (LPTHREAD_START_ROUTINE)(void *)rawid, NULL, 0, NULL);
  while (prun < want) sim_delay_us(100);
  for (int i = 0; i < nall; i++) { for (int j = 0; j < i; j++) { CK(!pthread_equal(all[i].t, all[j].t), "unique", "two live threads have the same id"); CK(all[i].u != all[j].u, "unique-number", "two threads have the number %llu", all[i].u); } CK(!pthread_equal(all[i].t, pthread_self()), "unique", "id equal to the driver's");
    for (int j = 0; j < npast; j++) { CK(!pthread_equal(all[i].t, past[j]), "id-recycled", "a new thread has the id of a dead one"); CK(all[i].u != pastu[j], "unique-number", "number %llu of a new thread was a dead one's", all[i].u); } OK(pthread_kill(all[i].t, 0), "kill0"); }
  pgo = 1;
  for (int i = 0; i < nc; i++) wk_join(c[i]); for (int i = 0; i < nh; i++) { WaitForSingleObject(h[i], INFINITE); CloseHandle(h[i]); }
  for (int j = 0; j < npast; j++) EQ(pthread_kill(past[j], 0), ESRCH, "stale-id");
  for (int i = 0; i < nall; i++) { EQ(pthread_kill(all[i].t, 0), ESRCH, "stale-id"); int k = npast < 64 ? npast++ : R(64); past[k] = all[i].t; pastu[k] = all[i].u; }
  sim_state(nall); sim_stat("ids_compared", nall);
}
/* ---- one thread after the other for a long time: the same struct is recycled
 * over and over, and no id or number ever comes back ----------------------------- */
static pthread_t self_id; static void *selfrec(void *v) { self_id = pthread_self(); return v; }
WORKLOAD(thread_ids_long) {
  pthread_t t, keep[24], prev; int nk = 0, n = 2500, pre = sim_preempt(0); static pthread_t first; static unsigned long long seenu[0x100000]; if (ep == 0) memset(seenu, 0, sizeof seenu);
  for (int i = 0; i < n; i++) {
    wk_spawn(&t, selfrec, (void *)(size_t)i); unsigned long long u = pthread_getunique_np(t); void *r = wk_join(t); CK(r == (void *)(size_t)i && pthread_equal(self_id, t), "create-id", "join value %p", r);
    { size_t z = (size_t)(u * 0x9e3779b97f4a7c15ull >> 44); while (seenu[z] && seenu[z] != u + 1) z = (z + 1) & 0xfffff; CK(!seenu[z], "unique-number", "number %llu given twice", u); seenu[z] = u + 1; }
    if (i == 0 && ep == 0) first = t;
    if (i || ep) { if (i) CK(!pthread_equal(prev, t), "id-recycled", "same id twice in a row"); if (i || ep) CK(!pthread_equal(first, t) || (i == 0 && ep == 0), "id-recycled", "the id of the first thread came back after %d threads", ep * n + i); }
    for (int k = 0; k < nk; k++) CK(!pthread_equal(keep[k], t), "id-recycled", "an id came back");
    if (nk < 24 && R(100) == 0) keep[nk++] = t;
    prev = t; }
  for (int k = 0; k < nk; k++) EQ(pthread_kill(keep[k], 0), ESRCH, "stale-id");
  EQ(pthread_kill(first, 0), ESRCH, "stale-id"); sim_stat("recyclings", n); sim_stat("ids_compared", n); sim_preempt(pre); sim_state(ep);
}
/* pthread_kill with a terminating signal: the thread runs no more and its joiner gets PTHREAD_CANCELED */
static struct kv { pthread_t t; volatile int run, beat, stop, killed, joined; } KV[6]; static volatile int kv_new;
static void *kv_body(void *v) { struct kv *k = (struct kv *)v; k->run = 1; while (!k->stop) { if (R(3)) sim_delay_us(60); else sim_user_point(); sim_add(&k->beat, 1); } return (void *)(size_t)77; }
static void *kv_joiner(void *v) { struct kv *k = (struct kv *)v; void *x = (void *)1; int rc;
  switch (R(3)) { case 0: rc = pthread_join(k->t, &x); break; case 1: { struct timespec ts; do { wk_abs(&ts, 2000); rc = pthread_timedjoin_np(k->t, &x, &ts); } while (rc == ETIMEDOUT); break; } default: while ((rc = pthread_tryjoin_np(k->t, &x)) == EBUSY) sim_delay_us(50); }
  OK(rc, "killed-join"); int b = k->beat; CK(k->killed == 1 || k->stop, "killed-join", "the join returned before the thread was killed or told to end");
  if (k->killed) CK(x == PTHREAD_CANCELED, "killed-status", "the joiner of a killed thread got %p instead of PTHREAD_CANCELED", x); else CK(x == (void *)(size_t)77, "killed-status", "joined with %p instead of 77", x);
  sim_delay_us(R(3) * 100); CK(b == k->beat, "killed-runs", "a killed and joined thread goes on running"); k->joined = 1; return NULL; }
static void *kv_fresh(void *v) { sim_add(&kv_new, 1); if (R(2)) pthread_exit(v); return v; }
WORKLOAD(thread_kill) {
  static const int sigs[3] = { SIGINT, SIGTERM, SIGABRT }; int n = 1 + R(4); pthread_t j[6]; kv_new = 0;
  for (int i = 0; i < n; i++) { struct kv *k = &KV[i]; k->run = k->beat = k->stop = k->killed = k->joined = 0; wk_spawn(&k->t, kv_body, k); }
  for (int i = 0; i < n; i++) while (!KV[i].run) sim_delay_us(50);
  for (int i = 0; i < n; i++) { struct kv *k = &KV[i];
    EQ(pthread_kill(k->t, 1 + R(1000) * 64), EINVAL, "kill-unsupported"); EQ(pthread_kill(k->t, 0), 0, "kill-probe");
    int b = k->beat; sim_delay_us(200); (void)b;
    int late = R(3) == 0; if (!late) wk_spawn(&j[i], kv_joiner, k);
    if (R(5) == 0) k->stop = 1; else { k->killed = 1; EQ(pthread_kill(k->t, sigs[R(3)]), 0, "kill"); sim_stat("killed", 1); if (late && R(2)) EQ(pthread_kill(k->t, sigs[R(3)]), 0, "kill-again"); }
    if (late) wk_spawn(&j[i], kv_joiner, k); }
  pthread_t f[4]; int nf = R(4); for (int i = 0; i < nf; i++) wk_spawn(&f[i], kv_fresh, (void *)(size_t)(i + 1));
  for (int i = 0; i < n; i++) { wk_join(j[i]); EQ(pthread_kill(KV[i].t, SIGTERM), ESRCH, "stale-id"); }
  for (int i = 0; i < nf; i++) { void *r = wk_join(f[i]); CK(r == (void *)(size_t)(i + 1), "status", "a thread made after a kill was joined with %p", r); }
  sim_state(n * 8 + nf);
}

/* a thread is reaped while others are being made, which may be given its structure: reaping is about that thread only */
static volatile int ru_free, ru_up, ru_done; static void *ru_a(void *v) { if (R(3) == 0) pause_us(rnd_pause()); if (R(3) == 0) pthread_exit(v); return v; }
static void *ru_c(void *v) { sim_add(&ru_up, 1); while (!ru_free) sim_delay_us(80); return v; }
static void *ru_b(void *v) { pthread_t c; void *x = NULL; int how = R(3); if (R(2)) pause_us(rnd_pause()); wk_spawn(&c, ru_c, (char *)v + 1);
  EQ(pthread_kill(c, 0), 0, "alive"); while (!ru_free) sim_delay_us(90); EQ(pthread_kill(c, 0), 0, "alive");
  if (how == 0) { OK(pthread_join(c, &x), "join"); } else if (how == 1) { int rc; while ((rc = pthread_tryjoin_np(c, &x)) == EBUSY) sim_delay_us(200); CK(rc == 0, "join", "pthread_tryjoin_np -> %d", rc); }
  else { struct timespec ts; int rc; do { wk_abs(&ts, 100000); rc = pthread_timedjoin_np(c, &x, &ts); } while (rc == ETIMEDOUT); CK(rc == 0, "join", "pthread_timedjoin_np -> %d", rc); }
  CK(x == (char *)v + 1, "join-value", "joined %p, its value is %p", x, (void *)((char *)v + 1)); sim_add(&ru_done, 1); return v; }
WORKLOAD(thread_reuse) {
  static char base[64]; struct timespec ts;
  for (int rd = 0, rounds = 1 + R(4); rd < rounds; rd++) {
    pthread_t a, b[3]; void *x = NULL; int nb = 1 + R(3), op = R(4), rc; ru_free = ru_up = ru_done = 0; wk_spawn(&a, ru_a, base + 60); if (R(2)) pause_us(rnd_pause());
    for (int i = 0; i < nb; i++) wk_spawn(&b[i], ru_b, base + 4 * i); if (R(3) == 0) pause_us(rnd_pause());
    switch (op) {
      case 0: OK(pthread_detach(a), "detach"); sim_stat("reuse_detached", 1); break;
      case 1: OK(pthread_join(a, &x), "join"); break;
      case 2: while ((rc = pthread_tryjoin_np(a, &x)) == EBUSY) sim_delay_us(40); CK(rc == 0, "join", "pthread_tryjoin_np -> %d", rc); break;
      case 3: do { wk_abs(&ts, 100000); rc = pthread_timedjoin_np(a, &x, &ts); } while (rc == ETIMEDOUT); CK(rc == 0, "join", "pthread_timedjoin_np -> %d", rc); break; }
    if (op) { CK(x == base + 60, "join-value", "joined %p, its value is %p", x, (void *)(base + 60)); EQ(pthread_kill(a, 0), ESRCH, "stale"); sim_stat("reuse_joined", 1); }
    ru_free = 1; for (int i = 0; i < nb; i++) CK(wk_join(b[i]) == base + 4 * i, "join-value", "maker"); CK(ru_up == nb && ru_done == nb, "runs", "%d threads ran, %d were joined, %d were made", ru_up, ru_done, nb); if (op) EQ(pthread_kill(a, 0), ESRCH, "stale"); sim_state(op * 16 + nb); }
}

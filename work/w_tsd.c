#include "wk.h"
/* ---- thread-specific data: private values, exact destructor runs ---------- */
#define NK 6
#define NTOK 4096
enum { K_PLAIN, K_NODTOR, K_RESET, K_CROSS, K_FOREVER, K_BLOCK };
typedef struct { int thr, key, state, depth; } tok; /* 0 free, 1 current, 2 replaced/cleared, 3 destroyed, 4 left at the end */
static tok TK[NTOK]; static volatile int ntok;
static struct { pthread_key_t k; int kind, resets, target; } K[NK]; static int nk;
typedef struct { int id, route, simid, ops; tok *cur[NK]; int calls[NK]; volatile int exiting, cleaned, over; sem_t *s; } tt;
static tt TT[8]; static int nt; static sem_t tsem;
static tt *me(void) { for (int i = 0; i < nt; i++) if (TT[i].simid == sim_self()) return &TT[i]; sim_violation("tsd-thread", "destructor run by a thread that set no values"); }
static tok *newtok(tt *a, int key) { int q = sim_add(&ntok, 1); CK(q <= NTOK, "harness", "tokens"); tok *t = &TK[q - 1]; t->thr = a->id; t->key = key; t->state = 1; return t; }
static void putd(tt *a, int k, int clear, int depth) {
  tok *n = clear ? NULL : newtok(a, k), *o = a->cur[k];
  int rc = pthread_setspecific(K[k].k, n); CK(rc == 0, "setspecific", "pthread_setspecific -> %d", rc);
  if (o) o->state = 2; a->cur[k] = n; if (n) n->depth = depth; sim_stat(clear ? "cleared" : "set", 1); }
static void put(tt *a, int k, int clear) { putd(a, k, clear, 0); }
static void chk(tt *a, int k) {
  DWORD le = 1000 + R(1000); int e = 1 + R(100); SetLastError(le); errno = e; void *v = pthread_getspecific(K[k].k);
  CK(v == (void *)a->cur[k], "private-value", "thread %d key %d reads %p instead of its own %p", a->id, k, v, (void *)a->cur[k]);
  CK(GetLastError() == le && errno == e, "errors-preserved", "pthread_getspecific changed the last error from %u to %u (errno %d to %d)", le, GetLastError(), e, errno); }
static void dtor(int k, void *v) {
  tt *a = me(); tok *t = (tok *)v; CK(t >= TK && t < TK + ntok, "dtor-value", "destructor of key %d called with %p", k, v);
  CK(K[k].kind != K_NODTOR, "dtor-value", "destructor of a key without destructor");
  CK(t->key == k && t->thr == a->id, "dtor-value", "destructor of key %d in thread %d got the value of key %d of thread %d", k, a->id, t->key, t->thr);
  CK(t->state == 1 && a->cur[k] == t, "dtor-once", "destructor called for a value that is no longer current (state %d)", t->state);
  CK(a->exiting, "dtor-early", "destructor called in a running thread"); CK(a->cleaned, "dtor-order", "destructor called before the cleanup handler"); CK(!a->over, "dtor-late", "destructor called after join returned");
  void *now = pthread_getspecific(K[k].k); CK(now == NULL, "dtor-cleared", "key still has value %p inside its destructor", now);
  t->state = 3; a->cur[k] = NULL; a->calls[k]++; sim_stat("destroyed", 1);
  CK(a->calls[k] <= PTHREAD_DESTRUCTOR_ITERATIONS, "dtor-rounds", "destructor of key %d called %d times in one thread", k, a->calls[k]);
  sim_user_point();
  if (K[k].kind == K_FOREVER || (K[k].kind == K_RESET && a->calls[k] <= K[k].resets)) putd(a, k, 0, t->depth + 1);
  if (K[k].kind == K_CROSS && a->calls[k] <= 2) putd(a, K[k].target, 0, t->depth + 1);
  if (K[k].kind == K_BLOCK) { OK(sem_post(&tsem), "in-dtor"); OK(sem_wait(&tsem), "in-dtor"); pthread_testcancel(); if (R(3) == 0) sim_delay_us(R(3000)); }
  for (int i = 0; i < nk; i++) if (R(4) == 0) chk(a, i);
}
#define D(n) static void PTW32_CDECL d##n(void *v) { dtor(n, v); }
D(0) D(1) D(2) D(3) D(4) D(5)
static void (PTW32_CDECL *const DD[NK])(void *) = { d0, d1, d2, d3, d4, d5 };
static void PTW32_CDECL tclean(void *v) { tt *a = (tt *)v; a->exiting = 1; for (int i = 0; i < nk; i++) if (R(3) == 0) chk(a, i); if (R(4) == 0) put(a, R(nk), 0); a->cleaned = 1; }
static void deep(tt *a) { for (int i = 0; i < a->ops; i++) { int k = R(nk); switch (R(5)) { case 0: case 1: put(a, k, 0); break; case 2: put(a, k, 1); break; case 3: chk(a, k); break; case 4: sim_user_point(); break; } if (R(12) == 0) sim_delay_us(R(2000)); } for (int i = 0; i < nk; i++) chk(a, i); }
static void *tmain(void *v) {
  tt *a = (tt *)v; a->simid = sim_self(); sim_label("tsd-thread");
  for (int i = 0; i < nk; i++) chk(a, i); /* new threads start with no values */
  pthread_cleanup_push(tclean, a);
  deep(a);
  if (a->route == 1) { a->exiting = 1; pthread_exit(a); }
  if (a->route == 2) { for (;;) { sim_delay_us(500); pthread_testcancel(); } }
  pthread_cleanup_pop(1);
  return a; }
WORKLOAD(tsd_life) {
  pthread_t th[8]; nk = 1 + R(NK); nt = 1 + R(5); ntok = 0; memset(TT, 0, sizeof TT); OK(sem_init(&tsem, 0, 0), "init");
  for (int i = 0; i < nk; i++) { K[i].kind = R(6); if (K[i].kind == K_FOREVER && R(3)) K[i].kind = K_PLAIN; K[i].resets = 1 + R(3); K[i].target = R(nk); OK(pthread_key_create(&K[i].k, K[i].kind == K_NODTOR ? NULL : DD[i]), "key-create"); CK(pthread_getspecific(K[i].k) == NULL, "new-key", "new key has a value"); }
  for (int i = 0; i < nt; i++) { TT[i].id = i; TT[i].route = R(3); TT[i].ops = R(20); TT[i].simid = -1; wk_spawn(&th[i], tmain, &TT[i]); if (R(3) == 0) sim_delay_us(R(2000)); }
  for (int i = 0; i < nt; i++) if (TT[i].route == 2) { while (TT[i].simid < 0) sim_delay_us(100); sim_delay_us(R(10000)); OK(pthread_cancel(th[i]), "cancel"); }
  for (int i = 0; i < nt; i++) { void *r = wk_join(th[i]); tt *a = &TT[i]; a->over = 1; CK(r == (a->route == 2 ? PTHREAD_CANCELED : (void *)a), "join", "join value %p", r);
    CK(a->cleaned, "harness", "not cleaned"); /* a value set by a destructor d levels deep is due in round d+1 at the latest */
    for (int k = 0; k < nk; k++) if (a->cur[k] && K[k].kind != K_NODTOR) { CK(a->cur[k]->depth >= PTHREAD_DESTRUCTOR_ITERATIONS, "dtor-missing", "value of key %d (kind %d, set %d destructors deep) of thread %d was not destroyed at exit", k, K[k].kind, a->cur[k]->depth, i); a->cur[k]->state = 4; sim_stat("rounds_exhausted", 1); } }
  uint64_t h = nk * 8 + nt; for (int i = 0; i < nk; i++) h = h * 7 + K[i].kind; sim_state(h);
  for (int i = 0; i < nk; i++) OK(pthread_key_delete(K[i].k), "key-delete"); OK(sem_destroy(&tsem), "destroy");
}
/* ---- keys deleted and created while threads use them and exit ------------- */
static struct gen { volatile pthread_key_t k; volatile int gen; volatile uint64_t deleted; } G[3];
typedef struct { int key, gen, thr; volatile int dead; uint64_t exit_seq; } gtok; static gtok GT[2048]; static volatile int ngt; static volatile int busy[3]; /* threads inside a use of the key */
static volatile uint64_t exitseq[8]; static uint64_t gdel[3][64]; static int gid[8];
static void gd(int key, void *v) {
  gtok *t = (gtok *)v; CK(t >= GT && t < GT + ngt, "dtor-value", "destructor got %p", v); CK(t->key == key, "dtor-value", "destructor of slot %d got a value of slot %d", key, t->key);
  CK(gid[t->thr] == sim_self(), "dtor-thread", "value of thread %d destroyed by another thread", t->thr);
  CK(!t->dead, "dtor-once", "value destroyed twice"); t->dead = 1; CK(exitseq[t->thr], "dtor-early", "destructor called in a running thread");
  uint64_t d = gdel[key][t->gen]; CK(!d || d > exitseq[t->thr], "dtor-deleted-key", "destructor of a key (slot %d generation %d) that had been deleted before the thread began to exit", key, t->gen);
  sim_stat("gen_destroyed", 1); if (R(3) == 0) sim_user_point(); }
static void PTW32_CDECL g0(void *v) { gd(0, v); } static void PTW32_CDECL g1(void *v) { gd(1, v); } static void PTW32_CDECL g2(void *v) { gd(2, v); }
static void (PTW32_CDECL *const GD[3])(void *) = { g0, g1, g2 };
static void gnew(int i) { pthread_key_t k; int g = G[i].gen + 1; OK(pthread_key_create(&k, GD[i]), "key-create"); CK(pthread_getspecific(k) == NULL, "new-key", "new key has a value in this thread"); G[i].gen = g; G[i].k = k; }
static void *gthr(void *v) {
  int id = (int)(intptr_t)v; gid[id] = sim_self(); sim_label("tsd-del-thread");
  for (int i = 0, n = R(6); i < n; i++) { int k = R(3); if (!G[k].k) continue; sim_add(&busy[k], 1); pthread_key_t key = G[k].k; if (!key) { sim_add(&busy[k], -1); continue; } /* the driver waits for busy==0 before deleting */
    int g = G[k].gen; gtok *o = (gtok *)pthread_getspecific(key); CK(!o || (o->key == k && o->gen == g && o->thr == id), "new-key", "a key created anew (generation %d) shows a value of generation %d", g, o ? o->gen : 0);
    if (R(4)) { gtok *t = &GT[sim_add(&ngt, 1) - 1]; t->key = k; t->gen = g; t->thr = id; t->dead = 0; if (o) o->dead = 2; OK(pthread_setspecific(key, t), "setspecific"); CK(pthread_getspecific(key) == (void *)t, "private-value", "value lost"); }
    sim_add(&busy[k], -1); sim_user_point(); }
  exitseq[id] = sim_seq(); return v; }
WORKLOAD(tsd_delete) {
  pthread_t th[6]; int n = 1 + R(5); ngt = 0; memset((void *)G, 0, sizeof G); memset(gdel, 0, sizeof gdel); memset((void *)exitseq, 0, sizeof exitseq); memset((void *)busy, 0, sizeof busy); 
  for (int i = 0; i < 3; i++) gnew(i);
  for (int i = 0; i < n; i++) wk_spawn(&th[i], gthr, (void *)(intptr_t)i);
  for (int j = 0, m = R(8); j < m; j++) { int i = R(3); wk_work(R(40)); pthread_key_t k = G[i].k; if (!k) { gnew(i); continue; } G[i].k = 0; while (busy[i]) sim_yield(); OK(pthread_key_delete(k), "key-delete"); gdel[i][G[i].gen] = sim_seq(); sim_stat("live_deletes", 1); if (R(2)) gnew(i); }
  for (int i = 0; i < n; i++) { void *r = wk_join(th[i]); CK(r == (void *)(intptr_t)i, "join", "join value %p", r); }
  for (int i = 0; i < ngt; i++) CK(GT[i].dead || gdel[GT[i].key][GT[i].gen], "dtor-missing", "value %d of live key slot %d generation %d not destroyed at exit", i, GT[i].key, GT[i].gen);
  for (int i = 0; i < 3; i++) if (G[i].k) OK(pthread_key_delete(G[i].k), "key-delete");
  sim_state(n + 10 * ngt);
}
/* ---- exhaustion and key operations inside destructors --------------------- */
static pthread_key_t X[400]; static volatile int xcalls; static pthread_key_t xk, xk2;
static void PTW32_CDECL xd(void *v) { (void)v; sim_add(&xcalls, 1); if (R(2)) { OK(pthread_key_delete(xk), "key-delete"); OK(pthread_key_create(&xk, xd), "key-create"); CK(pthread_getspecific(xk) == NULL, "new-key", "new key has a value"); } else { OK(pthread_setspecific(xk2, v), "setspecific"); OK(pthread_key_delete(xk2), "key-delete"); OK(pthread_key_create(&xk2, xd), "key-create"); } }
static void *xt(void *v) { OK(pthread_setspecific(xk, v), "setspecific"); wk_work(R(5)); return v; }
WORKLOAD(tsd_limits) {
  int n = 0, rc; if (R(10) == 0) { while (n < 400 && (rc = pthread_key_create(&X[n], NULL)) == 0) n++; CK(n >= 64, "key-limit", "only %d keys", n); CK(n < 400 && rc == EAGAIN, "key-limit", "key creation at the limit -> %d", rc);
    for (int i = 0; i < n; i++) OK(pthread_setspecific(X[i], (void *)(intptr_t)(i + 1)), "setspecific"); for (int i = 0; i < n; i++) CK(pthread_getspecific(X[i]) == (void *)(intptr_t)(i + 1), "private-value", "key %d", i);
    int d = R(n); OK(pthread_key_delete(X[d]), "key-delete"); OK(pthread_key_create(&X[d], NULL), "key-create"); CK(pthread_getspecific(X[d]) == NULL, "new-key", "recycled key has a value"); for (int i = 0; i < n; i++) OK(pthread_key_delete(X[i]), "key-delete"); sim_stat("limit_reached", 1); }
  xcalls = 0; OK(pthread_key_create(&xk, xd), "key-create"); OK(pthread_key_create(&xk2, xd), "key-create"); pthread_t t; wk_spawn(&t, xt, &t); wk_join(t); CK(xcalls == 1, "dtor-once", "destructor ran %d times", xcalls); OK(pthread_key_delete(xk), "key-delete"); OK(pthread_key_delete(xk2), "key-delete");
}

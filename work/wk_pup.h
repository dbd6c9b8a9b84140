/* Puppets: library threads that execute one operation at a time on the
 * driver's command, so that the driver can compare every result, and whether
 * the operation blocks, with a sequential reference model.  The command
 * channel uses raw Win32 events, never the library under test. */
#ifndef WK_PUP_H
#define WK_PUP_H
#include "wk.h"
#define MAXPUP 8
typedef struct pup pup;
struct pup { pthread_t th; HANDLE go; int id, tid; int (*volatile fn)(pup *); volatile int busy, done, quit, started; int64_t a[4]; void *p[2]; int rc; int64_t out[4]; uint64_t t0, t1; };
static pup PUP[MAXPUP]; static int npup;
static void *pup_main(void *v) {
  pup *p = (pup *)v; p->tid = sim_self(); p->started = 1; sim_label("puppet");
  for (;;) {
    WaitForSingleObject(p->go, INFINITE);
    if (p->quit) return v;
    p->t0 = sim_now(); p->rc = p->fn(p); p->t1 = sim_now(); p->busy = 0; p->done = 1;
  }
}
static __attribute__((unused)) void pup_one(int i) { memset(&PUP[i], 0, sizeof PUP[i]); PUP[i].id = i; PUP[i].go = CreateEventA(NULL, 0, 0, NULL); wk_spawn(&PUP[i].th, pup_main, &PUP[i]); }
static __attribute__((unused)) void pup_start(int n) { npup = n; for (int i = 0; i < n; i++) pup_one(i); sim_settle(); }
/* issue a command; 1 = completed, 0 = blocked */
static __attribute__((unused)) int pup_do(pup *p, int (*fn)(pup *)) {
  CK(!p->busy, "harness", "puppet %d busy", p->id);
  p->fn = fn; p->done = 0; p->busy = 1; SetEvent(p->go); sim_settle(); sim_stat(p->busy ? "pup_blocked" : "pup_done", 1); return !p->busy; }
static __attribute__((unused)) void pup_go(pup *p, int (*fn)(pup *)) { p->fn = fn; p->done = 0; p->busy = 1; SetEvent(p->go); }
static __attribute__((unused)) void pup_quit1(pup *p) { p->quit = 1; SetEvent(p->go); void *r = wk_join(p->th); CK(r == (void *)p, "join-value", "puppet %d join value %p", p->id, r); CloseHandle(p->go); }
static __attribute__((unused)) void pup_stop(void) { for (int i = 0; i < npup; i++) pup_quit1(&PUP[i]); npup = 0; }
/* let time pass while everything else is blocked */
static __attribute__((unused)) void pup_pass(int us) { sim_delay_us(us); sim_settle(); }
#endif

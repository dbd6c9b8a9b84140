prop = 'P06'
needs = 'A broadcast must be sent while a previous signal is still being delivered (the signalled waiter has not yet re-acquired the inner lock) and further threads have started waiting meanwhile or were still blocked.'
breaks = 'pthread_cond_broadcast overwrites the number of waiters still to be unblocked instead of adding to it, so the bookkeeping of wakeups already issued is lost: the last woken thread counts itself as having given up, and a later signal meant for a new waiter is dropped.'
edits = [('pthread_cond_signal.c', 'cv->nWaitersToUnblock += (nSignalsToIssue = cv->nWaitersBlocked);', 'cv->nWaitersToUnblock = (nSignalsToIssue = cv->nWaitersBlocked);')]
demo = r'''
#include "wk.h"
static pthread_mutex_t m; static pthread_cond_t c; static volatile int tokens, out;
static void *waiter(void *v) { OK(pthread_mutex_lock(&m), "lock"); while (!tokens) OK(pthread_cond_wait(&c, &m), "wait"); out++; OK(pthread_mutex_unlock(&m), "unlock"); return v; }
static void *signaller(void *v) { for (int i = 0; i < 2; i++) { OK(pthread_cond_signal(&c), "signal"); wk_work(R(6)); } return v; }
WORKLOAD(demo) {
  pthread_t t[4], s; int n = 2 + R(3); OK(pthread_mutex_init(&m, NULL), "init"); OK(pthread_cond_init(&c, NULL), "init"); tokens = out = 0;
  for (int i = 0; i < n; i++) wk_spawn(&t[i], waiter, &m);
  wk_spawn(&s, signaller, &m); wk_work(R(30));
  OK(pthread_mutex_lock(&m), "lock"); tokens = 1; OK(pthread_cond_broadcast(&c), "bcast"); OK(pthread_mutex_unlock(&m), "unlock");
  for (int i = 0; i < n; i++) wk_join(t[i]);
  wk_join(s); CK(out == n, "all", "%d of %d released", out, n);
  tokens = 0; wk_spawn(&t[0], waiter, &m); sim_delay_us(1000); sim_settle();
  OK(pthread_mutex_lock(&m), "lock"); tokens = 1; OK(pthread_cond_signal(&c), "signal"); OK(pthread_mutex_unlock(&m), "unlock"); wk_join(t[0]);
  OK(pthread_cond_destroy(&c), "destroy"); OK(pthread_mutex_destroy(&m), "destroy");
}
'''

prop = 'P15'
needs = 'Two threads must use a statically initialised rwlock for the first time simultaneously, the second waiting for the initialisation lock while the first creates the object.'
breaks = 'The second look inside the initialisation lock accepts an object that exists already, so the second thread creates another rwlock and the first one holds a lock nobody else sees.'
edits = [('ptw32_rwlock_check_need_init.c', 'if (*rwlock == PTHREAD_RWLOCK_INITIALIZER)', 'if (*rwlock != NULL)')]
secs = 30
demo = r'''
#include "wk.h"
static pthread_rwlock_t rw; static volatile int in;
static void *th(void *v) { OK(pthread_rwlock_wrlock(&rw), "wr"); CK(!in, "excl", "two writers"); in = 1; wk_work(3); in = 0; OK(pthread_rwlock_unlock(&rw), "unlock"); return v; }
WORKLOAD(demo) { pthread_t t[3]; int n = 2 + R(2); rw = PTHREAD_RWLOCK_INITIALIZER; in = 0; for (int i = 0; i < n; i++) wk_spawn(&t[i], th, NULL); for (int i = 0; i < n; i++) wk_join(t[i]); OK(pthread_rwlock_destroy(&rw), "destroy"); }
'''

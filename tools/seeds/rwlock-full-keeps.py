prop = 'P05'
needs = 'A lock read-locked 2^31-1 times, whose counters are due to be folded, a timed read lock with a deadline that passes, and another reader holding the inner lock at that moment.'
breaks = 'When the inner lock can not be had in time the outer one is not given back: nobody can lock the rwlock again.'
edits = [('pthread_rwlock_timedrdlock.c', '--rwl->nSharedAccessCount; (void) pthread_mutex_unlock (&(rwl->mtxExclusiveAccess)); return result;', '--rwl->nSharedAccessCount;\n\t  if (result != ETIMEDOUT)\n\t    {\n\t      (void) pthread_mutex_unlock (&(rwl->mtxExclusiveAccess));\n\t    }\n\t  return result;')]
secs = 60
demo = r'''
#include "wk.h"
#include "wk_age.h"
static pthread_rwlock_t l;
static void *th(void *v) { struct timespec ts; for (int i = 0; i < 4; i++) { wk_abs(&ts, R(2) ? -1000 : 30); int rc = R(3) ? pthread_rwlock_timedrdlock(&l, &ts) : pthread_rwlock_rdlock(&l); if (rc == 0) OK(pthread_rwlock_unlock(&l), "unlock"); else CK(rc == ETIMEDOUT, "result", "%d", rc); } return v; }
WORKLOAD(demo) { pthread_t t[3]; OK(pthread_rwlock_init(&l, NULL), "init"); age_rwlock(&l); for (int i = 0; i < 3; i++) wk_spawn(&t[i], th, NULL); for (int i = 0; i < 3; i++) wk_join(t[i]); OK(pthread_rwlock_wrlock(&l), "wrlock"); OK(pthread_rwlock_unlock(&l), "unlock"); OK(pthread_rwlock_destroy(&l), "destroy"); }
'''

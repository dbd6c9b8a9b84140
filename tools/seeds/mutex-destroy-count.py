prop = 'P02'
needs = 'pthread_mutex_destroy must be tried (and refused) by the owner of a recursive mutex, which then goes on using it.'
breaks = 'A refused destruction of a recursive mutex by its owner leaves the nesting count raised, so the unlocks that follow do not release it.'
edits = [('pthread_mutex_destroy.c', 'mx->recursive_count--;', ';')]
secs = 15
demo = r'''
#include "wk.h"
static pthread_mutex_t m; static volatile int got;
static void *th(void *v) { got = pthread_mutex_trylock(&m) == 0; if (got) OK(pthread_mutex_unlock(&m), "un"); return v; }
WORKLOAD(demo) { pthread_t t; pthread_mutexattr_t a; int n = 1 + R(3); OK(pthread_mutexattr_init(&a), "a"); OK(pthread_mutexattr_settype(&a, PTHREAD_MUTEX_RECURSIVE), "a"); OK(pthread_mutex_init(&m, &a), "init"); for (int i = 0; i < n; i++) OK(pthread_mutex_lock(&m), "lock"); EQ(pthread_mutex_destroy(&m), EBUSY, "busy"); for (int i = 0; i < n; i++) OK(pthread_mutex_unlock(&m), "un"); wk_spawn(&t, th, NULL); wk_join(t); CK(got, "released", "still locked after as many unlocks as locks"); OK(pthread_mutex_destroy(&m), "destroy"); OK(pthread_mutexattr_destroy(&a), "a"); }
'''

prop = 'P04'
needs = 'Two threads must use a statically initialised spin lock for the first time simultaneously.'
breaks = 'The second look inside the initialisation lock is lost, so the second thread replaces the spin lock the first one has already taken.'
edits = [('ptw32_spinlock_check_need_init.c', 'if (*lock == PTHREAD_SPINLOCK_INITIALIZER)', 'if (*lock != NULL)')]
secs = 30
demo = r'''
#include "wk.h"
static pthread_spinlock_t s; static volatile int in;
static void *th(void *v) { OK(pthread_spin_lock(&s), "lock"); CK(!in, "excl", "two owners"); in = 1; wk_work(3); in = 0; OK(pthread_spin_unlock(&s), "unlock"); return v; }
WORKLOAD(demo) { pthread_t t[3]; int n = 2 + R(2); s = PTHREAD_SPINLOCK_INITIALIZER; in = 0; for (int i = 0; i < n; i++) wk_spawn(&t[i], th, NULL); for (int i = 0; i < n; i++) wk_join(t[i]); OK(pthread_spin_destroy(&s), "destroy"); }
'''

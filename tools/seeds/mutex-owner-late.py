prop = 'P01'
needs = 'A recursive or error-checking mutex must be handed over with another thread acquiring it (and recording itself as owner) between the release and the clearing of the owner.'
breaks = 'pthread_mutex_unlock clears the owner after it has released the mutex, and so erases the identity of the next owner: its unlock is refused and every other thread waits for ever.'
edits = [('pthread_mutex_unlock.c', 'mx->ownerThread.p = NULL; result = ptw32_mutex_release (mx);', 'result = ptw32_mutex_release (mx); mx->ownerThread.p = NULL;')]
secs = 30
demo = r'''
#include "wk.h"
static pthread_mutex_t m; static volatile int in;
static void *th(void *v) { for (int i = 0; i < 3; i++) { OK(pthread_mutex_lock(&m), "lock"); CK(!in, "excl", "two owners"); in = 1; wk_work(2); in = 0; OK(pthread_mutex_unlock(&m), "unlock by the owner"); } return v; }
WORKLOAD(demo) { pthread_t t[3]; pthread_mutexattr_t a; in = 0; OK(pthread_mutexattr_init(&a), "a"); OK(pthread_mutexattr_settype(&a, R(2) ? PTHREAD_MUTEX_RECURSIVE : PTHREAD_MUTEX_ERRORCHECK), "a"); OK(pthread_mutex_init(&m, &a), "init"); for (int i = 0; i < 3; i++) wk_spawn(&t[i], th, NULL); for (int i = 0; i < 3; i++) wk_join(t[i]); OK(pthread_mutex_destroy(&m), "destroy"); OK(pthread_mutexattr_destroy(&a), "a"); }
'''

prop = 'P22'
needs = 'Two threads must set the name of the same thread simultaneously.'
breaks = 'The old name is read before the lock is taken, so two simultaneous callers free the same string (and one of the new names leaks).'
edits = [('pthread_setname_np.c', 'ptw32_mcs_lock_acquire (&tp->threadLock, &threadLock); oldname = tp->name; tp->name = newname;', 'oldname = tp->name; ptw32_mcs_lock_acquire (&tp->threadLock, &threadLock); tp->name = newname;', -1)]
secs = 30
demo = r'''
#include "wk.h"
static pthread_t T; static volatile int stop;
static void *tgt(void *v) { while (!stop) sim_delay_us(1000); return v; }
static void *th(void *v) { char b[16]; for (int i = 0; i < 3; i++) { snprintf(b, sizeof b, "n%d.%d", (int)(size_t)v, i); OK(pthread_setname_np(T, b), "set"); } return v; }
WORKLOAD(demo) { pthread_t t[2]; stop = 0; wk_spawn(&T, tgt, NULL); for (int i = 0; i < 2; i++) wk_spawn(&t[i], th, (void *)(size_t)i); for (int i = 0; i < 2; i++) wk_join(t[i]); char b[16]; OK(pthread_getname_np(T, b, 16), "get"); CK(b[0] == 'n' && b[2] == '.', "name", "%s", b); stop = 1; wk_join(T); }
'''

prop = 'P13'
needs = 'A thread removes the association of a key without value as it ends, while another thread deletes another key that the ending thread has a value for.'
breaks = 'The association is taken out of the list of the thread after the lock of that list was released, so two threads change the list at once.'
edits = [('ptw32_callUserDestroyRoutines.c', 'ptw32_tkAssocDestroy (assoc); ptw32_mcs_lock_release(&threadLock);', 'ptw32_mcs_lock_release(&threadLock);\n\t\t  ptw32_tkAssocDestroy (assoc);')]
secs = 100
demo = r'''
#include "wk.h"
static pthread_key_t k[4]; static volatile int ready; static void d(void *v) { (void)v; wk_work(R(2)); }
static void *th(void *v) { for (int i = 0; i < 4; i++) OK(pthread_setspecific(k[i], v), "set"); for (int i = 0; i < 4; i++) if (R(2)) OK(pthread_setspecific(k[i], NULL), "set"); ready = 1; wk_work(R(10)); return v; }
static void *del(void *v) { wk_work(R(20)); int i = (int)(size_t)v; OK(pthread_key_delete(k[i]), "delete"); return v; }
WORKLOAD(demo) { pthread_t t, u[2]; ready = 0; for (int i = 0; i < 4; i++) OK(pthread_key_create(&k[i], d), "create"); wk_spawn(&t, th, (void *)&ready); while (!ready) sim_delay_us(5); for (int i = 0; i < 2; i++) wk_spawn(&u[i], del, (void *)(size_t)i); wk_join(t); for (int i = 0; i < 2; i++) wk_join(u[i]); for (int i = 2; i < 4; i++) OK(pthread_key_delete(k[i]), "delete"); }
'''

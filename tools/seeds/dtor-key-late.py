prop = 'P19'
needs = 'A key must be deleted by another thread in the short window in which an exiting thread has released the locks and is about to call the destructor.'
breaks = 'The destructor routine and the slot of a key are read again after the locks that keep the key alive have been released, so freed memory is used when the key is deleted at that moment.'
edits = [('ptw32_callUserDestroyRoutines.c', 'destructor (value);', '(destructor = k->destructor) (value);', -1)]
secs = 40
demo = r'''
#include "wk.h"
static pthread_key_t k[2]; static int dummy; static volatile int n, set;
static void d(void *v) { (void)v; sim_add(&n, 1); }
static void *th(void *v) { OK(pthread_setspecific(k[0], &dummy), "set"); OK(pthread_setspecific(k[1], &dummy), "set"); sim_add(&set, 1); wk_work(R(4)); return v; }
WORKLOAD(demo) { pthread_t t[2]; n = set = 0; for (int i = 0; i < 2; i++) OK(pthread_key_create(&k[i], d), "create"); for (int i = 0; i < 2; i++) wk_spawn(&t[i], th, NULL); while (set < 2) sim_delay_us(20); wk_work(R(60)); for (int i = 0; i < 2; i++) { OK(pthread_key_delete(k[i]), "delete"); wk_work(R(10)); } for (int i = 0; i < 2; i++) wk_join(t[i]); CK(n <= 4, "once", "%d", n); }
'''

prop = 'P01'
needs = 'Three threads: a timed waiter must time out on a normal mutex while the owner still holds it and another thread is blocked in lock; the blocked thread is then never woken.'
breaks = 'A timed-out waiter marks the mutex as no longer contended (compare-and-exchange of the lock word from -1 to 1), although another thread may be blocked: the owner then unlocks without signalling the event and the blocked locker waits for ever.'
edits = [('pthread_mutex_timedlock.c', '''if (0 != (result = ptw32_timed_eventwait (mx->event, abstime)))
		    {
		      return result;''', '''if (0 != (result = ptw32_timed_eventwait (mx->event, abstime)))
		    {
		      /* No longer waiting: spare the owner the wakeup call */
		      (void) PTW32_INTERLOCKED_COMPARE_EXCHANGE_LONG(
			       (PTW32_INTERLOCKED_LONGPTR) &mx->lock_idx,
			       (PTW32_INTERLOCKED_LONG) 1,
			       (PTW32_INTERLOCKED_LONG) -1);
		      return result;''')]
demo = r'''
#include "wk.h"
static pthread_mutex_t m; static volatile int in;
static void *locker(void *v) { sim_delay_us(1000); OK(pthread_mutex_lock(&m), "lock"); CK(in == 0, "excl", "two inside"); in = 1; wk_work(2); in = 0; OK(pthread_mutex_unlock(&m), "unlock"); return v; }
static void *timed(void *v) { struct timespec ts; wk_abs(&ts, 5000); int rc = pthread_mutex_timedlock(&m, &ts); CK(rc == ETIMEDOUT || rc == 0, "timed", "%d", rc); if (!rc) pthread_mutex_unlock(&m); return v; }
WORKLOAD(demo) {
  pthread_t a, b; OK(pthread_mutex_init(&m, NULL), "init"); in = 0; OK(pthread_mutex_lock(&m), "lock");
  wk_spawn(&a, locker, &m); wk_spawn(&b, timed, &m);
  sim_delay_us(20000 + R(20000)); OK(pthread_mutex_unlock(&m), "unlock");
  wk_join(a); wk_join(b); OK(pthread_mutex_destroy(&m), "destroy");
}
'''

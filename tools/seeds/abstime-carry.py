prop = 'P14'
needs = 'pthread_win32_getabstime_np must be called when the nanoseconds of the system time and of the interval add up to exactly one second.'
breaks = 'The carry of pthread_win32_getabstime_np misses the exact boundary, so it gives a time with 1000000000 nanoseconds.'
edits = [('ptw32_relmillisecs.c', 'if (nsec >= NANOSEC_PER_SEC)', 'if (nsec > NANOSEC_PER_SEC)')]
secs = 15
demo = r'''
#include "wk.h"
WORKLOAD(demo) {
  struct timespec r, t; int64_t n; sim_preempt(0); n = (int64_t)sim_now(); r.tv_sec = R(5); r.tv_nsec = 1000000000 - (int)(n % 10000000) * 100; if (r.tv_nsec == 1000000000) { sim_preempt(1); return; }
  CK(pthread_win32_getabstime_np(&t, &r) == &t, "ret", "result"); CK(t.tv_nsec >= 0 && t.tv_nsec < 1000000000, "normal", "%ld nanoseconds", (long)t.tv_nsec); sim_preempt(1); sim_delay_us(R(5000));
}
'''

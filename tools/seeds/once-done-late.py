prop = 'P09'
needs = 'Two threads must call pthread_once for the same control at the same time and the second must take the lock in the window between its release and the marking as done.'
breaks = 'pthread_once marks the control as done only after it has released the lock, so a second caller that was waiting for the lock runs the routine again.'
edits = [('pthread_once.c', 'once_control->done = PTW32_TRUE; } ptw32_mcs_lock_release(&node);', '} ptw32_mcs_lock_release(&node); once_control->done = PTW32_TRUE;')]
secs = 40
demo = r'''
#include "wk.h"
static pthread_once_t oc; static volatile int runs, done;
static void init(void) { sim_add(&runs, 1); wk_work(2); sim_add(&done, 1); }
static void *th(void *v) { OK(pthread_once(&oc, init), "once"); CK(done >= 1, "incomplete", "returned before completion"); return v; }
WORKLOAD(demo) {
  pthread_t t[4]; int n = 2 + R(3); pthread_once_t z = PTHREAD_ONCE_INIT; oc = z; runs = done = 0;
  for (int i = 0; i < n; i++) wk_spawn(&t[i], th, NULL);
  for (int i = 0; i < n; i++) wk_join(t[i]);
  CK(runs == 1, "once", "the routine ran %d times", runs);
}
'''

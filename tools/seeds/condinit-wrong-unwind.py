prop = 'P18'
needs = 'Making the inner mutex of a condition variable must fail (no memory or no event) after both semaphores were made.'
breaks = 'pthread_cond_init unwinds from the wrong step, so a semaphore is leaked every time the inner mutex can not be created.'
edits = [('pthread_cond_init.c', 'goto FAIL2;', 'goto FAIL1;')]
secs = 15
demo = r'''
#include "wk.h"
WORKLOAD(demo) { pthread_cond_t c; int h0, a0; OK(pthread_cond_init(&c, NULL), "init"); OK(pthread_cond_destroy(&c), "destroy"); h0 = sim_live_handles(); a0 = sim_live_allocs();
  for (int n = 0; n < 12; n++) { sim_fault_arm(-1, n, 1); int rc = pthread_cond_init(&c, NULL); int f = sim_fault_disarm(); if (!f) { OK(rc, "init"); OK(pthread_cond_destroy(&c), "destroy"); break; } if (rc == 0) OK(pthread_cond_destroy(&c), "destroy"); CK(sim_live_handles() == h0 && sim_live_allocs() == a0, "leak", "failure at allocation %d leaks: %d handles, %d blocks (before %d, %d)", n, sim_live_handles(), sim_live_allocs(), h0, a0); } }
'''

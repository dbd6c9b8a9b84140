prop = 'P18'
needs = 'pthread_create or the first call of a system thread when no event can be created, again and again.'
breaks = 'The thread structure obtained before the failure is neither pooled nor freed: every failure loses one.'
edits = [('ptw32_new.c', 'ptw32_threadReusePush (tp->ptHandle); return nil;', 'tp->state = PThreadStateReuse;\n      return nil;')]
secs = 30
demo = r'''
#include "wk.h"
static void *th(void *v) { return v; }
WORKLOAD(demo) { pthread_t t; size_t sz = sim_block_size(pthread_self().p); wk_spawn(&t, th, NULL); wk_join(t); sim_quiesce(); int n0 = sim_live_allocs_sized(sz), f = 0;
  for (int i = 0; i < 6; i++) { sim_fault_arm(SIM_F_EVENT, 1, 1); int rc = pthread_create(&t, NULL, th, NULL); sim_fault_disarm(); if (rc) f++; else wk_join(t); }
  CK(f > 0, "harness", "no creation failed"); sim_quiesce(); CK(sim_live_allocs_sized(sz) <= n0 + 1, "leak", "%d thread structures, %d before", sim_live_allocs_sized(sz), n0); }
'''

prop = 'P23'
needs = "Two threads must be creating threads at the same time and read the counter between the other's read and write."
breaks = 'The unique number is taken from the counter without the lock, so two threads of the process can get the same one.'
edits = [('ptw32_new.c', 'ptw32_mcs_lock_acquire(&ptw32_thread_reuse_lock, &node); tp->seqNumber = ++ptw32_threadSeqNumber; ptw32_mcs_lock_release(&node);', 'tp->seqNumber = ++ptw32_threadSeqNumber; (void) node;')]
secs = 40
demo = r'''
#include "wk.h"
static volatile int n; static uint64_t seq[8];
static void *leaf(void *v) { sim_delay_us(2000); return v; }
static void *th(void *v) { pthread_t t[2]; for (int i = 0; i < 2; i++) { wk_spawn(&t[i], leaf, NULL); seq[(size_t)v * 2 + i] = pthread_getunique_np(t[i]); } for (int i = 0; i < 2; i++) wk_join(t[i]); return v; }
WORKLOAD(demo) { pthread_t t[3]; for (int i = 0; i < 3; i++) wk_spawn(&t[i], th, (void *)(size_t)i); for (int i = 0; i < 3; i++) wk_join(t[i]); for (int i = 0; i < 6; i++) for (int j = 0; j < i; j++) CK(seq[i] != seq[j], "unique", "threads %d and %d both have number %d", i, j, (int)seq[i]); }
'''

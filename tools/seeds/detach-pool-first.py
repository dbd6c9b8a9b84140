prop = 'P10'
needs = 'pthread_detach of a thread that has ended meets another pthread_create that takes the structure just put into the pool, in the moment before pthread_detach waits.'
breaks = 'pthread_detach gives the structure of the ended thread back first and waits for the handle in it afterwards, which may by then be that of a new thread: it blocks until an unrelated thread ends.'
edits = [('pthread_detach.c', '(void) WaitForSingleObject(tp->threadH, INFINITE); ptw32_threadDestroy (thread);', 'ptw32_threadDestroy (thread);\n\t  if (tp->threadH != 0)\n\t    {\n\t      (void) WaitForSingleObject(tp->threadH, INFINITE);\n\t    }')]
secs = 100
demo = r'''
#include "wk.h"
static volatile int fre; static void *a_(void *v) { return v; }
static void *c_(void *v) { while (!fre) sim_delay_us(80); return v; }
static void *b_(void *v) { pthread_t c; if (R(2)) wk_work(R(30)); wk_spawn(&c, c_, v); CK(wk_join(c) == v, "join", "value"); return v; }
WORKLOAD(demo) { pthread_t a, b[2]; fre = 0; wk_spawn(&a, a_, NULL); sim_delay_us(500); for (int i = 0; i < 2; i++) wk_spawn(&b[i], b_, b); OK(pthread_detach(a), "detach"); fre = 1; for (int i = 0; i < 2; i++) wk_join(b[i]); }
'''

prop = 'P24'
needs = 'pthread_tryjoin_np with the id of a thread that was joined before, while its structure already serves another thread.'
breaks = 'The reuse count of the id is no longer compared, so the id of a thread that is gone stands for the thread that now uses the recycled structure, which is joined in its place.'
edits = [('pthread_tryjoin_np.c', 'if (NULL == tp || thread.x != tp->ptHandle.x)', 'if (NULL == tp\n      || PThreadStateReuse == tp->state)')]
secs = 60
demo = r'''
#include "wk.h"
static volatile int hold; static void *th(void *v) { while (hold) sim_delay_us(10); return v; }
WORKLOAD(demo) { pthread_t a, b; void *q = NULL; hold = 0; wk_spawn(&a, th, (void *)1); wk_join(a); hold = R(2); wk_spawn(&b, th, (void *)2); if (R(2)) wk_work(R(200)); EQ(pthread_tryjoin_np(a, &q), ESRCH, "stale"); hold = 0; CK(wk_join(b) == (void *)2, "value", "b"); EQ(pthread_tryjoin_np(b, &q), ESRCH, "stale"); }
'''

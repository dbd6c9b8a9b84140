prop = 'P07'
needs = 'sem_post on a semaphore that is at SEM_VALUE_MAX, with errno left over from something else.'
breaks = 'sem_post returns -1 without saying why: errno keeps its old value.'
edits = [('sem_post.c', 'PTW32_SET_ERRNO(result); return -1;', 'if (result != ERANGE)\n        {\n          PTW32_SET_ERRNO(result);\n        }\n      return -1;')]
secs = 20
demo = r'''
#include "wk.h"
WORKLOAD(demo) { sem_t s; OK(sem_init(&s, 0, SEM_VALUE_MAX), "init"); errno = EINTR; CK(sem_post(&s) == -1, "result", "posted above the maximum"); CK(errno == ERANGE, "errno", "errno %d", errno); OK(sem_destroy(&s), "destroy"); }
'''

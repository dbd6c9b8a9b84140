prop = 'P21'
needs = 'pthread_setaffinity_np must be given a set with CPUs the process may not use besides some it may.'
breaks = 'The recorded set is the one asked for, not its intersection with the CPUs of the process: it reads back wrongly and is inherited by threads created afterwards, for which the system refuses it.'
edits = [('pthread_setaffinity.c', 'tp->cpuset = ((_sched_cpu_set_vector_*)&newMask)->_cpuset;', 'tp->cpuset = ((_sched_cpu_set_vector_*)cpuset)->_cpuset;')]
secs = 10
demo = r'''
#include "wk.h"
WORKLOAD(demo) { cpu_set_t a; sim_set_cpus(0x35, 0xff); CPU_ZERO(&a); CPU_SET(0, &a); CPU_SET(2, &a); CPU_SET(3, &a); OK(pthread_setaffinity_np(pthread_self(), sizeof a, &a), "set"); cpu_set_t b; CPU_ZERO(&b); OK(pthread_getaffinity_np(pthread_self(), sizeof b, &b), "get"); CK(CPU_ISSET(0, &b) && CPU_ISSET(2, &b) && !CPU_ISSET(3, &b), "affinity", "reads back wrong"); }
'''

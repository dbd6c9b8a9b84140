prop = 'P12'
needs = 'A cleanup handler must itself leave the thread (pthread_exit, or be cancelled) or pop further handlers while it runs.'
breaks = 'ptw32_pop_cleanup takes the handler off the list only after having run it, so a handler that calls pthread_exit is run a second time by the unwinding.'
edits = [('cleanup.c', 'pthread_setspecific (ptw32_cleanupKey, (void *) cleanup->prev);', ''), ('cleanup.c', '(*cleanup->routine) (cleanup->arg); }', '(*cleanup->routine) (cleanup->arg); } pthread_setspecific (ptw32_cleanupKey, (void *) cleanup->prev);')]
secs = 20
modes = 'c'
demo = r'''
#include "wk.h"
static volatile int runs[3]; static int how;
static void h(void *v) { int i = *(int *)v; sim_add(&runs[i], 1); if (how == i && runs[i] < 3) pthread_exit((void *)(size_t)7); }
static int id[3] = { 0, 1, 2 };
static void *th(void *v) { pthread_cleanup_push(h, &id[0]); pthread_cleanup_push(h, &id[1]); wk_work(1); pthread_cleanup_pop(1); pthread_cleanup_pop(1); return v; }
WORKLOAD(demo) {
  pthread_t t; how = R(3); runs[0] = runs[1] = runs[2] = 0; wk_spawn(&t, th, NULL); wk_join(t);
  CK(runs[0] == 1 && runs[1] == 1, "once", "handlers ran %d and %d times (exit in %d)", runs[0], runs[1], how);
}
'''

prop = 'P10'
needs = 'pthread_detach must read the state of the target while it is running and the target must end (passing its own detach check) before the detach is recorded.'
breaks = 'pthread_detach decides about a running thread without the state lock, so a thread that ends in between is neither cleaned up by itself nor by the detacher: its id stays valid for ever and its resources leak.'
edits = [('pthread_detach.c', 'ptw32_mcs_lock_acquire (&tp->stateLock, &stateLock);', ''), ('pthread_detach.c', 'ptw32_mcs_lock_release (&stateLock);', 'stateLock.lock = 0; (void) stateLock;')]
secs = 40
demo = r'''
#include "wk.h"
static void *th(void *v) { wk_work(R(8)); return v; }
WORKLOAD(demo) {
  pthread_t t[3]; int n = 1 + R(3), h0;
  wk_spawn(&t[0], th, NULL); wk_join(t[0]); sim_settle(); h0 = sim_live_handles();
  for (int i = 0; i < n; i++) wk_spawn(&t[i], th, NULL);
  for (int i = 0; i < n; i++) { wk_work(R(20)); OK(pthread_detach(t[i]), "detach"); }
  sim_settle();
  for (int i = 0; i < n; i++) EQ(pthread_kill(t[i], 0), ESRCH, "stale");
  CK(sim_live_handles() <= h0, "leak", "%d handles, before %d", sim_live_handles(), h0);
}
'''

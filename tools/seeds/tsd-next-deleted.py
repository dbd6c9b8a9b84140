prop = 'P13'
needs = 'A thread ends with values for three keys, and the destructor of the first association visited deletes the key whose association is to be visited next, while another one follows.'
breaks = 'When pthread_key_delete removes the association that the ending thread is about to visit and others follow, the pointer of the thread to it is not advanced, so the thread goes on with a freed association.'
edits = [('ptw32_tkAssocDestroy.c', 'assoc->thread->nextAssoc == assoc', 'assoc->thread->nextAssoc == assoc && NULL == next')]
secs = 40
demo = r'''
#include "wk.h"
static pthread_key_t k[3]; static volatile int gone, got[3], stage, set;
static void d0(void *v) { sim_add(&got[(size_t)v - 1], 1); sim_delay_us(R(2) * 1000); if (stage == 1 && (size_t)v == 3) { stage = 2; gone = 1; OK(pthread_key_delete(k[1]), "delete"); } }
static void *th(void *v) { for (int i = 0; i < 3; i++) OK(pthread_setspecific(k[i], (void *)(size_t)(i + 1)), "set"); sim_add(&set, 1); sim_delay_us(R(3) * 1000); return v; }
static void *del(void *v) { sim_delay_us(R(4) * 1000); OK(pthread_key_delete(k[gone = R(2)]), "delete"); return v; }
WORKLOAD(demo) {
  pthread_t t[2], u; int n = 1 + R(2); stage = set = 0; gone = -1; for (int i = 0; i < 3; i++) { got[i] = 0; OK(pthread_key_create(&k[i], d0), "create"); }
  int own = R(2); if (own) stage = n = 1;
  for (int i = 0; i < n; i++) wk_spawn(&t[i], th, NULL);
  while (set < n) sim_delay_us(20); if (!own) { wk_spawn(&u, del, NULL); wk_join(u); }
  for (int i = 0; i < n; i++) wk_join(t[i]);
  CK(got[2] == n, "destructor", "the destructor of the last key ran %d times for %d threads", got[2], n);
  for (int i = 0; i < 3; i++) if (i != gone) OK(pthread_key_delete(k[i]), "delete");
}
'''

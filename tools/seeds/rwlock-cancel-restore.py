prop = 'P05'
needs = 'A writer must wait for several readers, of which some leave and some do not, and then time out or be cancelled; the rwlock must be used by a writer afterwards.'
breaks = 'The clean-up of a waiting writer forgets the readers that left while it waited, so they are counted as being inside for ever and no later writer is ever let in.'
edits = [('ptw32_rwlock_cancelwrwait.c', 'rwl->nSharedAccessCount = -rwl->nCompletedSharedAccessCount;', ';')]
secs = 40
demo = r'''
#include "wk.h"
static pthread_rwlock_t rw; static volatile int rd, wr; 
static void *reader(void *v) { OK(pthread_rwlock_rdlock(&rw), "rd"); sim_add(&rd, 1); CK(!wr, "excl", "reader with writer"); sim_delay_us(v ? 1000 : 20000); CK(!wr, "excl", "writer entered beside a reader"); sim_add(&rd, -1); OK(pthread_rwlock_unlock(&rw), "un"); return v; }
WORKLOAD(demo) {
  pthread_t t[3]; int n = 1 + R(3); OK(pthread_rwlock_init(&rw, NULL), "init"); rd = wr = 0;
  for (int i = 0; i < n; i++) wk_spawn(&t[i], reader, i % 2 ? NULL : (void *)&rw);
  sim_delay_us(500); struct timespec ts; wk_abs(&ts, 3000);
  int rc = pthread_rwlock_timedwrlock(&rw, &ts);
  if (rc == 0) { CK(!rd, "excl", "writer entered with %d readers", rd); OK(pthread_rwlock_unlock(&rw), "un"); }
  else { wk_abs(&ts, 2000 + R(40000)); rc = pthread_rwlock_timedwrlock(&rw, &ts); if (rc == 0) { wr = 1; CK(!rd, "excl", "second writer entered with %d readers", rd); sim_user_point(); wr = 0; OK(pthread_rwlock_unlock(&rw), "un"); } }
  for (int i = 0; i < n; i++) wk_join(t[i]);
  EQ(pthread_rwlock_trywrlock(&rw), 0, "free"); OK(pthread_rwlock_unlock(&rw), "un"); OK(pthread_rwlock_destroy(&rw), "destroy");
}
'''

prop = 'P05'
needs = 'A trywrlock must succeed after readers have come and gone, and afterwards readers must still be inside when the next writer asks.'
breaks = 'pthread_rwlock_trywrlock subtracts the readers that have left but forgets to clear their number, so they are subtracted again by the next writer, which then does not wait for a reader that is inside.'
edits = [('pthread_rwlock_trywrlock.c', 'rwl->nSharedAccessCount -= rwl->nCompletedSharedAccessCount; rwl->nCompletedSharedAccessCount = 0;', 'rwl->nSharedAccessCount -= rwl->nCompletedSharedAccessCount;')]
secs = 40
demo = r'''
#include "wk.h"
static pthread_rwlock_t rw; static volatile int rd, wr;
static void *reader(void *v) { OK(pthread_rwlock_rdlock(&rw), "rd"); sim_add(&rd, 1); sim_delay_us(1000 + R(4000)); CK(!wr, "excl", "writer entered beside a reader"); sim_add(&rd, -1); OK(pthread_rwlock_unlock(&rw), "un"); return v; }
WORKLOAD(demo) {
  pthread_t t[3]; int n = 1 + R(3); OK(pthread_rwlock_init(&rw, NULL), "init"); rd = wr = 0;
  for (int i = 0; i < n; i++) wk_spawn(&t[i], reader, &rw);
  for (int i = 0; i < n; i++) wk_join(t[i]);
  EQ(pthread_rwlock_trywrlock(&rw), 0, "try"); OK(pthread_rwlock_unlock(&rw), "un");
  for (int i = 0; i < n; i++) wk_spawn(&t[i], reader, &rw);
  sim_delay_us(500);
  OK(pthread_rwlock_wrlock(&rw), "wr"); wr = 1; CK(!rd, "excl", "writer entered with %d readers", rd); wk_work(3); wr = 0; OK(pthread_rwlock_unlock(&rw), "un");
  for (int i = 0; i < n; i++) wk_join(t[i]);
  EQ(pthread_rwlock_trywrlock(&rw), 0, "free"); OK(pthread_rwlock_unlock(&rw), "un"); OK(pthread_rwlock_destroy(&rw), "destroy");
}
'''

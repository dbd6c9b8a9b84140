/* Aging: brings a fresh object into the state it has after billions of
 * operations, by finding its operation counters (the words of the object that
 * grew by exactly the number of operations just made) and advancing them.  An
 * object that keeps no such counters is left alone. */
#ifndef WK_AGE_H
#define WK_AGE_H
#include "wk.h"
#include <limits.h>
static __attribute__((unused)) int age_rwlock(pthread_rwlock_t *l) {
  int a[32], b[32], c[32], n = sim_block_get((void *)*l, a, 32), s = -1, q = -1, bad = 0; if (!n) return 0;
  for (int i = 0; i < 5; i++) OK(pthread_rwlock_rdlock(l), "result"); sim_block_get((void *)*l, b, 32);
  for (int i = 0; i < 5; i++) OK(pthread_rwlock_unlock(l), "unlock"); sim_block_get((void *)*l, c, 32);
  for (int i = 0; i < n; i++) { if (b[i] == a[i] && c[i] == a[i]) continue; if (a[i] == 0 && b[i] == 5 && c[i] == 5 && s < 0) s = i; else if (a[i] == 0 && b[i] == 0 && c[i] == 5 && q < 0) q = i; else bad = 1; }
  if (bad || s < 0 || q < 0) return 0;
  int v = INT_MAX - 2 - R(4); sim_block_set((void *)*l, s, v); sim_block_set((void *)*l, q, v); sim_stat("aged_rwlocks", 1); return 1;
}
static __attribute__((unused)) int age_cond(pthread_cond_t *cv) {
  int a[32], b[32], n = sim_block_get((void *)*cv, a, 32), k = 0, ix[2]; if (!n) return 0; pthread_mutex_t m; struct timespec ts;
  OK(pthread_mutex_init(&m, NULL), "init"); OK(pthread_mutex_lock(&m), "lock"); for (int i = 0; i < 3; i++) { wk_abs(&ts, -1000); EQ(pthread_cond_timedwait(cv, &m, &ts), ETIMEDOUT, "timeout"); } OK(pthread_mutex_unlock(&m), "unlock"); OK(pthread_mutex_destroy(&m), "destroy");
  sim_block_get((void *)*cv, b, 32);
  for (int i = 0; i < n; i++) { if (b[i] == a[i]) continue; if (a[i] != 0 || b[i] != 3 || k >= 2) return 0; ix[k++] = i; }
  if (k != 2) return 0;
  int v = INT_MAX / 2 - 1 - R(4); sim_block_set((void *)*cv, ix[0], v); sim_block_set((void *)*cv, ix[1], v); sim_stat("aged_conds", 1); return 1;
}
#endif

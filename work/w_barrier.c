#include "wk.h"
/* ---- barriers: nobody passes before all have arrived, exactly one serial
 * thread per round, reusable at once, destroyable by the last one through ----- */
#define MAXR 8
static pthread_barrier_t BA; static volatile int arrived[MAXR], passed[MAXR], serial[MAXR], rounds, height, gone;
typedef struct { int id; } ba;
static void *ba_thr(void *v) {
  for (int r = 0; r < rounds; r++) {
    if (R(3) == 0) sim_delay_us(R(3000)); else wk_work(R(3));
    sim_add(&arrived[r], 1);
    int rc = pthread_barrier_wait(&BA);
    CK(rc == 0 || rc == PTHREAD_BARRIER_SERIAL_THREAD, "wait-result", "barrier wait -> %d", rc);
    CK(arrived[r] == height, "passed-early", "a thread passed round %d after %d of %d arrivals", r, arrived[r], height);
    if (r > 0) CK(passed[r - 1] <= height, "rounds", "round overflow");
    sim_add(&passed[r], 1);
    if (rc) { int s = sim_add(&serial[r], 1); CK(s == 1, "serial", "%d serial threads in round %d", s, r); }
  }
  return v;
}
WORKLOAD(barrier_rounds) {
  pthread_t t[8]; height = 1 + R(7); rounds = 1 + R(MAXR - 1); memset((void *)arrived, 0, sizeof arrived); memset((void *)passed, 0, sizeof passed); memset((void *)serial, 0, sizeof serial);
  EQ(pthread_barrier_init(&BA, NULL, 0), EINVAL, "init-zero"); OK(pthread_barrier_init(&BA, NULL, height), "init");
  for (int i = 0; i < height; i++) wk_spawn(&t[i], ba_thr, &t[i]);
  for (int i = 0; i < height; i++) wk_join(t[i]);
  for (int r = 0; r < rounds; r++) CK(passed[r] == height && serial[r] == 1, "serial", "round %d: %d passed, %d serial threads (height %d)", r, passed[r], serial[r], height);
  sim_state(height * 16 + rounds); sim_stat("rounds", rounds);
  OK(pthread_barrier_destroy(&BA), "destroy"); EQ(pthread_barrier_wait(&BA), EINVAL, "destroyed"); EQ(pthread_barrier_destroy(&BA), EINVAL, "destroyed");
}
/* more threads than the height: they form rounds of exactly `height` threads;
 * blocked threads make the barrier busy */
static volatile int bin, bout, bser;
static void *bm_thr(void *v) { sim_add(&bin, 1); int rc = pthread_barrier_wait(&BA); CK(rc == 0 || rc == PTHREAD_BARRIER_SERIAL_THREAD, "wait-result", "barrier wait -> %d", rc); int o = sim_add(&bout, 1); if (rc) sim_add(&bser, 1); CK(o <= bin / height * height, "passed-early", "%d threads passed a barrier of height %d after %d arrivals", o, height, bin); return v; }
WORKLOAD(barrier_groups) {
  pthread_t t[12]; int n, k; height = 2 + R(3); k = 1 + R(3); n = height * k; if (n > 12) n = height * (k = 2); bin = bout = bser = 0; OK(pthread_barrier_init(&BA, NULL, height), "init");
  int first = 1 + R(height - 1 ? height - 1 : 1); if (first >= height) first = height - 1;
  for (int i = 0; i < first; i++) wk_spawn(&t[i], bm_thr, &t[i]);
  sim_settle(); while (bin < first) { sim_delay_us(100); sim_settle(); }
  sim_settle(); CK(bout == 0, "passed-early", "%d threads passed with %d of %d arrived", bout, bin, height);
  EQ(pthread_barrier_destroy(&BA), EBUSY, "destroy-busy"); sim_stat("busy_destroys", 1);
  for (int i = first; i < n; i++) wk_spawn(&t[i], bm_thr, &t[i]);
  for (int i = 0; i < n; i++) wk_join(t[i]);
  CK(bout == n && bser == k, "serial", "%d threads passed in %d rounds, %d serial threads", bout, k, bser); sim_state(n * 16 + height);
  OK(pthread_barrier_destroy(&BA), "destroy");
}
/* the serial thread may destroy (and free) the barrier as soon as its wait returns */
static pthread_barrier_t *BP; static volatile int destroyed;
static void *bd_thr(void *v) { int rc = pthread_barrier_wait(BP); CK(rc == 0 || rc == PTHREAD_BARRIER_SERIAL_THREAD, "wait-result", "barrier wait -> %d", rc); if (rc) { int d = 0; for (int k = 0; k < 50 && (d = pthread_barrier_destroy(BP)) == EBUSY; k++) sim_yield(); CK(d == 0, "destroy-after-serial", "destroy after the last wait returned -> %d", d); destroyed++; } return v; }
WORKLOAD(barrier_destroy) {
  pthread_t t[6]; pthread_barrier_t b; int n = 1 + R(6); BP = &b; destroyed = 0; OK(pthread_barrier_init(&b, NULL, n), "init");
  for (int i = 0; i < n; i++) wk_spawn(&t[i], bd_thr, &t[i]);
  for (int i = 0; i < n; i++) wk_join(t[i]);
  CK(destroyed == 1, "serial", "%d serial threads", destroyed); sim_state(n); sim_stat("serial_destroys", 1);
}

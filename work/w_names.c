#include "wk.h"
/* ---- thread names: a register per thread, whole strings, bounded copies ------- */
#define NT 4
#define NS 80
typedef struct { uint64_t b, e; } span;
typedef struct { int id, ops; pthread_t th; volatile int made, nset, over; span set[NS]; } nm;
static nm N[NT]; static int nn;
static int namelen(int i, int k) { return (i * 7 + k * 13) % 41; }
static void mkname(char *b, int i, int k) { int l = snprintf(b, 80, "%d.%d:", i, k); for (int j = 0, n = namelen(i, k); j < n; j++) b[l++] = (char)('a' + (i + k + j) % 26); b[l] = 0; }
static int parse(const char *s, int i, int trunc) { /* which name is it? */
  int a = -1, k = -1; char e[90]; if (sscanf(s, "%d.%d:", &a, &k) != 2 || a != i || k < 0 || k >= NS) return -1; mkname(e, i, k); if (strcmp(s, e) == 0) return k; if (trunc && strncmp(s, e, strlen(s)) == 0) return k; return -1; }
static void setit(nm *m) { char b[90]; int k = sim_add(&m->nset, 1) - 1; if (k >= NS) { m->nset = NS; return; } mkname(b, m->id, k); m->set[k].b = sim_seq(); int rc = pthread_setname_np(m->th, b); memset(b, 'X', sizeof b - 1); m->set[k].e = sim_seq(); CK(rc == 0, "setname", "-> %d", rc); sim_stat("names_set", 1); }
static void getit(nm *m) {
  char buf[100]; memset(buf, '%', sizeof buf); int len = R(4) ? 80 : 1 + R(30); uint64_t b = sim_seq(); int rc = pthread_getname_np(m->th, buf, len); uint64_t e = sim_seq(); CK(rc == 0, "getname", "-> %d", rc);
  for (int i = len; i < (int)sizeof buf; i++) CK(buf[i] == '%', "getname-bound", "getname with a buffer of %d wrote at %d", len, i);
  int end = 0; while (end < len && buf[end]) end++; CK(end < len, "getname-terminated", "name not terminated within %d bytes", len);
  sim_stat("names_got", 1); int full = end < len - 1;
  if (!full && len < 12) return; /* the name's number may be cut off */
  if (full && !buf[0]) { for (int k = 0; k < m->nset && k < NS; k++) CK(!m->set[k].e || m->set[k].e > b, "name-register", "a name set before was not there"); return; }
  int k = parse(buf, m->id, !full); CK(k >= 0, "name-whole", "thread %d has the name \"%s\"", m->id, buf); CK(k < m->nset && m->set[k].b < e, "name-register", "name %d read before it was set", k);
  for (int o = 0; o < m->nset && o < NS; o++) CK(!(o != k && m->set[k].e && m->set[o].b > m->set[k].e && m->set[o].e && m->set[o].e < b), "name-register", "thread %d: read name %d, which name %d had replaced", m->id, k, o); }
static void *nthr(void *v) {
  nm *me = (nm *)v; while (!me->made) sim_delay_us(20);
  for (int i = 0; i < me->ops; i++) { nm *m = &N[R(nn)]; if (!m->made) continue; if (R(2)) setit(m); else getit(m); if (R(6) == 0) sim_delay_us(R(200)); }
  getit(me); sim_add(&me->over, 1); for (int i = 0; i < nn; i++) while (!N[i].over) sim_delay_us(100); return v; }
WORKLOAD(names) {
  char b[90], c[90]; memset(N, 0, sizeof N); nn = 1 + R(NT);
  for (int i = 0; i < nn; i++) { nm *m = &N[i]; m->id = i; m->ops = R(14); pthread_attr_t a; int useattr = R(2); pthread_t t;
    if (useattr) { OK(pthread_attr_init(&a), "attr");
      memset(c, '%', sizeof c); OK(pthread_attr_getname_np(&a, c, 80), "attr-getname"); CK(!c[0], "attr-name", "the name of new attributes is \"%.20s\"", c);
      for (int k = 0, n = R(3); k < n; k++) { mkname(b, 9, k + 1); OK(pthread_attr_setname_np(&a, b), "attr-setname"); memset(c, '%', sizeof c); int len = R(2) ? 80 : 1 + R(20); OK(pthread_attr_getname_np(&a, c, len), "attr-getname"); int l = (int)strlen(b); if (l > len - 1) l = len - 1; CK(strncmp(b, c, l) == 0 && c[l] == 0 && c[len] == '%', "attr-name", "attributes' name with length %d: \"%.60s\"", len, c); }
      m->set[0].b = sim_seq(); m->nset = 1; mkname(b, i, 0); OK(pthread_attr_setname_np(&a, b), "attr-setname"); memset(b, 'Y', 20); }
    OK(pthread_create(&t, useattr ? &a : NULL, nthr, m), "create"); m->th = t; if (useattr) { m->set[0].e = sim_seq(); if (R(2)) { mkname(b, 9, 9); OK(pthread_attr_setname_np(&a, b), "attr-setname"); } OK(pthread_attr_destroy(&a), "attr"); }
    m->made = 1; if (R(2)) getit(m); }
  for (int i = 0, n = R(10); i < n; i++) { nm *m = &N[R(nn)]; if (R(2)) setit(m); else getit(m); }
  for (int i = 0; i < nn; i++) { if (R(2)) getit(&N[i]); wk_join(N[i].th); EQ(pthread_getname_np(N[i].th, b, 80), ESRCH, "stale-id"); EQ(pthread_setname_np(N[i].th, "x"), ESRCH, "stale-id"); }
  sim_state(nn);
}

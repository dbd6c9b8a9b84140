/* Deterministic Win32 simulator: coroutine threads, virtual time, kernel
 * objects, instrumented heap and memory-access hooks.  See DESIGN.md. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#include <execinfo.h>
#include "include/w32api.h"
#include "sim.h"
#ifdef SIM_ASAN
#include <sanitizer/asan_interface.h>
void __sanitizer_start_switch_fiber(void **, const void *, size_t);
void __sanitizer_finish_switch_fiber(void *, const void **, size_t *);
#endif

#define MAXTHR 192
#define STKSZ (256 * 1024)
#define NTLS 160
#define MAXWAIT 64
typedef uint64_t u64; typedef uint32_t u32;

int sim_variant_cxx, sim_verbose;

/* ------------------------------------------------------------------ rng */
typedef struct { u64 s; } rng_t;
static u64 rnd64(rng_t *r) { u64 z = (r->s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static u32 rndn(rng_t *r, u32 n) { return n ? (u32)((rnd64(r) >> 32) * n >> 32) : 0; }
static rng_t rsch, rwork;
uint32_t sim_rand(uint32_t n) { return rndn(&rwork, n); }
int sim_chance(int a, int b) { return (int)rndn(&rwork, b) < a; }

/* -------------------------------------------------------------- objects */
enum { O_EVENT = 1, O_SEM, O_THREAD, O_MUTEX, O_PROC };
typedef struct obj { int type, refs, manual; int sig; int max; int tid; struct obj *nx; int owner, rec; } obj;
typedef struct { obj *o; void *open_pc, *close_pc; int close_tid; u64 open_seq, close_seq; } hent;
static hent *ht; static int nht, capht; static int live_handles;

enum { T_FREE = 0, T_RUN, T_BLOCK, T_DEAD };
typedef struct thr {
  int id, st, susp, slot; void *sp; char *stk; obj *to;
  obj *w[MAXWAIT]; int wn, wall; u64 wdl; int wtimed; DWORD wres; int wquiesce, wsettle; const char *wwhat; void *wpc;
  u32 lasterr; int err; void *tls[NTLS]; void *ehg[2];
  void (*redir)(void); unsigned (*fn)(void *); void *arg; u32 exitcode;
  long prio; int paused; int wpri; u64 aff, stkreq; const char *label; u64 bornseq;
  struct { PAPCFUNC f; ULONG_PTR a; } apc[4]; int napc;
#ifdef SIM_ASAN
  void *fake;
#endif
} thr;
static thr *T[65536]; static int nT; static thr *cur; static thr T0;
static char *stkbase; static thr *slot_owner[MAXTHR]; static u64 slot_dead_at[MAXTHR];
static int started, nlive;
static int batch_done;

/* ------------------------------------------------------------ statistics */
static u64 st_steps, st_sync, st_mem, st_switch, st_checks, st_episodes, st_timeouts, st_waits, st_wakes, st_blocks, st_threads, st_leaps, st_faults, st_redir, st_heapck, st_stkck, st_handleck, st_allocs;
#define HSN (1u << 18)
static u64 *hs_tab[2]; static u32 hs_n[2];
static void hs_add(int which, u64 h) {
  if (!hs_tab[which]) hs_tab[which] = calloc(HSN, 8);
  if (!h) h = 1;
  u32 i = (u32)(h * 0x9E3779B97F4A7C15ull >> 40) & (HSN - 1);
  if (hs_n[which] > HSN * 3 / 4) return;
  while (hs_tab[which][i] && hs_tab[which][i] != h) i = (i + 1) & (HSN - 1);
  if (!hs_tab[which][i]) { hs_tab[which][i] = h; hs_n[which]++; }
}
static u64 sched_hash;
static struct { const char *n; u64 v; } cnt[256]; static int ncnt;
void sim_stat(const char *n, int add) { for (int i = 0; i < ncnt; i++) if (cnt[i].n == n || !strcmp(cnt[i].n, n)) { cnt[i].v += add; return; } if (ncnt < 256) { cnt[ncnt].n = n; cnt[ncnt++].v = add; } }
int sim_add(volatile int *p, int d) { return *p += d; }
void sim_stat_check(void) { st_checks++; }
void sim_state(uint64_t h) { hs_add(1, h * 0xD6E8FEB86659FD93ull + 77); }

/* -------------------------------------------------------------- settings */
static u64 opt_seed = 1; static int opt_eps = 100, opt_only = -1, opt_policy = -1, opt_reuse = -1;
static const char *opt_work; static int cur_ep; static u64 opt_steplim = 4000000; static int opt_findings_fatal;
static struct sim_workload wls[128], *W; static int nwls;
void sim_register(const char *n, void (*f)(int, int)) { wls[nwls].name = n; wls[nwls++].episode = f; }
void sim_register_hooks(const char *n, void (*b)(void), void (*e)(void)) { for (int i = 0; i < nwls; i++) if (!strcmp(wls[i].name, n)) { wls[i].begin = b; wls[i].end = e; } }

/* ----------------------------------------------------------------- trace */
#define NTR 4096
static struct { u64 step; int t; char m[116]; } tr[NTR]; static u64 ntr;
void sim_trace(const char *f, ...) { va_list a; va_start(a, f); int i = ntr++ % NTR; tr[i].step = st_steps; tr[i].t = cur->id; vsnprintf(tr[i].m, sizeof tr[i].m, f, a); va_end(a); if (sim_verbose > 1) fprintf(stderr, "[%d @%llu] %s\n", cur->id, (unsigned long long)st_steps, tr[i].m); }
static void jstr(FILE *f, const char *s) { fputc('"', f); for (; *s; s++) { if (*s == '"' || *s == '\\') fputc('\\', f); if (*s == '\n') { fputs("\\n", f); continue; } if ((unsigned char)*s < 32) continue; fputc(*s, f); } fputc('"', f); }
static const char *tstate(thr *t) { static const char *n[] = {"free", "runnable", "blocked", "dead"}; return n[t->st]; }
static void dump_threads(FILE *f) {
  for (int i = 1; i < nT; i++) { thr *t = T[i]; if (!t || t->st == T_DEAD || t->st == T_FREE) continue;
    fprintf(f, "  thread %d: %s%s label=%s", t->id, tstate(t), t->susp ? "(suspended)" : "", t->label ? t->label : "-");
    if (t->st == T_BLOCK) { fprintf(f, " in %s", t->wwhat ? t->wwhat : "?"); if (t->wtimed) fprintf(f, " timed"); for (int k = 0; k < t->wn; k++) fprintf(f, " obj(type%d sig=%d)", t->w[k]->type, t->w[k]->sig); fprintf(f, " pc=%p", t->wpc); }
    fputc('\n', f); } }
static int in_report;
static void report(const char *kind, const char *oracle, const char *msg) {
  if (in_report++) _exit(3);
  fflush(stdout);
  printf("VIOL {\"kind\":\"%s\",\"oracle\":", kind); jstr(stdout, oracle);
  printf(",\"workload\":"); jstr(stdout, opt_work); printf(",\"variant\":%d,\"seed\":%llu,\"episodes\":%d,\"episode\":%d,\"step\":%llu,\"thread\":%d,\"label\":", sim_variant_cxx, (unsigned long long)opt_seed, opt_eps, cur_ep, (unsigned long long)st_steps, cur ? cur->id : -1);
  jstr(stdout, cur && cur->label ? cur->label : "-"); printf(",\"msg\":"); jstr(stdout, msg);
  void *bt[24]; int n = 0;
#ifndef SIM_ASAN
  n = backtrace(bt, 24);
#endif
  printf(",\"bt\":["); for (int i = 0; i < n; i++) printf("%s\"%p\"", i ? "," : "", bt[i]); printf("]}\n");
  fprintf(stderr, "VIOL %s/%s: %s\n", kind, oracle, msg); dump_threads(stderr);
  if (sim_verbose) { u64 b = ntr > 200 * (u64)sim_verbose ? ntr - 200 * (u64)sim_verbose : 0; for (u64 i = b; i < ntr; i++) fprintf(stderr, "  [%llu] t%d %s\n", (unsigned long long)tr[i % NTR].step, tr[i % NTR].t, tr[i % NTR].m); }
  fflush(stdout); fflush(stderr); _exit(3);
}
static void viol(const char *kind, const char *oracle, const char *f, ...) { char b[700]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); report(kind, oracle, b); }
void sim_violation(const char *oracle, const char *f, ...) { char b[700]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); report("oracle", oracle, b); _exit(3); }
static void crash(int s, siginfo_t *si, void *uc) {
  (void)uc; char b[200]; snprintf(b, sizeof b, "signal %d at address %p", s, si ? si->si_addr : 0); report("crash", "no-crash", b); }

/* a thread that spins without passing any scheduling point never gives up the
 * processor: a CPU-time watchdog reports it (CPU time, so load does not matter) */
#include <sys/time.h>
static u64 wd_last = ~0ull; static int wd_same;
static void watchdog(int s) { (void)s; if (wd_last == st_steps + st_episodes * 7919) { if (++wd_same >= 4) report("hang", "spin-without-progress", cur && cur->label ? cur->label : "-"); } else wd_same = 0; wd_last = st_steps + st_episodes * 7919; }
void sim_finding(const char *oracle, const char *f, ...) { char b[500]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); printf("FINDING {\"oracle\":"); jstr(stdout, oracle); printf(",\"workload\":"); jstr(stdout, opt_work); printf(",\"msg\":"); jstr(stdout, b); printf("}\n"); }

/* ------------------------------------------------------------------ heap */
#define HEAPSZ (1ull << 31)
static char *hbase; static unsigned char *hshadow; static u64 hoff;
typedef struct hhdr { u64 size; void *apc, *fpc; u32 magic; u32 seq; struct hhdr *prev, *next; u64 pad; } hhdr; /* 56 -> pad to 64 */
#define HM_LIVE 0xA110CA7Eu
#define HM_FREE 0xDEADF4EEu
#define HHDR 64
static hhdr hlist = { .prev = &hlist, .next = &hlist }; static int live_allocs; static u64 live_bytes;
static hhdr *fl[64][8]; static int nfl[64];
static int heap_reuse;
static int fault_mask, fault_at, fault_count, fault_inj, fault_kind_;
static int fault(int k) { if (!(fault_mask & k) || fault_count <= 0) return 0; if (--fault_at > 0) return 0; fault_count--; fault_inj++; fault_kind_ = k; st_faults++; return 1; }
void sim_fault_arm(int m, int n, int c) { fault_mask = m; fault_at = n; fault_count = c; fault_inj = 0; fault_kind_ = 0; }
int sim_fault_disarm(void) { fault_mask = 0; return fault_inj; }
int sim_fault_kind(void) { return fault_kind_; }
static void hunlink(hhdr *h) { h->prev->next = h->next; h->next->prev = h->prev; }
static void *halloc(u64 n, void *pc) {
  if (n == 0) n = 1;
  u64 g = (n + 15) & ~15ull; int cls = g / 16 < 64 ? (int)(g / 16) : 0; hhdr *h = 0;
  if (heap_reuse && cls && nfl[cls]) h = fl[cls][--nfl[cls]];
  if (!h) { if (hoff + HHDR + g + 16 > HEAPSZ) { fprintf(stderr, "sim heap exhausted\n"); _exit(4); } h = (hhdr *)(hbase + hoff); hoff += HHDR + g + 16; }
  h->size = n; h->apc = pc; h->fpc = 0; h->magic = HM_LIVE; h->next = hlist.next; h->prev = &hlist; h->next->prev = h; hlist.next = h;
  char *p = (char *)h + HHDR; u64 s = (p - hbase) >> 4; memset(hshadow + s, 16, g / 16); if (n & 15) hshadow[s + g / 16 - 1] = n & 15;
  memset(p, 0xA5, n); live_allocs++; live_bytes += n; st_allocs++; return p;
}
static void sim_point(int kind, void *pc);
static void hfree(void *p, void *pc) {
  if (!p) return;
  char *c = p; if (c < hbase + HHDR || c >= hbase + HEAPSZ) { viol("memory", "free", "free of non-heap pointer %p", p); }
  hhdr *h = (hhdr *)(c - HHDR);
  if (((u64)c & 15) || (h->magic != HM_LIVE && h->magic != HM_FREE)) viol("memory", "free", "free of invalid pointer %p", p);
  if (h->magic == HM_FREE) viol("memory", "double-free", "double free of %llu-byte block (first free pc %p)", (unsigned long long)h->size, h->fpc);
  h->magic = HM_FREE; h->fpc = pc; hunlink(h); live_allocs--; live_bytes -= h->size;
  u64 g = (h->size + 15) & ~15ull; memset(hshadow + ((c - hbase) >> 4), 0xFD, g / 16); memset(p, 0xDD, h->size);
  int cls = g / 16 < 64 ? (int)(g / 16) : 0; if (heap_reuse && cls && nfl[cls] < 8) fl[cls][nfl[cls]++] = h;
}
void *sim_malloc(size_t n) { sim_point(1, __builtin_return_address(0)); if (fault(SIM_F_MALLOC)) { *sim_errno_loc() = ENOMEM; return 0; } return halloc(n, __builtin_return_address(0)); }
void *sim_calloc(size_t a, size_t b) { sim_point(1, __builtin_return_address(0)); if (fault(SIM_F_MALLOC)) { *sim_errno_loc() = ENOMEM; return 0; } if (b && a > (size_t)-1 / b) return 0; void *p = halloc(a * b, __builtin_return_address(0)); memset(p, 0, a * b); return p; }
void *sim_realloc(void *o, size_t n) { sim_point(1, __builtin_return_address(0)); if (fault(SIM_F_MALLOC)) return 0; void *p = halloc(n, __builtin_return_address(0)); if (o) { hhdr *h = (hhdr *)((char *)o - HHDR); memcpy(p, o, h->size < n ? h->size : n); hfree(o, __builtin_return_address(0)); } return p; }
void sim_free(void *p) { sim_point(1, __builtin_return_address(0)); hfree(p, __builtin_return_address(0)); }
char *sim_strdup(const char *s) { char *p = sim_malloc(strlen(s) + 1); if (p) strcpy(p, s); return p; }
/* plain-heap flavour, used by the ASan build */
void *simh_malloc(size_t n) { sim_point(1, 0); if (fault(SIM_F_MALLOC)) { *sim_errno_loc() = ENOMEM; return 0; } live_allocs++; return malloc(n); }
void *simh_calloc(size_t a, size_t b) { sim_point(1, 0); if (fault(SIM_F_MALLOC)) { *sim_errno_loc() = ENOMEM; return 0; } live_allocs++; return calloc(a, b); }
void *simh_realloc(void *o, size_t n) { sim_point(1, 0); if (fault(SIM_F_MALLOC)) return 0; if (!o) live_allocs++; return realloc(o, n); }
void simh_free(void *p) { sim_point(1, 0); if (p) live_allocs--; free(p); }
char *simh_strdup(const char *s) { char *p = simh_malloc(strlen(s) + 1); if (p) strcpy(p, s); return p; }
int sim_live_allocs(void) { return live_allocs; }
size_t sim_block_size(void *p) { for (hhdr *h = hlist.next; h != &hlist; h = h->next) if ((char *)h + HHDR == (char *)p) return h->size; return 0; }
int sim_live_allocs_sized(size_t n) { int k = 0; for (hhdr *h = hlist.next; h != &hlist; h = h->next) if (h->size == n) k++; return k; }
/* the 32-bit words of a live heap block, for aging counters of long-lived objects */
int sim_block_get(void *p, int *buf, int max) { for (hhdr *h = hlist.next; h != &hlist; h = h->next) if ((char *)h + HHDR == (char *)p) { int n = (int)(h->size / 4); if (n > max) n = max; memcpy(buf, p, n * 4); return n; } return 0; }
void sim_block_set(void *p, int i, int v) { ((volatile int *)p)[i] = v; }
uint64_t sim_live_bytes(void) { return live_bytes; }
int sim_live_handles(void) { return live_handles; }
void sim_exit(int c) { viol("oracle", "no-exit", "library called exit(%d)", c); _exit(3); }
int *sim_errno_loc(void) { return &cur->err; }

/* ------------------------------------------------------------- scheduler */
static u64 now_m = 0; static int64_t wall_off; static u64 next_dl = ~0ull;
static u64 seqno; uint64_t sim_seq(void) { return ++seqno; }
static int pol; enum { P_SYNC, P_MEM, P_PCT, P_PAUSE, P_FAIR, P_RR };
int sim_policy(void) { return pol; }
static long cd_sync, cd_mem, cd_time; static u32 den_sync, den_mem, den_time; static long lowprio; static int preempt_on; static int need_resched;
static u64 run_len, ep_steps; static u64 pct_at[16]; static int pct_n, pct_i; static u64 est_len = 3000;
static int pause_left; static u64 pause_until; static u32 den_wait; /* chance of a delay right before a system wait or wake-up */
static long geo(u32 den) { if (den == 0) return 1L << 40; if (den == 1) return 1; u64 r = rnd64(&rsch) >> 11; double u = (r + 1) * (1.0 / 9007199254740993.0); double l = -__builtin_log(u) * den; return 1 + (long)l; }

uint64_t sim_mono(void) { return now_m; }
uint64_t sim_now(void) { return now_m + wall_off; }
void sim_wall_adjust(int64_t d) { wall_off += d; }

extern void sim_swtch(void **save, void *to);
__asm__(".text\n.globl sim_swtch\n.type sim_swtch,@function\nsim_swtch:\n"
  ".cfi_startproc\n"
  "pushq %rbp\npushq %rbx\npushq %r12\npushq %r13\npushq %r14\npushq %r15\nsubq $8,%rsp\nstmxcsr (%rsp)\nfnstcw 4(%rsp)\n"
  "movq %rsp,(%rdi)\nmovq %rsi,%rsp\n"
  "ldmxcsr (%rsp)\nfldcw 4(%rsp)\naddq $8,%rsp\npopq %r15\npopq %r14\npopq %r13\npopq %r12\npopq %rbx\npopq %rbp\nret\n"
  ".cfi_endproc\n.size sim_swtch,.-sim_swtch\n");
#ifdef SIM_CXX_EH
extern void *__cxa_get_globals(void);
#endif
static void thread_main(void);
static void run_redir(void);
static void switch_to(thr *n) {
  thr *o = cur; if (n == o) return;
  st_switch++; run_len = 0; sched_hash = (sched_hash ^ (u64)n->id) * 0x100000001B3ull + st_steps % 1;
#ifdef SIM_CXX_EH
  void **g = (void **)__cxa_get_globals(); o->ehg[0] = g[0]; o->ehg[1] = g[1];
#endif
  cur = n;
#ifdef SIM_ASAN
  __sanitizer_start_switch_fiber(o->st == T_DEAD ? 0 : &o->fake, n->id ? n->stk : 0, n->id ? STKSZ : 0);
#endif
  sim_swtch(&o->sp, n->sp);
#ifdef SIM_ASAN
  __sanitizer_finish_switch_fiber(cur->fake, 0, 0);
#endif
#ifdef SIM_CXX_EH
  g = (void **)__cxa_get_globals(); g[0] = cur->ehg[0]; g[1] = cur->ehg[1];
#endif
}
static int ready(thr *t) { return t->st == T_RUN && !t->susp; }
static void recompute_dl(void) { next_dl = ~0ull; for (int i = 1; i < nT; i++) { thr *t = T[i]; if (t && t->st == T_BLOCK && t->wtimed && t->wdl < next_dl) next_dl = t->wdl; } }
static thr *LV[MAXTHR + 4]; static int nLV; /* live threads */
static void expire(void) {
  if (now_m < next_dl) return;
  for (int i = 0; i < nLV; i++) { thr *t = LV[i]; if (t->st == T_BLOCK && t->wtimed && t->wdl <= now_m) { t->st = T_RUN; t->wres = WAIT_TIMEOUT; t->wtimed = 0; st_timeouts++; need_resched = 1; } }
  next_dl = ~0ull; for (int i = 0; i < nLV; i++) { thr *t = LV[i]; if (t->st == T_BLOCK && t->wtimed && t->wdl < next_dl) next_dl = t->wdl; }
}
static void set_now(u64 n) { if (n > now_m) now_m = n; expire(); }
static void settle_check(void) {
  for (int i = 0; i < nLV; i++) { thr *t = LV[i]; if (t->st == T_BLOCK && t->wsettle) { int busy = 0; for (int j = 0; j < nLV; j++) if (LV[j] != t && ready(LV[j])) busy = 1; if (!busy) { t->st = T_RUN; t->wres = 0; t->wsettle = 0; return; } } }
}
static void quiesce_check(void) {
  if (nlive != 1) return;
  for (int i = 0; i < nLV; i++) { thr *t = LV[i]; if (t->st == T_BLOCK && t->wquiesce) { t->st = T_RUN; t->wres = 0; t->wquiesce = 0; } }
}
static thr *pick(int excl_cur) {
  for (;;) {
    thr *c[MAXTHR]; int n = 0, np = 0;
    for (int i = 0; i < nLV; i++) { thr *t = LV[i]; if (!ready(t)) continue; if (t->paused) { np++; continue; } if (excl_cur && t == cur) continue; c[n++] = t; }
    if (n == 0 && np) { if (!excl_cur || np > 1 || !cur->paused) { for (int i = 0; i < nLV; i++) LV[i]->paused = 0; if (excl_cur && np == 0) return cur; continue; } }
    if (n == 0 && excl_cur && ready(cur)) { if (next_dl != ~0ull && rndn(&rsch, 8) == 0) { set_now(next_dl); if (need_resched) { excl_cur = 0; continue; } } return cur; }
    if (n) {
      if (pol == P_PCT) { thr *b = c[0]; for (int i = 1; i < n; i++) if (c[i]->prio > b->prio) b = c[i]; return b; }
      if (pol == P_RR) { thr *b = 0; for (int i = 0; i < n; i++) if (c[i]->id > cur->id) { b = c[i]; break; } return b ? b : c[0]; }
      return c[rndn(&rsch, n)];
    }
    /* nobody can run: settle / timers / deadlock */
    settle_check(); for (int i = 0; i < nLV; i++) if (ready(LV[i])) goto again;
    if (next_dl != ~0ull) { now_m = next_dl > now_m ? next_dl : now_m; if (rndn(&rsch, 8) == 0) now_m += rndn(&rsch, 40000); expire(); continue; }
    { char b[600]; int k = 0; b[0] = 0; for (int i = 0; i < nLV && k < 480; i++) { thr *t = LV[i]; k += snprintf(b + k, sizeof b - k, " t%d[%s%s]", t->id, t->label ? t->label : "-", t->susp ? " suspended" : ""); }
      report("hang", "progress", b); }
  again:;
  }
}
static void resched(int forced_other) { thr *n = pick(forced_other); if (n != cur) switch_to(n); need_resched = 0; }
static int async_ok; /* set while a point may run an async redirect (C++ build) */
static void run_redir(void) {
  while (cur->redir && (!sim_variant_cxx || async_ok)) { void (*f)(void) = cur->redir; cur->redir = 0; st_redir++; async_ok = 0; f(); }
}
static void livelock(void) {
  if (ep_steps > opt_steplim * 2) { char b[600]; int k = 0; b[0] = 0; for (int i = 0; i < nLV && k < 480; i++) { thr *t = LV[i]; k += snprintf(b + k, sizeof b - k, " t%d[%s %s]", t->id, tstate(t), t->label ? t->label : "-"); } report("hang", "livelock", b); }
  if (ep_steps > opt_steplim && pol != P_RR && pol != P_FAIR) { pol = P_FAIR; den_sync = 3; den_mem = 50; cd_sync = 1; cd_mem = 1; for (int i = 0; i < nLV; i++) LV[i]->paused = 0; }
}
static int calm; int sim_calm(int on) { int o = calm; calm = on; return o; }
static void sync_time(void) {
  if (!calm) now_m += 1 + rndn(&rsch, 8);
  if (!calm && --cd_time <= 0) {
    cd_time = geo(den_time); st_leaps++;
    u32 r = rndn(&rsch, 10);
    if (r < 5 && next_dl != ~0ull && next_dl > now_m) { u64 d = next_dl; u32 q = rndn(&rsch, 4); if (q == 0 && d - 1 > now_m) d -= 1; else if (q == 1) d += rndn(&rsch, 20000); now_m = d; }
    else now_m += rndn(&rsch, r < 8 ? 30000 : 3000000);
  }
  expire();
}
/* kind 0: memory access, 1: API/interlocked, 2: forced, 3: about to wait or to wake somebody */
static void sim_point(int kind, void *pc) {
  if (!started || !preempt_on) return;
  st_steps++; ep_steps++; run_len++;
  if ((ep_steps & 0xffff) == 0) livelock();
  int sw = 0;
  if (kind) { st_sync++; sync_time(); if (pol != P_PCT && --cd_sync <= 0) { sw = 1; cd_sync = geo(den_sync); } }
  else { if (pol != P_PCT && --cd_mem <= 0) { sw = 1; cd_mem = geo(den_mem); } }
  if (pol == P_PCT && pct_i < pct_n && ep_steps >= pct_at[pct_i]) { pct_i++; cur->prio = --lowprio; sw = 1; }
  if (need_resched && (pol == P_PCT)) sw = 1;
  if (run_len > 3000) { sw = 1; if (pol == P_PCT) cur->prio = --lowprio; run_len = 0; }
  if (kind == 2) { sw = 2; if (pol == P_PCT) cur->prio = --lowprio; }
  if (kind == 3 && den_wait && pol < P_FAIR && nLV > 1 && rndn(&rsch, den_wait) == 0) { sw = 1; if (pol == P_PCT) cur->prio = --lowprio; else { cur->paused = 1; pause_until = ep_steps + 20 + rndn(&rsch, 600); } }
  else if (pol == P_PAUSE || pause_until) {
    if (pol == P_PAUSE && sw == 1 && rndn(&rsch, 3) == 0 && nLV > 1) { cur->paused = 1; pause_until = ep_steps + 20 + rndn(&rsch, 3000); }
    else if (pause_until && ep_steps > pause_until) { pause_until = 0; for (int i = 0; i < nLV; i++) LV[i]->paused = 0; }
  }
  if (sw) { sched_hash = (sched_hash ^ (u64)(size_t)pc) * 0x9E3779B97F4A7C15ull; sched_hash ^= sched_hash >> 29; resched(sw == 2); }
  if (cur->redir) { if (kind) async_ok = 1; run_redir(); async_ok = 0; }
}
#define POINT() sim_point(1, __builtin_return_address(0))
#define WPOINT() sim_point(3, __builtin_return_address(0))
void sim_asm_point(void) { POINT(); }
void sim_yield(void) { sim_point(2, __builtin_return_address(0)); }
void sim_user_point(void) { sim_point(1, __builtin_return_address(0)); }
int sim_preempt(int on) { int o = preempt_on; preempt_on = on; return o; }
int sim_self(void) { return cur->id; }
void sim_label(const char *l) { cur->label = l; }

static void lv_add(thr *t) { LV[nLV++] = t; nlive++; }
static void lv_del(thr *t) { for (int i = 0; i < nLV; i++) if (LV[i] == t) { LV[i] = LV[--nLV]; break; } nlive--; }

static void block_switch(void) { /* cur has st==T_BLOCK (or is suspended/dead) */
  int po = preempt_on; preempt_on = 1; thr *n = pick(0); if (n != cur) switch_to(n); need_resched = 0; preempt_on = po;
  if (cur->redir) { async_ok = 1; run_redir(); async_ok = 0; }
}
/* ---------------------------------------------------------------- waiting */
static int obj_ready(obj *o, thr *t) { if (o->type == O_MUTEX) return o->owner == 0 || o->owner == t->id; return o->sig > 0; }
static void obj_consume(obj *o, thr *t) { if (o->type == O_SEM) o->sig--; else if (o->type == O_EVENT && !o->manual) o->sig = 0; else if (o->type == O_MUTEX) { o->owner = t->id; o->rec++; } }
static int try_satisfy(thr *t) {
  if (t->wall) { for (int i = 0; i < t->wn; i++) if (!obj_ready(t->w[i], t)) return 0; for (int i = 0; i < t->wn; i++) obj_consume(t->w[i], t); t->wres = 0; return 1; }
  for (int i = 0; i < t->wn; i++) if (obj_ready(t->w[i], t)) { obj_consume(t->w[i], t); t->wres = i; return 1; }
  return 0;
}
static void obj_signalled(obj *o) {
  for (;;) {
    thr *c[MAXTHR]; int n = 0;
    if (!(o->type == O_MUTEX || o->sig > 0)) return;
    for (int i = 0; i < nLV; i++) { thr *t = LV[i]; if (t->st != T_BLOCK) continue; for (int k = 0; k < t->wn; k++) if (t->w[k] == o) { c[n++] = t; break; } }
    int done = 1;
    while (n) { int k = rndn(&rsch, n); thr *t = c[k]; c[k] = c[--n]; if (try_satisfy(t)) { t->st = T_RUN; t->wtimed = 0; st_wakes++; need_resched = 1; done = 0; break; } }
    if (done) return;
  }
}
static void obj_unref(obj *o) { if (--o->refs == 0) { free(o); } }
static obj *mkobj(int type) { obj *o = calloc(1, sizeof *o); o->type = type; return o; }
static HANDLE mkhandle(obj *o, void *pc) {
  if (nht == capht) { capht = capht ? capht * 2 : 4096; ht = realloc(ht, capht * sizeof *ht); }
  hent *h = &ht[nht]; memset(h, 0, sizeof *h); h->o = o; h->open_pc = pc; o->refs++; live_handles++; h->open_seq = st_steps;
  return (HANDLE)(u64)(0x10000 + 4 * (u64)nht++);
}
static void sle(u32 e) { cur->lasterr = e; }
static hent *hfind(HANDLE h, const char *what, void *pc) {
  u64 v = (u64)h; st_handleck++;
  if (v == 0 || v == ~0ull) { if (v == 0) { sle(ERROR_INVALID_HANDLE); return 0; } sle(ERROR_INVALID_HANDLE); return 0; }
  if (v < 0x10000 || (v & 3) || (v - 0x10000) / 4 >= (u64)nht) viol("handle", "valid-handle", "%s: %p was never a handle (caller %p)", what, h, pc);
  hent *e = &ht[(v - 0x10000) / 4];
  if (!e->o) viol("handle", "valid-handle", "%s: handle %p used after it was closed by thread %d (opened pc %p, closed pc %p, caller %p)", what, h, e->close_tid, e->open_pc, e->close_pc, pc);
  return e;
}
static thr *hthread(HANDLE h, const char *what, void *pc) {
  if (h == (HANDLE)(LONG_PTR)-2) return cur;
  hent *e = hfind(h, what, pc); if (!e) return 0; if (e->o->type != O_THREAD) { sle(ERROR_INVALID_HANDLE); return 0; } return T[e->o->tid]; }
static u64 deadline(DWORD ms) { return now_m + (u64)ms * 10000; }
static DWORD do_wait(obj **o, int n, int all, DWORD ms, const char *what, void *pc) {
  st_waits++;
  for (int i = 0; i < n; i++) cur->w[i] = o[i];
  cur->wn = n; cur->wall = all;
  if (try_satisfy(cur)) { cur->wn = 0; return cur->wres; }
  if (ms == 0) { cur->wn = 0; return WAIT_TIMEOUT; }
  for (int i = 0; i < n; i++) o[i]->refs++;
  cur->st = T_BLOCK; cur->wwhat = what; cur->wpc = pc; cur->wtimed = ms != INFINITE; if (cur->wtimed) { cur->wdl = deadline(ms); if (cur->wdl < next_dl) next_dl = cur->wdl; }
  st_blocks++; thr *me = cur; obj *sv[MAXWAIT]; memcpy(sv, o, n * sizeof *o);
  /* an async redirect may leave by longjmp/throw: drop the references first */
  { int po = preempt_on; preempt_on = 1; thr *nx = pick(0); if (nx != cur) switch_to(nx); need_resched = 0; preempt_on = po; }
  me->wn = 0; DWORD r = me->wres;
  for (int i = 0; i < n; i++) obj_unref(sv[i]);
  if (cur->redir) { async_ok = 1; run_redir(); async_ok = 0; }
  return r;
}
DWORD WaitForSingleObject(HANDLE h, DWORD ms) { WPOINT();
  if (h == (HANDLE)(LONG_PTR)-2) { obj *o = cur->to; return do_wait(&o, 1, 0, ms, "WaitForSingleObject", __builtin_return_address(0)); }
  hent *e = hfind(h, "WaitForSingleObject", __builtin_return_address(0)); if (!e) return WAIT_FAILED; obj *o = e->o; return do_wait(&o, 1, 0, ms, "WaitForSingleObject", __builtin_return_address(0)); }
DWORD WaitForSingleObjectEx(HANDLE h, DWORD ms, BOOL a) { (void)a; return WaitForSingleObject(h, ms); }
DWORD WaitForMultipleObjects(DWORD n, const HANDLE *h, BOOL all, DWORD ms) { WPOINT(); obj *o[MAXWAIT];
  if (n == 0 || n > MAXWAIT) { sle(ERROR_INVALID_PARAMETER); return WAIT_FAILED; }
  for (DWORD i = 0; i < n; i++) { hent *e = hfind(h[i], "WaitForMultipleObjects", __builtin_return_address(0)); if (!e) return WAIT_FAILED; o[i] = e->o; }
  return do_wait(o, n, all, ms, "WaitForMultipleObjects", __builtin_return_address(0)); }
DWORD WaitForMultipleObjectsEx(DWORD n, const HANDLE *h, BOOL all, DWORD ms, BOOL a) { (void)a; return WaitForMultipleObjects(n, h, all, ms); }
static void sleep_until(u64 dl, const char *what) { cur->st = T_BLOCK; cur->wn = 0; cur->wwhat = what; cur->wtimed = 1; cur->wdl = dl; if (dl < next_dl) next_dl = dl; st_blocks++; block_switch(); }
void Sleep(DWORD ms) { if (ms == 0) { sim_point(2, __builtin_return_address(0)); return; } POINT(); if (ms == INFINITE) { cur->st = T_BLOCK; cur->wn = 0; cur->wtimed = 0; cur->wwhat = "Sleep"; block_switch(); return; } sleep_until(deadline(ms), "Sleep"); }
DWORD SleepEx(DWORD ms, BOOL a) { (void)a; Sleep(ms); return 0; }
BOOL SwitchToThread(void) { sim_point(2, __builtin_return_address(0)); return 1; }
void YieldProcessor(void) { sim_point(2, __builtin_return_address(0)); }
void sim_delay_us(uint32_t us) { if (!us) { sim_yield(); return; } sleep_until(now_m + (u64)us * 10, "delay"); }
void sim_quiesce(void) { if (nlive == 1) return; cur->st = T_BLOCK; cur->wn = 0; cur->wtimed = 0; cur->wquiesce = 1; cur->wwhat = "quiesce"; block_switch(); }
void sim_settle(void) { int busy = 0; for (int j = 0; j < nLV; j++) if (LV[j] != cur && ready(LV[j])) busy = 1; if (!busy) return; cur->st = T_BLOCK; cur->wn = 0; cur->wtimed = 0; cur->wsettle = 1; cur->wwhat = "settle"; block_switch(); }
int sim_others_blocked(void) { for (int j = 0; j < nLV; j++) if (LV[j] != cur && LV[j]->st == T_RUN) return 0; return 1; }
int sim_thread_blocked(int t) { if (t <= 0 || t >= nT) return 2; return T[t]->st == T_BLOCK ? 1 : T[t]->st == T_DEAD ? 2 : 0; }
int sim_live_threads(void) { return nlive; }

/* ---------------------------------------------------------------- events */
HANDLE CreateEventA(LPSECURITY_ATTRIBUTES s, BOOL manual, BOOL init, LPCSTR name) { (void)s; (void)name; POINT(); if (fault(SIM_F_EVENT)) { sle(ERROR_NO_SYSTEM_RESOURCES); return 0; } obj *o = mkobj(O_EVENT); o->manual = !!manual; o->sig = !!init; return mkhandle(o, __builtin_return_address(0)); }
HANDLE CreateEventW(LPSECURITY_ATTRIBUTES s, BOOL m, BOOL i, LPCWSTR n) { (void)n; return CreateEventA(s, m, i, 0); }
HANDLE CreateEventExA(LPSECURITY_ATTRIBUTES s, LPCSTR n, DWORD f, DWORD a) { (void)n; (void)a; return CreateEventA(s, f & 1, !!(f & 2), 0); }
BOOL SetEvent(HANDLE h) { WPOINT(); hent *e = hfind(h, "SetEvent", __builtin_return_address(0)); if (!e) return 0; if (e->o->type != O_EVENT) { sle(ERROR_INVALID_HANDLE); return 0; } e->o->sig = 1; obj_signalled(e->o); POINT(); return 1; }
BOOL ResetEvent(HANDLE h) { POINT(); hent *e = hfind(h, "ResetEvent", __builtin_return_address(0)); if (!e) return 0; if (e->o->type != O_EVENT) { sle(ERROR_INVALID_HANDLE); return 0; } e->o->sig = 0; return 1; }
BOOL PulseEvent(HANDLE h) { POINT(); hent *e = hfind(h, "PulseEvent", __builtin_return_address(0)); if (!e) return 0; e->o->sig = 1; obj_signalled(e->o); e->o->sig = 0; return 1; }
HANDLE CreateSemaphoreA(LPSECURITY_ATTRIBUTES s, LONG init, LONG max, LPCSTR name) { (void)s; (void)name; POINT(); if (fault(SIM_F_SEM)) { sle(ERROR_NO_SYSTEM_RESOURCES); return 0; } if (init < 0 || max <= 0 || init > max) { sle(ERROR_INVALID_PARAMETER); return 0; } obj *o = mkobj(O_SEM); o->sig = init; o->max = max; return mkhandle(o, __builtin_return_address(0)); }
HANDLE CreateSemaphoreW(LPSECURITY_ATTRIBUTES s, LONG i, LONG m, LPCWSTR n) { (void)n; return CreateSemaphoreA(s, i, m, 0); }
BOOL ReleaseSemaphore(HANDLE h, LONG n, LONG *prev) { WPOINT(); hent *e = hfind(h, "ReleaseSemaphore", __builtin_return_address(0)); if (!e) return 0; obj *o = e->o; if (o->type != O_SEM) { sle(ERROR_INVALID_HANDLE); return 0; } if (n <= 0) { sle(ERROR_INVALID_PARAMETER); return 0; } if ((int64_t)o->sig + n > o->max) { sle(ERROR_TOO_MANY_POSTS); return 0; } if (prev) *prev = o->sig; o->sig += n; obj_signalled(o); POINT(); return 1; }
HANDLE CreateMutexA(LPSECURITY_ATTRIBUTES s, BOOL own, LPCSTR name) { (void)s; (void)name; POINT(); if (fault(SIM_F_EVENT)) return 0; obj *o = mkobj(O_MUTEX); if (own) { o->owner = cur->id; o->rec = 1; } return mkhandle(o, __builtin_return_address(0)); }
BOOL ReleaseMutex(HANDLE h) { POINT(); hent *e = hfind(h, "ReleaseMutex", __builtin_return_address(0)); if (!e) return 0; if (e->o->owner != cur->id) { sle(288); return 0; } if (--e->o->rec == 0) { e->o->owner = 0; obj_signalled(e->o); } return 1; }
DWORD SignalObjectAndWait(HANDLE a, HANDLE b, DWORD ms, BOOL al) { hent *e = hfind(a, "SignalObjectAndWait", __builtin_return_address(0)); if (!e) return WAIT_FAILED; if (e->o->type == O_EVENT) { e->o->sig = 1; obj_signalled(e->o); } else if (e->o->type == O_SEM) ReleaseSemaphore(a, 1, 0); return WaitForSingleObjectEx(b, ms, al); }
BOOL CloseHandle(HANDLE h) { POINT(); if ((LONG_PTR)h == -1 || (LONG_PTR)h == -2) return 1; hent *e = hfind(h, "CloseHandle", __builtin_return_address(0)); if (!e) return 0; obj *o = e->o;
  for (int i = 0; i < nLV; i++) { thr *t = LV[i]; if (t->st == T_BLOCK && o->type != O_THREAD) for (int k = 0; k < t->wn; k++) if (t->w[k] == o && o->refs <= 1 + t->wn) { /* closing a handle another thread is blocked on */ int refs_from_waits = 0; for (int j = 0; j < nLV; j++) if (LV[j]->st == T_BLOCK) for (int q = 0; q < LV[j]->wn; q++) if (LV[j]->w[q] == o) refs_from_waits++; if (o->refs - refs_from_waits == 1) viol("handle", "close-while-waiting", "CloseHandle(%p) while thread %d [%s] is blocked on it (pc %p)", h, t->id, t->label ? t->label : "-", __builtin_return_address(0)); } }
  e->o = 0; e->close_pc = __builtin_return_address(0); e->close_tid = cur->id; e->close_seq = st_steps; live_handles--; obj_unref(o); return 1; }
BOOL DuplicateHandle(HANDLE sp, HANDLE sh, HANDLE tp, LPHANDLE th, DWORD acc, BOOL inh, DWORD opt) { (void)sp; (void)tp; (void)acc; (void)inh; POINT(); if (fault(SIM_F_DUP)) { sle(ERROR_NOT_ENOUGH_MEMORY); if (th) *th = 0; return 0; } obj *o; if (sh == (HANDLE)(LONG_PTR)-2) o = cur->to; else if (sh == (HANDLE)(LONG_PTR)-1) o = mkobj(O_PROC); else { hent *e = hfind(sh, "DuplicateHandle", __builtin_return_address(0)); if (!e) return 0; o = e->o; } *th = mkhandle(o, __builtin_return_address(0)); if (opt & DUPLICATE_CLOSE_SOURCE) CloseHandle(sh); return 1; }
BOOL GetHandleInformation(HANDLE h, LPDWORD f) { hent *e = hfind(h, "GetHandleInformation", __builtin_return_address(0)); if (!e) return 0; if (f) *f = 0; return 1; }

/* --------------------------------------------------------------- threads */
static u64 proc_aff = 0xff, sys_aff = 0xff, oproc_aff = 0xff;
void sim_set_cpus(uint64_t p, uint64_t s);
static thr *mkthread(unsigned (*fn)(void *), void *arg, int susp) {
  int s = -1; u64 best = ~0ull;
  for (int i = 0; i < MAXTHR; i++) if (!slot_owner[i] || slot_owner[i]->st == T_DEAD) { if (slot_dead_at[i] < best) { best = slot_dead_at[i]; s = i; } }
  if (s < 0) { fprintf(stderr, "sim: out of thread slots\n"); _exit(4); }
  thr *t = calloc(1, sizeof *t); t->id = nT; T[nT++] = t; t->slot = s; slot_owner[s] = t; t->stk = stkbase + (u64)s * STKSZ;
  if (nT >= 65535) { fprintf(stderr, "sim: out of thread ids\n"); _exit(4); }
  t->fn = fn; t->arg = arg; t->susp = susp; t->st = T_RUN; t->aff = proc_aff; t->to = mkobj(O_THREAD); t->to->tid = t->id; t->to->refs = 1; t->bornseq = ++seqno;
#ifdef SIM_ASAN
  __asan_unpoison_memory_region(t->stk, STKSZ);
#endif
  u64 *sp = (u64 *)(t->stk + STKSZ - 64); *--sp = 0; *--sp = (u64)thread_main; for (int i = 0; i < 6; i++) *--sp = 0; --sp; ((u32 *)sp)[0] = 0x1f80; ((u32 *)sp)[1] = 0x037f;
  t->sp = sp; t->prio = pol == P_PCT ? (long)(1000 + rndn(&rsch, 1000000)) : 0; lv_add(t); st_threads++; need_resched = 1; return t;
}
static void thread_gone(thr *t, u32 code) {
  t->exitcode = code; t->st = T_DEAD; t->wn = 0; t->wtimed = 0; slot_dead_at[t->slot] = ++seqno; lv_del(t);
  t->to->sig = 1; t->to->manual = 1; obj_signalled(t->to); obj_unref(t->to); t->to = 0; quiesce_check();
}
int sim_loader_lock = 1;
#ifdef SIM_DLL /* the library as a DLL: the system calls DllMain at the start and the end of every thread, one at a time */
extern BOOL WINAPI DllMain(HINSTANCE, DWORD, LPVOID); static CRITICAL_SECTION ldr; static u64 st_dllcalls;
static void dllcall(DWORD r) { int l = sim_loader_lock; if (l) EnterCriticalSection(&ldr); st_dllcalls++; DllMain(0, r, 0); if (l) LeaveCriticalSection(&ldr); }
#else
#define dllcall(r) ((void)0)
#endif
void ExitThread(DWORD code) { POINT(); int po = preempt_on; (void)po; preempt_on = 1; dllcall(3); cur->redir = 0; thread_gone(cur, code); thr *n = pick(0); switch_to(n); abort(); }
static void thread_main(void) {
#ifdef SIM_ASAN
  __sanitizer_finish_switch_fiber(0, 0, 0);
#endif
#ifdef SIM_CXX_EH
  { void **g = (void **)__cxa_get_globals(); g[0] = g[1] = 0; }
#endif
  preempt_on = 1; need_resched = 0; dllcall(2); if (cur->redir) run_redir();
  unsigned r = cur->fn(cur->arg); ExitThread(r); }
uintptr_t _beginthreadex(void *sec, unsigned stk, unsigned (*start)(void *), void *arg, unsigned flags, unsigned *tid) { (void)sec; (void)stk; POINT(); if (fault(SIM_F_THREAD)) { *sim_errno_loc() = EAGAIN; sle(ERROR_NOT_ENOUGH_MEMORY); return 0; } thr *t = mkthread(start, arg, !!(flags & CREATE_SUSPENDED)); t->stkreq = stk; if (tid) *tid = t->id * 4; HANDLE h = mkhandle(t->to, __builtin_return_address(0)); POINT(); return (uintptr_t)h; }
HANDLE CreateThread(LPSECURITY_ATTRIBUTES s, SIZE_T stk, LPTHREAD_START_ROUTINE f, LPVOID a, DWORD fl, LPDWORD tid) { return (HANDLE)_beginthreadex(s, stk, (unsigned (*)(void *))f, a, fl, tid); }
uintptr_t _beginthread(void (*start)(void *), unsigned stk, void *arg) { return _beginthreadex(0, stk, (unsigned (*)(void *))start, arg, 0, 0); }
void _endthreadex(unsigned c) { ExitThread(c); }
void _endthread(void) { ExitThread(0); }
DWORD SuspendThread(HANDLE h) { POINT(); thr *t = hthread(h, "SuspendThread", __builtin_return_address(0)); if (!t || t->st == T_DEAD) { sle(ERROR_ACCESS_DENIED); return (DWORD)-1; } int o = t->susp++; if (t == cur) block_switch(); return o; }
DWORD ResumeThread(HANDLE h) { POINT(); thr *t = hthread(h, "ResumeThread", __builtin_return_address(0)); if (!t || t->st == T_DEAD) { sle(ERROR_INVALID_HANDLE); return (DWORD)-1; } int o = t->susp; if (o > 0) t->susp--; need_resched = 1; POINT(); return o; }
BOOL TerminateThread(HANDLE h, DWORD c) { POINT(); thr *t = hthread(h, "TerminateThread", __builtin_return_address(0)); if (!t) return 0; if (t->st == T_DEAD) return 1; if (t == cur) ExitThread(c); thread_gone(t, c); return 1; }
BOOL GetExitCodeThread(HANDLE h, LPDWORD c) { POINT(); thr *t = hthread(h, "GetExitCodeThread", __builtin_return_address(0)); if (!t) return 0; *c = t->st == T_DEAD ? t->exitcode : STILL_ACTIVE; return 1; }
BOOL GetThreadContext(HANDLE h, LPCONTEXT c) { POINT(); thr *t = hthread(h, "GetThreadContext", __builtin_return_address(0)); if (!t || t->st == T_DEAD) return 0; if (!t->susp && t != cur) sim_violation("api-use", "GetThreadContext of a thread that is not suspended"); if ((c->ContextFlags & CONTEXT_CONTROL) == CONTEXT_CONTROL) { c->Rip = 0x4242424242; c->Rsp = (u64)t->sp; } return 1; }
BOOL SetThreadContext(HANDLE h, const CONTEXT *c) { POINT(); thr *t = hthread(h, "SetThreadContext", __builtin_return_address(0)); if (!t || t->st == T_DEAD) return 0; if (!t->susp && t != cur) sim_violation("api-use", "SetThreadContext of a thread that is not suspended"); if ((c->ContextFlags & CONTEXT_CONTROL) != CONTEXT_CONTROL) return 1; if (t != cur && !(c->Rsp <= (u64)t->sp && c->Rsp + 4096 >= (u64)t->sp)) sim_violation("api-use", "SetThreadContext puts the stack pointer of a thread to %llx, it was %llx", (unsigned long long)c->Rsp, (unsigned long long)t->sp); if (c->Rip != 0x4242424242) t->redir = (void (*)(void))c->Rip; return 1; }
DWORD QueueUserAPC(PAPCFUNC f, HANDLE h, ULONG_PTR a) { (void)f; (void)h; (void)a; return 0; }
HANDLE GetCurrentThread(void) { return (HANDLE)(LONG_PTR)-2; }
DWORD GetCurrentThreadId(void) { return cur->id * 4; }
HANDLE GetCurrentProcess(void) { return (HANDLE)(LONG_PTR)-1; }
DWORD GetCurrentProcessId(void) { return 4242; }
HANDLE OpenThread(DWORD a, BOOL b, DWORD id) { (void)a; (void)b; if (id % 4 || (int)(id / 4) >= nT || !T[id / 4] || !T[id / 4]->to) { sle(ERROR_INVALID_PARAMETER); return 0; } return mkhandle(T[id / 4]->to, __builtin_return_address(0)); }
HANDLE OpenProcess(DWORD a, BOOL b, DWORD id) { (void)b; POINT(); if (id == 4242 || id == 5152) { obj *o = mkobj(O_PROC); o->tid = (int)id; o->max = (int)a; return mkhandle(o, __builtin_return_address(0)); } if (id == 4) { sle(ERROR_ACCESS_DENIED); return 0; } sle(ERROR_INVALID_PARAMETER); return 0; }
DWORD GetThreadId(HANDLE h) { thr *t = hthread(h, "GetThreadId", __builtin_return_address(0)); return t ? t->id * 4 : 0; }
DWORD GetProcessId(HANDLE h) { (void)h; return 4242; }
BOOL SetThreadPriority(HANDLE h, int p) { POINT(); if (fault(SIM_F_SET)) { sle(ERROR_NO_SYSTEM_RESOURCES); return 0; } thr *t = hthread(h, "SetThreadPriority", __builtin_return_address(0)); if (!t || t->st == T_DEAD) { sle(ERROR_INVALID_HANDLE); return 0; } if (!((p >= -2 && p <= 2) || p == 15 || p == -15)) { sle(ERROR_INVALID_PARAMETER); return 0; } t->wpri = p; return 1; }
int GetThreadPriority(HANDLE h) { POINT(); thr *t = hthread(h, "GetThreadPriority", __builtin_return_address(0)); if (!t) return THREAD_PRIORITY_ERROR_RETURN; return t->wpri; }
BOOL SetThreadPriorityBoost(HANDLE h, BOOL b) { (void)h; (void)b; return 1; }
DWORD_PTR SetThreadAffinityMask(HANDLE h, DWORD_PTR m) { POINT(); if (fault(SIM_F_SYS) || fault(SIM_F_SET)) { sle(ERROR_NO_SYSTEM_RESOURCES); return 0; } thr *t = hthread(h, "SetThreadAffinityMask", __builtin_return_address(0)); if (!t || t->st == T_DEAD) { sle(ERROR_INVALID_HANDLE); return 0; } if (m == 0 || (m & ~proc_aff)) { sle(ERROR_INVALID_PARAMETER); return 0; } u64 o = t->aff; t->aff = m; return o; }
uint64_t sim_process_cpus(int other) { return other ? oproc_aff : proc_aff; }
void sim_set_cpus(uint64_t p, uint64_t s) { oproc_aff = s; proc_aff = p; sys_aff = s; for (int i = 0; i < nLV; i++) LV[i]->aff = p; }
uint64_t sim_thread_affinity_of(int tid) { return tid > 0 && tid < nT ? T[tid]->aff : 0; }
uint64_t sim_thread_stack_of(int tid) { return tid > 0 && tid < nT ? T[tid]->stkreq : 0; }
int sim_thread_winprio_of(int tid) { return tid > 0 && tid < nT ? T[tid]->wpri : -99; }
int sim_thread_tid_of_handle(void *h) { u64 v = (u64)h; if (v < 0x10000 || (v - 0x10000) / 4 >= (u64)nht) return -1; hent *e = &ht[(v - 0x10000) / 4]; if (!e->o || e->o->type != O_THREAD) return -2; return e->o->tid; }
BOOL GetProcessAffinityMask(HANDLE h, PDWORD_PTR p, PDWORD_PTR s) { POINT(); if (fault(SIM_F_SYS)) { sle(ERROR_NO_SYSTEM_RESOURCES); return 0; } if ((LONG_PTR)h != -1) { hent *e = hfind(h, "GetProcessAffinityMask", __builtin_return_address(0)); if (!e) return 0; if (e->o->type == O_PROC && e->o->tid && !(e->o->max & 0x1400)) { sle(ERROR_ACCESS_DENIED); return 0; } if (e->o->tid == 5152) { *p = oproc_aff; *s = sys_aff; return 1; } } *p = proc_aff; *s = sys_aff; return 1; }
BOOL SetProcessAffinityMask(HANDLE h, DWORD_PTR m) { POINT(); if (fault(SIM_F_SET)) { sle(ERROR_NO_SYSTEM_RESOURCES); return 0; } if ((LONG_PTR)h != -1) { hent *e = hfind(h, "SetProcessAffinityMask", __builtin_return_address(0)); if (!e) return 0; if (e->o->type == O_PROC && e->o->tid && !(e->o->max & 0x200)) { sle(ERROR_ACCESS_DENIED); return 0; } if (e->o->tid == 5152) { if (m == 0 || (m & ~sys_aff)) { sle(ERROR_INVALID_PARAMETER); return 0; } oproc_aff = m; return 1; } } if (m == 0 || (m & ~sys_aff)) { sle(ERROR_INVALID_PARAMETER); return 0; } proc_aff = m; for (int i = 0; i < nLV; i++) { LV[i]->aff &= m; if (!LV[i]->aff) LV[i]->aff = m; } return 1; }

/* ------------------------------------------------------------------- TLS */
static unsigned char tls_used[NTLS]; static int live_tls;
int sim_live_tls(void) { return live_tls; }
DWORD TlsAlloc(void) { POINT(); if (fault(SIM_F_TLS)) { sle(ERROR_NO_SYSTEM_RESOURCES); return TLS_OUT_OF_INDEXES; } for (int i = 0; i < NTLS; i++) if (!tls_used[i]) { tls_used[i] = 1; live_tls++; for (int k = 0; k < nLV; k++) LV[k]->tls[i] = 0; T0.tls[i] = 0; return i; } sle(ERROR_NO_SYSTEM_RESOURCES); return TLS_OUT_OF_INDEXES; }
BOOL TlsFree(DWORD i) { POINT(); if (i >= NTLS || !tls_used[i]) { if (i < NTLS) viol("handle", "valid-tls", "TlsFree of unallocated slot %u (pc %p)", i, __builtin_return_address(0)); sle(ERROR_INVALID_PARAMETER); return 0; } tls_used[i] = 0; live_tls--; return 1; }
LPVOID TlsGetValue(DWORD i) { POINT(); if (i >= NTLS) { sle(ERROR_INVALID_PARAMETER); return 0; } cur->lasterr = 0; return cur->tls[i]; }
BOOL TlsSetValue(DWORD i, LPVOID v) { POINT(); if (i >= NTLS) { sle(ERROR_INVALID_PARAMETER); return 0; } if (!tls_used[i]) viol("handle", "valid-tls", "TlsSetValue on unallocated slot %u (pc %p)", i, __builtin_return_address(0)); cur->tls[i] = v; return 1; }
void SetLastError(DWORD e) { cur->lasterr = e; }
DWORD GetLastError(void) { return cur->lasterr; }

/* ------------------------------------------------------------------ time */
#define EPOCH_DIFF 116444736000000000ull
void GetSystemTimeAsFileTime(LPFILETIME f) { POINT(); u64 t = sim_now() + EPOCH_DIFF; f->dwLowDateTime = (u32)t; f->dwHighDateTime = t >> 32; }
void GetSystemTimePreciseAsFileTime(LPFILETIME f) { GetSystemTimeAsFileTime(f); }
void GetSystemTime(LPSYSTEMTIME s) { memset(s, 0, sizeof *s); time_t t = sim_now() / 10000000; struct tm g; gmtime_r(&t, &g); s->wYear = g.tm_year + 1900; s->wMonth = g.tm_mon + 1; s->wDay = g.tm_mday; s->wHour = g.tm_hour; s->wMinute = g.tm_min; s->wSecond = g.tm_sec; s->wMilliseconds = sim_now() / 10000 % 1000; }
BOOL SystemTimeToFileTime(const SYSTEMTIME *s, LPFILETIME f) { struct tm g; memset(&g, 0, sizeof g); g.tm_year = s->wYear - 1900; g.tm_mon = s->wMonth - 1; g.tm_mday = s->wDay; g.tm_hour = s->wHour; g.tm_min = s->wMinute; g.tm_sec = s->wSecond; u64 t = (u64)timegm(&g) * 10000000 + s->wMilliseconds * 10000ull + EPOCH_DIFF; f->dwLowDateTime = (u32)t; f->dwHighDateTime = t >> 32; return 1; }
BOOL FileTimeToSystemTime(const FILETIME *f, LPSYSTEMTIME s) { u64 v = ((u64)f->dwHighDateTime << 32 | f->dwLowDateTime) - EPOCH_DIFF; memset(s, 0, sizeof *s); time_t t = v / 10000000; struct tm g; gmtime_r(&t, &g); s->wYear = g.tm_year + 1900; s->wMonth = g.tm_mon + 1; s->wDay = g.tm_mday; s->wHour = g.tm_hour; s->wMinute = g.tm_min; s->wSecond = g.tm_sec; s->wMilliseconds = v / 10000 % 1000; return 1; }
DWORD GetTickCount(void) { POINT(); return now_m / 10000; }
ULONGLONG GetTickCount64(void) { POINT(); return now_m / 10000; }
DWORD timeGetTime(void) { POINT(); return now_m / 10000; }
BOOL QueryPerformanceCounter(LARGE_INTEGER *l) { POINT(); l->QuadPart = now_m; return 1; }
BOOL QueryPerformanceFrequency(LARGE_INTEGER *l) { l->QuadPart = 10000000; return 1; }

/* ------------------------------------------------------------------ misc */
void GetSystemInfo(LPSYSTEM_INFO s) { memset(s, 0, sizeof *s); s->dwPageSize = 4096; s->dwActiveProcessorMask = sys_aff; s->dwNumberOfProcessors = __builtin_popcountll(sys_aff); s->dwAllocationGranularity = 65536; }
void GetNativeSystemInfo(LPSYSTEM_INFO s) { GetSystemInfo(s); }
DWORD GetCurrentProcessorNumber(void) { return __builtin_ctzll(cur->aff ? cur->aff : 1); }
HMODULE LoadLibraryA(LPCSTR n) { (void)n; sle(126); return 0; }
HMODULE LoadLibraryW(LPCWSTR n) { (void)n; sle(126); return 0; }
HMODULE LoadLibraryExA(LPCSTR n, HANDLE h, DWORD f) { (void)n; (void)h; (void)f; sle(126); return 0; }
BOOL FreeLibrary(HMODULE m) { (void)m; return 1; }
FARPROC GetProcAddress(HMODULE m, LPCSTR n) { (void)m; (void)n; sle(127); return 0; }
HMODULE GetModuleHandleA(LPCSTR n) { (void)n; return 0; }
UINT GetSystemDirectoryA(LPSTR b, UINT n) { static const char d[] = "C:\\windows\\system32"; if (n < sizeof d) return sizeof d; memcpy(b, d, sizeof d); return sizeof d - 1; }
HANDLE GetProcessHeap(void) { return (HANDLE)8; }
LPVOID HeapAlloc(HANDLE h, DWORD f, SIZE_T n) { (void)h; void *p = sim_malloc(n); if (p && (f & 8)) memset(p, 0, n); return p; }
BOOL HeapFree(HANDLE h, DWORD f, LPVOID p) { (void)h; (void)f; sim_free(p); return 1; }
HLOCAL LocalAlloc(UINT f, SIZE_T n) { void *p = sim_malloc(n); if (p && (f & 0x40)) memset(p, 0, n); return p; }
HLOCAL LocalFree(HLOCAL p) { sim_free(p); return 0; }
void InitializeCriticalSection(LPCRITICAL_SECTION c) { memset(c, 0, sizeof *c); }
BOOL InitializeCriticalSectionAndSpinCount(LPCRITICAL_SECTION c, DWORD n) { (void)n; memset(c, 0, sizeof *c); return 1; }
void EnterCriticalSection(LPCRITICAL_SECTION c) { POINT(); while (c->own && c->own != (HANDLE)(u64)cur->id) sim_point(2, 0); c->own = (HANDLE)(u64)cur->id; c->cnt++; }
BOOL TryEnterCriticalSection(LPCRITICAL_SECTION c) { POINT(); if (c->own && c->own != (HANDLE)(u64)cur->id) return 0; c->own = (HANDLE)(u64)cur->id; c->cnt++; return 1; }
void LeaveCriticalSection(LPCRITICAL_SECTION c) { POINT(); if (--c->cnt == 0) c->own = 0; }
void DeleteCriticalSection(LPCRITICAL_SECTION c) { (void)c; }
void OutputDebugStringA(LPCSTR s) { (void)s; }
BOOL IsDebuggerPresent(void) { return 0; }
void DebugBreak(void) { }
void RaiseException(DWORD a, DWORD b, DWORD c, const ULONG_PTR *d) { (void)b; (void)c; (void)d; viol("crash", "no-crash", "RaiseException(%x)", a); }
BOOL DisableThreadLibraryCalls(HMODULE m) { (void)m; return 1; }
void ExitProcess(UINT c) { sim_exit(c); __builtin_unreachable(); }
int _set_errno(int e) { *sim_errno_loc() = e; return 0; }
int _get_errno(int *e) { *e = *sim_errno_loc(); return 0; }
#define IL(name, T, PT, expr, ...) T name(PT p, ##__VA_ARGS__) { POINT(); expr }
LONG InterlockedIncrement(volatile LONG *p) { POINT(); return ++*p; }
LONG InterlockedDecrement(volatile LONG *p) { POINT(); return --*p; }
LONG InterlockedExchange(volatile LONG *p, LONG v) { POINT(); LONG o = *p; *p = v; return o; }
LONG InterlockedExchangeAdd(volatile LONG *p, LONG v) { POINT(); LONG o = *p; *p = o + v; return o; }
LONG InterlockedCompareExchange(volatile LONG *p, LONG v, LONG c) { POINT(); LONG o = *p; if (o == c) *p = v; return o; }
LONG InterlockedOr(volatile LONG *p, LONG v) { POINT(); LONG o = *p; *p = o | v; return o; }
LONG InterlockedAnd(volatile LONG *p, LONG v) { POINT(); LONG o = *p; *p = o & v; return o; }
LONG InterlockedXor(volatile LONG *p, LONG v) { POINT(); LONG o = *p; *p = o ^ v; return o; }
LONG64 InterlockedIncrement64(volatile LONG64 *p) { POINT(); return ++*p; }
LONG64 InterlockedDecrement64(volatile LONG64 *p) { POINT(); return --*p; }
LONG64 InterlockedExchange64(volatile LONG64 *p, LONG64 v) { POINT(); LONG64 o = *p; *p = v; return o; }
LONG64 InterlockedExchangeAdd64(volatile LONG64 *p, LONG64 v) { POINT(); LONG64 o = *p; *p = o + v; return o; }
LONG64 InterlockedCompareExchange64(volatile LONG64 *p, LONG64 v, LONG64 c) { POINT(); LONG64 o = *p; if (o == c) *p = v; return o; }
PVOID InterlockedExchangePointer(PVOID volatile *p, PVOID v) { POINT(); PVOID o = *p; *p = v; return o; }
PVOID InterlockedCompareExchangePointer(PVOID volatile *p, PVOID v, PVOID c) { POINT(); PVOID o = *p; if (o == c) *p = v; return o; }
void MemoryBarrier(void) { POINT(); }

/* ------------------------------------------- memory-access instrumentation */
#ifndef SIM_ASAN
static void memck(u64 a, u64 n, int wr, void *pc) {
  u64 so = a - (u64)stkbase;
  if (so < (u64)MAXTHR * STKSZ) {
    thr *o = slot_owner[so / STKSZ];
    if (o == cur) return; /* own stack: private, no point */
    st_stkck++;
    if (o && o->st != T_DEAD) { sim_point(0, pc); o = slot_owner[so / STKSZ]; }
    if (!o || o->st == T_DEAD) viol("memory", "stack-use-after-exit", "%s of %llu bytes at %p on the stack of %s thread (pc %p)", wr ? "write" : "read", (unsigned long long)n, (void *)a, o ? "an exited" : "no", pc);
    if (a < (u64)o->sp) viol("memory", "stack-use-after-return", "%s of %llu bytes at %p below the stack pointer of thread %d [%s] (pc %p)", wr ? "write" : "read", (unsigned long long)n, (void *)a, o->id, o->label ? o->label : "-", pc);
    return;
  }
  u64 ho = a - (u64)hbase;
  if (ho < HEAPSZ) {
    st_mem++;
    sim_point(0, pc); /* the access happens after the point: check then */
    st_heapck++;
    for (u64 x = ho; n; ) { unsigned char s = hshadow[x >> 4]; u64 in = x & 15, k = 16 - in < n ? 16 - in : n;
      if (s == 0xFD) { hhdr *h = 0; for (u64 y = x & ~15ull; y >= 16; y -= 16) { hhdr *q = (hhdr *)(hbase + y); if (hshadow[y >> 4] != 0xFD && q->magic == HM_FREE) { h = q; break; } if (x - y > 65536) break; }
        viol("memory", "use-after-free", "%s of freed heap memory (alloc pc %p, free pc %p, access pc %p)", wr ? "write" : "read", h ? h->apc : 0, h ? h->fpc : 0, pc); }
      if (s == 0 || in + k > s) viol("memory", "heap-overflow", "%s outside a heap block at %p (pc %p)", wr ? "write" : "read", (void *)a, pc);
      x += k; n -= k; }
    return;
  }
  if (a < 4096) return; /* let it fault */
  { extern char __data_start, _end; if (a >= (u64)&__data_start && a < (u64)&_end) { st_mem++; sim_point(0, pc); } }
}
#define RA __builtin_return_address(0)
#define HK(n) void __tsan_read##n(void *p) { memck((u64)p, n, 0, RA); } void __tsan_write##n(void *p) { memck((u64)p, n, 1, RA); } void __tsan_unaligned_read##n(void *p) { memck((u64)p, n, 0, RA); } void __tsan_unaligned_write##n(void *p) { memck((u64)p, n, 1, RA); } void __tsan_volatile_read##n(void *p) { memck((u64)p, n, 0, RA); } void __tsan_volatile_write##n(void *p) { memck((u64)p, n, 1, RA); } void __tsan_unaligned_volatile_read##n(void *p) { memck((u64)p, n, 0, RA); } void __tsan_unaligned_volatile_write##n(void *p) { memck((u64)p, n, 1, RA); }
HK(1) HK(2) HK(4) HK(8) HK(16)
void __tsan_read_range(void *p, u64 n) { if (n) memck((u64)p, n, 0, RA); }
void __tsan_write_range(void *p, u64 n) { if (n) memck((u64)p, n, 1, RA); }
void __tsan_init(void) { }
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) { }
void __tsan_vptr_update(void **p, void *v) { (void)p; (void)v; }
void __tsan_vptr_read(void **p) { (void)p; }
void *__tsan_memcpy(void *d, const void *s, u64 n) { if (n) { memck((u64)s, n, 0, RA); memck((u64)d, n, 1, RA); } return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, u64 n) { if (n) { memck((u64)s, n, 0, RA); memck((u64)d, n, 1, RA); } return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, u64 n) { if (n) memck((u64)d, n, 1, RA); return memset(d, c, n); }
#define AT(b, ty) \
 ty __tsan_atomic##b##_load(const volatile ty *p, int m) { (void)m; POINT(); memck((u64)p, b / 8, 0, RA); return *p; } \
 void __tsan_atomic##b##_store(volatile ty *p, ty v, int m) { (void)m; POINT(); memck((u64)p, b / 8, 1, RA); *p = v; } \
 ty __tsan_atomic##b##_exchange(volatile ty *p, ty v, int m) { (void)m; POINT(); memck((u64)p, b / 8, 1, RA); ty o = *p; *p = v; return o; } \
 ty __tsan_atomic##b##_fetch_add(volatile ty *p, ty v, int m) { (void)m; POINT(); memck((u64)p, b / 8, 1, RA); ty o = *p; *p = o + v; return o; } \
 ty __tsan_atomic##b##_fetch_sub(volatile ty *p, ty v, int m) { (void)m; POINT(); memck((u64)p, b / 8, 1, RA); ty o = *p; *p = o - v; return o; } \
 ty __tsan_atomic##b##_fetch_and(volatile ty *p, ty v, int m) { (void)m; POINT(); memck((u64)p, b / 8, 1, RA); ty o = *p; *p = o & v; return o; } \
 ty __tsan_atomic##b##_fetch_or(volatile ty *p, ty v, int m) { (void)m; POINT(); memck((u64)p, b / 8, 1, RA); ty o = *p; *p = o | v; return o; } \
 ty __tsan_atomic##b##_fetch_xor(volatile ty *p, ty v, int m) { (void)m; POINT(); memck((u64)p, b / 8, 1, RA); ty o = *p; *p = o ^ v; return o; } \
 ty __tsan_atomic##b##_fetch_nand(volatile ty *p, ty v, int m) { (void)m; POINT(); memck((u64)p, b / 8, 1, RA); ty o = *p; *p = ~(o & v); return o; } \
 int __tsan_atomic##b##_compare_exchange_strong(volatile ty *p, ty *c, ty v, int m, int f) { (void)m; (void)f; POINT(); memck((u64)p, b / 8, 1, RA); ty o = *p; if (o == *c) { *p = v; return 1; } *c = o; return 0; } \
 int __tsan_atomic##b##_compare_exchange_weak(volatile ty *p, ty *c, ty v, int m, int f) { return __tsan_atomic##b##_compare_exchange_strong(p, c, v, m, f); } \
 ty __tsan_atomic##b##_compare_exchange_val(volatile ty *p, ty c, ty v, int m, int f) { (void)m; (void)f; POINT(); memck((u64)p, b / 8, 1, RA); ty o = *p; if (o == c) *p = v; return o; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int m) { (void)m; POINT(); }
void __tsan_atomic_signal_fence(int m) { (void)m; }
#endif

void sim_dump_live(void) {
  for (int i = 0; i < nht; i++) if (ht[i].o) fprintf(stderr, "  live handle %p type %d opened pc %p step %llu\n", (void *)(u64)(0x10000 + 4 * (u64)i), ht[i].o->type, ht[i].open_pc, (unsigned long long)ht[i].open_seq);
  for (hhdr *h = hlist.next; h != &hlist; h = h->next) fprintf(stderr, "  live block %llu bytes alloc pc %p\n", (unsigned long long)h->size, h->apc);
}

/* ----------------------------------------------------------------- driver */
static void setup_policy(void) {
  u32 r = rndn(&rsch, 100); lowprio = 0; pct_i = pct_n = 0; pause_until = 0; run_len = 0; need_resched = 0;
  for (int i = 0; i < nLV; i++) { LV[i]->paused = 0; LV[i]->prio = 500; }
  static const u32 ds[] = {1, 2, 2, 3, 5, 10, 30}, dm[] = {5, 10, 20, 50, 100, 400};
  den_sync = ds[rndn(&rsch, 7)]; den_mem = dm[rndn(&rsch, 6)];
  if (opt_policy >= 0) r = (u32[]){5, 25, 55, 85}[opt_policy & 3];
  if (r < 15) { pol = P_SYNC; den_mem = 0; } else if (r < 45) pol = P_MEM; else if (r < 75) { pol = P_PCT; pct_n = 1 + rndn(&rsch, 8); for (int i = 0; i < pct_n; i++) pct_at[i] = 1 + rndn(&rsch, (u32)est_len); for (int i = 0; i < pct_n; i++) for (int j = i + 1; j < pct_n; j++) if (pct_at[j] < pct_at[i]) { u64 x = pct_at[i]; pct_at[i] = pct_at[j]; pct_at[j] = x; } LV[0]->prio = 1000 + rndn(&rsch, 1000000); }
  else { pol = P_PAUSE; den_sync = 5 + rndn(&rsch, 40); den_mem = 30 + rndn(&rsch, 200); }
  static const u32 dt[] = {0, 0, 20, 100, 500}; den_time = dt[rndn(&rsch, 5)];
  static const u32 dw[] = {0, 0, 0, 2, 3, 8}; den_wait = dw[rndn(&rsch, 6)];
  cd_sync = geo(den_sync); cd_mem = geo(den_mem); cd_time = geo(den_time); ep_steps = 0; sched_hash = 1469598103934665603ull;
  heap_reuse = opt_reuse >= 0 ? opt_reuse : rndn(&rsch, 4) == 0; if (!heap_reuse) memset(nfl, 0, sizeof nfl);
  now_m += rndn(&rsch, 20000000); expire();
}
static u64 nsched_total;
/* --leak: after every episode everything it took must have been given back.
 * What is live at rest before the first episode is the base; a thread struct
 * (size taken from the driver's own id) may stay pooled for re-use, but not
 * more of them than the busiest episode so far had threads. */
static int opt_leak, leak_th; static u64 leak_thr0, leak_maxthr; static int leak_ep_made, leak_blocks, leak_tls, leak_handles, leak_pool0; static size_t pooled_sz;
typedef struct { void *p; unsigned x; } pt_t; extern pt_t w32_pthread_self(void);
static int npooled(void) { return pooled_sz ? sim_live_allocs_sized(pooled_sz) : 0; }
static void leak_begin(void) { leak_thr0 = st_threads; }
static void leak_end(void) {
  if (!opt_leak) return;
  if (cur_ep == 0) { for (int i = 0; i < 300; i++) sim_delay_us(1000); leak_th = nlive; void *p = w32_pthread_self().p; for (hhdr *h = hlist.next; h != &hlist; h = h->next) if ((char *)h + HHDR == (char *)p) pooled_sz = h->size; }
  for (int i = 0; nlive > leak_th && i < 3000; i++) sim_delay_us(1000);
  if (nlive > leak_th) return; /* the workload left threads behind */
  int b = live_allocs - npooled(); u64 made = st_threads - leak_thr0; if (made > leak_maxthr) leak_maxthr = made;
  st_checks++;
  if (cur_ep == 0) { leak_blocks = b; leak_tls = live_tls; leak_handles = live_handles; leak_pool0 = npooled(); return; }
  if (b > leak_blocks || live_tls > leak_tls || live_handles > leak_handles) { sim_dump_live(); sim_violation("leak", "at rest after episode %d: %d heap blocks, %d TLS slots, %d handles live; after the first episode %d, %d, %d", (int)cur_ep, b, live_tls, live_handles, leak_blocks, leak_tls, leak_handles); }
  if ((u64)npooled() > leak_pool0 + leak_maxthr) { sim_violation("leak-pool", "%d thread structs are kept, but never more than %llu threads were alive", npooled(), (unsigned long long)(leak_pool0 + leak_maxthr)); }
}
static unsigned driver(void *a) {
  (void)a; cur->label = "driver"; preempt_on = 0;
  rsch.s = opt_seed * 7919 + 3; rwork.s = opt_seed * 104729 + 11;
#ifdef SIM_DLL
  if (!DllMain(0, 1, 0)) viol("oracle", "attach", "DllMain refused the process");
#endif
  if (W->begin) W->begin();
  for (cur_ep = 0; cur_ep < opt_eps; cur_ep++) {
    rsch.s = opt_seed * 0x9E3779B97F4A7C15ull + cur_ep * 0xBF58476D1CE4E5B9ull + 1; rwork.s = opt_seed * 0x94D049BB133111EBull + cur_ep * 0xD6E8FEB86659FD93ull + 2; rnd64(&rsch); rnd64(&rwork);
    setup_policy(); sim_loader_lock = 1; preempt_on = 1; leak_begin();
    W->episode(cur_ep, opt_eps);
    leak_end();
    preempt_on = 0; cur->label = "driver"; est_len = (est_len * 7 + ep_steps + 64) / 8; st_episodes++; hs_add(0, sched_hash); nsched_total++;
    fault_mask = 0; calm = 0;
  }
  if (W->end) W->end();
  batch_done = 1; preempt_on = 0; started = 0;
  switch_to(&T0); abort();
}
__attribute__((constructor(101))) static void early_init(void) {
  hbase = mmap(0, HEAPSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  hshadow = mmap(0, HEAPSZ / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  stkbase = mmap(0, (u64)MAXTHR * STKSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  for (int i = 0; i < MAXTHR; i++) mprotect(stkbase + (u64)i * STKSZ, 4096, PROT_NONE);
  cur = &T0; T[0] = &T0; nT = 1; T0.st = T_RUN; T0.to = mkobj(O_THREAD); T0.to->refs = 1; T0.aff = proc_aff;
  wall_off = 17000000000000000ll; /* ~2023-11 in 100ns since 1970 */
}
int main(int argc, char **argv) {
  for (int i = 1; i < argc; i++) {
    if (!strcmp(argv[i], "--workload")) opt_work = argv[++i];
    else if (!strcmp(argv[i], "--seed")) opt_seed = strtoull(argv[++i], 0, 0);
    else if (!strcmp(argv[i], "--episodes")) opt_eps = atoi(argv[++i]);
    else if (!strcmp(argv[i], "--policy")) opt_policy = atoi(argv[++i]);
    else if (!strcmp(argv[i], "--reuse")) opt_reuse = atoi(argv[++i]);
    else if (!strcmp(argv[i], "--steplim")) opt_steplim = strtoull(argv[++i], 0, 0);
    else if (!strcmp(argv[i], "--leak")) opt_leak = 1;
    else if (!strcmp(argv[i], "-v")) sim_verbose++;
    else { fprintf(stderr, "bad arg %s\n", argv[i]); return 2; }
  }
#ifdef SIM_CXX_EH
  sim_variant_cxx = 1;
#endif
  for (W = wls; W->name; W++) if (opt_work && !strcmp(W->name, opt_work)) break;
  if (!W->name) { fprintf(stderr, "no such workload\n"); for (W = wls; W->name; W++) printf("%s\n", W->name); return 2; }
  { static char alt[65536]; stack_t ss = {.ss_sp = alt, .ss_size = sizeof alt}; sigaltstack(&ss, 0); struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = crash; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; int sg[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP}; for (int i = 0; i < 6; i++) sigaction(sg[i], &sa, 0); }
  { void *b[2]; backtrace(b, 2); }
  { struct itimerval tv = {{3, 0}, {3, 0}}; signal(SIGVTALRM, watchdog); setitimer(ITIMER_VIRTUAL, &tv, 0); }
  setvbuf(stdout, 0, _IOFBF, 1 << 16);
  mkthread(driver, 0, 0); started = 1; rsch.s = opt_seed;
  switch_to(LV[0]);
  printf("RESULT {\"workload\":"); jstr(stdout, opt_work);
  printf(",\"variant\":%d,\"seed\":%llu,\"episodes\":%llu,\"steps\":%llu,\"sync_points\":%llu,\"mem_points\":%llu,\"switches\":%llu,\"schedules\":%u,\"states\":%u,\"checks\":%llu,\"waits\":%llu,\"blocks\":%llu,\"wakes\":%llu,\"timeouts\":%llu,\"threads\":%llu,\"leaps\":%llu,\"faults\":%llu,\"async_redirects\":%llu,\"heap_checks\":%llu,\"stack_checks\":%llu,\"handle_checks\":%llu,\"allocs\":%llu,\"counters\":{",
    sim_variant_cxx, (unsigned long long)opt_seed, (unsigned long long)st_episodes, (unsigned long long)st_steps, (unsigned long long)st_sync, (unsigned long long)st_mem, (unsigned long long)st_switch, hs_n[0], hs_n[1], (unsigned long long)st_checks, (unsigned long long)st_waits, (unsigned long long)st_blocks, (unsigned long long)st_wakes, (unsigned long long)st_timeouts, (unsigned long long)st_threads, (unsigned long long)st_leaps, (unsigned long long)st_faults, (unsigned long long)st_redir, (unsigned long long)st_heapck, (unsigned long long)st_stkck, (unsigned long long)st_handleck, (unsigned long long)st_allocs);
  for (int i = 0; i < ncnt; i++) { if (i) putchar(','); jstr(stdout, cnt[i].n); printf(":%llu", (unsigned long long)cnt[i].v); }
  printf("}}\n"); fflush(stdout); _exit(0);
}

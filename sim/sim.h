/* Harness API offered by the simulator (sim.c) to the workloads. */
#ifndef VERIF_SIM_H
#define VERIF_SIM_H
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
/* randomness for the workload (independent of the scheduler's stream) */
uint32_t sim_rand(uint32_t n);            /* 0..n-1 */
int sim_chance(int num, int den);
/* points and time */
void sim_yield(void);                     /* scheduling point, forced choice */
void sim_user_point(void);                /* scheduling point; async cancel may land here */
void sim_delay_us(uint32_t us);           /* block the caller for virtual time (not a pthread call) */
uint64_t sim_now(void);                   /* wall clock, 100ns units since 1970 (unix epoch) */
uint64_t sim_mono(void);                  /* monotonic virtual clock, 100ns units */
void sim_wall_adjust(int64_t delta100ns); /* change the system time */
uint64_t sim_seq(void);                   /* global event sequence number (unique, increasing) */
int sim_self(void);                       /* simulated thread id */
void sim_label(const char *l);            /* what the current thread is doing (diagnostics) */
/* wait until every other simulated thread has terminated; hang => violation */
void sim_quiesce(void);
int sim_others_blocked(void);             /* 1 if every other live thread is blocked */
int sim_thread_blocked(int tid);          /* 1 if blocked in a wait/sleep, 2 if gone */
void sim_settle(void);                    /* run all others until they all block (or die), no time advance */
int sim_calm(int on);                      /* 1: no random time leaps (time advances only by sleeping / waiting) */
/* verdicts */
void sim_violation(const char *oracle, const char *fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
void sim_finding(const char *oracle, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
#define SIM_CHECK(c, oracle, ...) do { sim_stat_check(); if (!(c)) sim_violation(oracle, __VA_ARGS__); } while (0)
void sim_stat_check(void);
int sim_add(volatile int *p, int d);      /* atomic add for harness counters (no scheduling point) */
void sim_stat(const char *name, int add); /* named coverage counter */
void sim_state(uint64_t h);               /* distinct workload-level outcomes/states */
void sim_trace(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
/* resources */
int sim_live_handles(void);
int sim_live_allocs(void);
uint64_t sim_live_bytes(void);
size_t sim_block_size(void *p);
int sim_live_allocs_sized(size_t n);      /* live blocks of exactly that size */
int sim_block_get(void *p, int *buf, int max); /* words of the live heap block at p (0: unknown) */
void sim_block_set(void *p, int i, int v);
int sim_live_tls(void);
int sim_live_threads(void);
void sim_dump_live(void);
/* faults: after n more fallible OS calls of the kinds in mask, fail `count` of them */
#define SIM_F_MALLOC 1
#define SIM_F_EVENT 2
#define SIM_F_SEM 4
#define SIM_F_THREAD 8
#define SIM_F_TLS 16
#define SIM_F_DUP 32
#define SIM_F_SYS 64                      /* affinity queries */
#define SIM_F_SET 128                     /* priority and affinity changes refused by the system (not in ALL) */
#define SIM_F_ALL 127
void sim_fault_arm(int mask, int n, int count);
int sim_fault_disarm(void);               /* returns number injected since arm */
int sim_fault_kind(void);                 /* kind bit of the last injected fault */
extern int sim_loader_lock; /* DLL build: 0 = DllMain may run in several threads at a time in this episode (for key destructors that wait for threads to start or end) */
uint64_t sim_process_cpus(int other); /* the CPU set of this process or of the other one (id 5152; 4 is one that may not be touched) */
void sim_set_cpus(uint64_t process_mask, uint64_t system_mask);
uint64_t sim_thread_affinity_of(int tid);
int sim_thread_winprio_of(int tid);
uint64_t sim_thread_stack_of(int tid);       /* stack size asked for at creation */
int sim_preempt(int on);                  /* enable/disable preemption; returns old */
int sim_policy(void);
extern int sim_variant_cxx;               /* 1 in the C++ exception build */
extern int sim_verbose;
/* raw (implicit) Win32 thread helper */
int sim_thread_tid_of_handle(void *h);
/* implemented by each workload */
struct sim_workload { const char *name; void (*episode)(int ep, int nep); void (*begin)(void); void (*end)(void); };
void sim_register(const char *name, void (*episode)(int, int));
void sim_register_hooks(const char *name, void (*begin)(void), void (*end)(void));
#ifdef __cplusplus
}
#endif
#endif

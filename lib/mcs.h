/* Controlled scheduler: public interface for harnesses. */
#ifndef MCS_H
#define MCS_H
#include <stddef.h>
#include <stdint.h>

/* Provided by the harness. */
void mc_args(int argc, char **argv);   /* once, before the exploration */
void mc_reset(void);                   /* before every execution */
void mc_body(void);                    /* the main thread of an execution */
void mc_finish(void);                  /* after every execution (all fibers done) */

/* Provided by the engine. */
extern int mc_fail_create, mc_create_failed;   /* pthread_create() may fail */
extern int mc_cur, mc_in_run;
extern int mc_sig_budget;              /* signals that may still be injected */
extern void (*mc_sig_deliver)(int fiber);
extern int (*mc_can_deliver)(int fiber);
/* Pick one of n alternatives; alternatives other than 0 cost `cost` deviations. */
int mc_choose(int n, int cost, const char *what);
void mc_violation(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
void mc_note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   /* trace line in replay mode */
void mc_obs(uint64_t h);               /* fold something observable into the execution's outcome hash */
void mc_range(const void *p, size_t n, int write);   /* plain access on behalf of the kernel */
size_t mc_live(void);                  /* live heap blocks */
void mc_acquire_all(void);
extern int mc_replaying;
void mc_point(void);                   /* a plain scheduling point */
void mc_exit(void) __attribute__((noreturn));   /* the process ends here */
extern int mc_frozen;                  /* only the current fiber exists (after fork) */
void mc_yield(void);                   /* let the others run until they block */
extern int mc_spurious;                /* explore spurious CAS failures and wakeups */
#endif

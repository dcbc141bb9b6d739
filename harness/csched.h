/* Controlled OpenMP runtime: threads are coroutines, every instrumented shared access is a scheduling point. */
#ifndef SCHED_H
#define SCHED_H
#include "vp.h"
/* Runs body(arg) once per schedule until all schedules with at most pb preemptions are done (or max executions).
   grant: number of threads the runtime gives (at most the requested number).  Returns the number of executions. */
uint64_t sched_explore(void (*body)(void *), void *arg, int grant, int pb, uint64_t max);
/* runs n threads of the user, thread i executing fn(data[i]), until all are done; to be called from body */
void sched_spawn(int n, void (*fn)(void *), void **data);
void sched_call_point(void);       /* scheduling point between two calls */
extern int sched_calls_only;       /* 1: only these are scheduling points (accesses are still checked for races) */
extern int sched_fresh;           /* 1: every schedule runs in a new process (first use of the library); only results are judged */
void sched_point(void);            /* extra scheduling point for uninstrumented code */
extern uint64_t sched_points, sched_regions;   /* of the last execution */
extern int sched_max_threads_used;
#endif

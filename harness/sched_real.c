/* The same cases on the real OpenMP runtime (one schedule each), with the address sanitizer. */
#include "csched.h"
uint64_t sched_points, sched_regions; int sched_max_threads_used = 4; int sched_calls_only, sched_fresh;
void sched_point(void) {}
void __tsan_read16(void *p) {} void __tsan_write16(void *p) {}
uint64_t sched_explore(void (*body)(void *), void *arg, int grant, int pb, uint64_t max)
{
    static uint64_t n; (void)grant; (void)max;
    if (pb || (grant != 1 && grant != 4)) return 0;
    body(arg); vp_step(vp_mix(++n)); return 1;
}

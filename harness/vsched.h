// Controlled scheduler: threads of the program under test run as fibers; every atomic operation on shared memory,
// lock, wait, signal and spin is a scheduling point.  All schedules with at most BOUND preemptions (and spurious
// wakeups) are run, by forking the process at every choice.  Accesses instrumented by -fsanitize=thread are checked
// for data races with vector clocks in every schedule.
#ifndef SCHED_H
#define SCHED_H
#include <stdint.h>
void sched_explore(void (*body)(void), int bound, long maxsteps, long maxruns, int nproc, const char *replay);
void sched_fail(const char *fmt, ...);
void sched_outcome(uint64_t hash);   // an observable outcome of this schedule (counted)
void sched_quiet(int on);            // no choices while on (set-up, tear-down)
int sched_tid(void);
void sched_spurious(int on);
#endif

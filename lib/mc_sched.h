/*
 * What the check programs of the schedule explorer may call besides mc.h (lib/sched.c).
 */
#ifndef MC_SCHED_H
#define MC_SCHED_H
#include "mc.h"
/* An explicit scheduling point. */
void mc_point(void);
/* 0 for the first thread, then in the order of creation. */
int mc_tid(void);
/* Threads made so far, and those of them neither joined nor detached. */
int mc_threads(void);
int mc_unjoined(void);
/* The k-th creation of a thread from here on fails. */
void mc_create_fail(int k);
/* The k-th allocation of thread tid from here on (its first thread: 0) fails, or all from there; 0: none. */
void mc_alloc_fail_in(int tid, long k, int onwards);
/* What sched_getaffinity() reports. */
void mc_cpus(int n);
/* In gen, for suites bounded by DELAYS: without deviations every k-th point goes to the next thread. */
void mc_rotate(int k);
/* A log outside the program's memory: no data race, no scheduling point. */
void mc_note(long v);
int mc_notes(const long **v);
/* A counter outside the program's memory: adds d, returns the new value. */
long mc_count(int which, long d);
/* The memory order of the last atomic operation or fence executed (0 relaxed .. 5 sequentially consistent). */
int mc_last_order(void);
/* The thread is not waiting: what follows is not the same read again. */
void mc_progress(void);
#endif

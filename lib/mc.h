/*
 * Bounded exhaustive explorer.
 *
 * A suite is a finite tree of choices.  gen() walks one path of it with mc_choose() and leaves a
 * case in static memory without touching the code under test; run() executes that case on the real
 * code and compares it with a reference model, step by step.  The driver visits every path, in
 * depth first order, in `jobs` processes (case i belongs to process i % jobs), confirms a failure
 * by running its case again in a fresh process, and counts what was covered.
 */
#ifndef MC_H
#define MC_H
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>

typedef struct mc_suite {
    const char *name;
    void (*init)(void);              /* once per process, before the first case */
    void (*gen)(void);
    void (*run)(void);
    void (*show)(FILE *);            /* describes the case at hand */
    int fork_each;                   /* every case in a process of its own */
    int bound, bound_thorough;       /* preemptions, for the schedule explorer (0: its default; DELAYS(n): that many deviations of any kind) */
#define DELAYS(n) (-1 - (n))
} mc_suite;

extern mc_suite mc_suites[];         /* ends with a NULL name; defined by the check */
extern int mc_thorough;              /* tier */
extern int mc_fault_mode;

/* 0..n-1, every value on some path. */
int mc_choose(int n);
/* Drop this path: the case it leads to is outside the space (never an unwanted result). */
void mc_skip(void) __attribute__((noreturn));
/* One distinct model state reached. */
void mc_state(uint64_t hash);
/* Transitions taken on the real code. */
void mc_steps(unsigned long n);
/* Executions of the real code compared with the model, besides the one per case. */
void mc_extra_traces(unsigned long n);
void mc_fail(const char *fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
/* A failure that may be on the list of known findings, under this key. */
void mc_finding(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
#define mc_check(c, ...) do { if (!(c)) mc_fail(__VA_ARGS__); } while (0)
/* A distinct observable outcome, to show the exploration is not vacuous. */
void mc_outcome(uint64_t hash);

static inline uint64_t mc_mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ull; h ^= h >> 29;
    return h;
}
static inline uint64_t mc_hash_mem(uint64_t h, const void *p, size_t n) {
    const unsigned char *c = (const unsigned char *)p;
    while (n--) h = mc_mix(h, *c++);
    return h;
}

/* ---- the allocator given to the code under test (RAII_MALLOC and friends) ---- */
#include "mc_alloc.h"

/* Where the case stands, for the message of a crash. */
extern const char *(*mc_where)(void);
/* Crashes of the code under test are failures of the case at hand, whatever handlers it installed. */
void mc_crash_handlers(void);
/* Used by forked engines. */
int mc_confirming(void);
#endif

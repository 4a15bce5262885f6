/* Thread-local variables used by several threads at once, also for the first time, under every schedule. */
#include "raii.h"
#include "mc_sched.h"
typedef struct { int a; char pad[40]; int b; } thing;
thrd_local_extern(thing, tlw_thing)
thrd_local(thing, tlw_thing, NULL)
thrd_static(long, tlw_long, 0)
#define NT 17
static int n, before, ways[NT], vars, rounds;
static void gen(void) {
    int i;
    n = 2 + mc_choose(mc_thorough ? 2 : 1);
    before = mc_choose(2);
    vars = mc_choose(2);
    rounds = 2;
    for (i = 0; i < n; i++) ways[i] = mc_choose(2);
}
static void gen_three(void) { int i; n = 3; before = mc_choose(2); vars = 0; rounds = 1; for (i = 0; i < n; i++) ways[i] = 0; }
static void gen_many(void) {
    int i;
    static const int ks[] = {0, 1, 2, 5};
    static const int ns[] = {4, 9, 16};
    mc_rotate(ks[mc_choose(4)]);
    n = ns[mc_choose(3)]; before = mc_choose(2); vars = mc_choose(2); rounds = 3;
    for (i = 0; i < n; i++) ways[i] = i & 1;
}
static void use(int t, int first) {
    void *p, *q = NULL;
    int k;
    if (first) {
        mc_check(is_tlw_thing_empty(), "a variable is not empty before its first use in thread %d", t);
        if (vars) mc_check(is_tlw_long_empty(), "a variable is not empty before its first use in thread %d", t);
    }
    if (vars && ways[t]) q = tlw_long();
    p = tlw_thing();
    if (vars && !ways[t]) q = tlw_long();
    mc_check(p && (!vars || q), "a variable of thread %d is nowhere", t);
    mc_check(p != q, "two variables of a thread are in one place");
    mc_check(!is_tlw_thing_empty(), "a variable is empty after its first use");
    for (k = 0; k < rounds; k++) {
        tlw_thing()->a = t * 1000 + k; tlw_thing()->b = ~(t * 1000 + k);
        if (vars) *tlw_long() = -(long)t * 100000 - k;
        mc_point();
        mc_check(tlw_thing() == p && (!vars || tlw_long() == q), "a variable of thread %d moved", t);
        mc_check(tlw_thing()->a == t * 1000 + k && tlw_thing()->b == ~(t * 1000 + k), "thread %d finds %d in its variable, not %d", t, tlw_thing()->a, t * 1000 + k);
        if (vars) mc_check(*tlw_long() == -(long)t * 100000 - k, "thread %d finds another value in its variable", t);
    }
    mc_note((long)(intptr_t)p);
}
static int worker(void *a) { use((int)(intptr_t)a, 1); return 0; }
static void run(void) {
    thrd_t th[NT];
    long base, round;
    int i;
    raii_init();
    if (before) use(0, 1);
    for (round = 0; round < 2; round++) {
        base = mc_alloc_live();
        for (i = 1; i < n; i++) mc_check(thrd_create(&th[i], worker, (void *)(intptr_t)i) == thrd_success, "no thread");
        if (n < 3) use(0, !before && !round);
        for (i = 1; i < n; i++) thrd_join(th[i], NULL);
        if (n < 3) use(0, 0); else { before = 1; }
        if (n >= 3 && round == 0) { mc_check(mc_alloc_live() <= base, "%ld blocks of threads that have ended are left", mc_alloc_live() - base); }
        if (n < 3 && round == 1) mc_check(mc_alloc_live() <= base, "%ld blocks of threads that have ended are left", mc_alloc_live() - base);
    }
    mc_outcome(mc_mix(n, vars));
}
static void show(FILE *f) { int i; fprintf(f, "%d threads%s, %d variables, ways:", n, before ? ", the first one used it before" : "", 1 + vars); for (i = 0; i < n; i++) fprintf(f, " %d", ways[i]); }
mc_suite mc_suites[] = {
    {"first use", NULL, gen, run, show, 0, 100, 100},
    {"three", NULL, gen_three, run, show, 0, 4, 100},
    {"many", NULL, gen_many, run, show, 0, DELAYS(0), DELAYS(1)},
    {NULL}
};

/* Spinlocks: one holder at a time, what it wrote is there for the next, everybody gets it. */
#include "raii.h"
#include "mc_sched.h"

enum { S_A, S_B, S_AB, S_TWICE, NS };        /* lock a, lock b, b inside a, a and again a */
enum { F_MACRO, F_FUNC, F_FLAG, NF };        /* atomic_lock, c89atomic_spinlock_lock, a lock made of an atomic_flag */
#define MT 12
#define MO 2
static int nt, no[MT], sec[MT][MO], form, cleared;
static const char *sname[] = {"a", "b", "a(b)", "a a"}, *fname[] = {"atomic_lock", "c89atomic_spinlock_lock", "atomic_flag"};
static struct { unsigned char x[8]; atomic_spinlock a; unsigned char y[7]; atomic_spinlock b; unsigned char z[7]; } l;
static int data[2], list[32], nlist;
static void show(FILE *f) {
    int i, j;
    fprintf(f, "%s, cleared %d:", fname[form], cleared);
    for (i = 0; i < nt; i++) { fprintf(f, i ? " ||" : ""); for (j = 0; j < no[i]; j++) fprintf(f, " %s", sname[sec[i][j]]); }
    fprintf(f, "\n");
}
static void gen(int threads, int sections, int forms) {
    int i, last = 0, long_ = 0;
    nt = threads;
    form = mc_choose(forms);
    cleared = mc_choose(2);
    for (i = 0; i < nt; i++) {
        static const int pr[][2] = {{S_A, -1}, {S_B, -1}, {S_AB, -1}, {S_TWICE, -1}, {S_A, S_B}, {S_B, S_A}, {S_AB, S_A}, {S_TWICE, S_A}};
        int c = mc_choose(sections > 1 ? 8 : 4), k;
        if (i && i == nt - 1 && c < last) mc_skip();        /* the same with two threads exchanged */
        last = c;
        no[i] = 1 + (pr[c][1] >= 0);
        for (k = 0; k < no[i]; k++) sec[i][k] = pr[c][k];
        long_ |= c > 3;
    }
    if (cleared && long_) mc_skip();
}
static void gen_two(void) { gen(2, 2, NF); }
static void gen_three(void) { gen(3, 1, NF); }
static void gen_four(void) { gen(4, 1, 1); cleared = 0; }
static void gen_many(void) {
    static const int ns[] = {5, 8, 12}, ks[] = {1, 2, 3, 5};
    int i, a = mc_choose(NS), s = mc_choose(2);
    nt = ns[mc_choose(3)];
    form = mc_choose(NF); cleared = mc_choose(2);
    mc_rotate(ks[mc_choose(4)]);
    for (i = 0; i < nt; i++) { no[i] = 2; sec[i][0] = (a + i * s) % NS; sec[i][1] = (a + 1 + i) % NS; }
}
static void enter(atomic_spinlock *m, int which) {
    if (form == F_MACRO) atomic_lock(m);
    else if (form == F_FUNC) c89atomic_spinlock_lock(m);
    else while (atomic_flag_test_and_set_explicit(m, memory_order_acquire)) thrd_yield();
    mc_check(mc_count(which, 1) == 1, "two threads hold the lock at once");
}
static void leave(atomic_spinlock *m, int which) {
    mc_count(which, -1);
    if (form == F_MACRO) atomic_unlock(m);
    else if (form == F_FUNC) c89atomic_spinlock_unlock(m);
    else atomic_flag_clear_explicit(m, memory_order_release);
}
static void use(int which) {
    int v = data[which];
    mc_point();
    mc_check(data[which] == v, "changed while the lock is held");
    data[which] = v + 1;
    mc_count(8 + which, 1);
}
static int work(void *p) {
    int i = (int)(intptr_t)p, j;
    for (j = 0; j < no[i]; j++) {
        int s = sec[i][j], k;
        for (k = 0; k <= (s == S_TWICE); k++) {
            if (s != S_B) { enter(&l.a, 0); use(0); }
            if (s == S_AB || s == S_B) { enter(&l.b, 1); use(1); leave(&l.b, 1); }
            if (s != S_B) leave(&l.a, 0);
        }
    }
    return 0;
}
static void run(void) {
    thrd_t id[MT];
    int i, w;
    memset(&l, 0, sizeof l);
    memset(l.x, 0xA5, sizeof l.x); memset(l.y, 0xA5, sizeof l.y); memset(l.z, 0xA5, sizeof l.z);
    if (cleared) { atomic_flag_test_and_set(&l.a); atomic_flag_clear(&l.a); atomic_flag_clear(&l.b); }
    for (i = 1; i < nt; i++) mc_check(thrd_create(&id[i], work, (void *)(intptr_t)i) == thrd_success, "no thread");
    work(0);
    for (i = 1; i < nt; i++) thrd_join(id[i], NULL);
    for (w = 0; w < 2; w++) mc_check(data[w] == mc_count(8 + w, 0), "%ld sections counted %d", mc_count(8 + w, 0), data[w]);
    mc_check(!atomic_flag_load(&l.a) && !atomic_flag_load(&l.b), "a lock is left locked");
    for (i = 0; i < 7; i++) mc_check(l.x[i] == 0xA5 && l.x[7] == 0xA5 && l.y[i] == 0xA5 && l.z[i] == 0xA5, "a neighbour of a lock is changed");
    mc_outcome(data[0] * 16 + data[1]);
}
mc_suite mc_suites[] = {
    {"two", NULL, gen_two, run, show, 0, 100, 100},
    {"three", NULL, gen_three, run, show, 0, 3, 100},
    {"four", NULL, gen_four, run, show, 0, 1, 4},
    {"many", NULL, gen_many, run, show, 0, DELAYS(0), DELAYS(0)},
    {NULL}
};

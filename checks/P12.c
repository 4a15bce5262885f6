/* Arenas of different threads: what one gives back another may get, but nobody gets what somebody has. */
#include "raii.h"
#include "mc_sched.h"

enum { O_SMALL, O_LARGE, O_HUGE, O_ZERO, O_CLEAR, O_FREE, O_SCOPE, NO };
static const char *oname[] = {"small", "large", "huge", "zeroed", "clear", "free", "scope"};
#define MT 10
#define MO 4
#define MB 12
static int nt, nop[MT], op[MT][MO], before, handed, keep;
typedef struct { arena_t a; int nb; struct { unsigned char *p; long n; } b[MB]; } own;
static own o[MT];
static void show(FILE *f) {
    int i, j;
    fprintf(f, "chunks given back before %d, arenas of another thread %d, threshold %d:", before, handed, keep);
    for (i = 0; i < nt; i++) { fprintf(f, i ? " ||" : ""); for (j = 0; j < nop[i]; j++) fprintf(f, " %s", oname[op[i][j]]); }
    fprintf(f, "\n");
}
static int few;
static const int fewops[] = {O_SMALL, O_HUGE, O_CLEAR, O_FREE};
static void gen(int threads, int ops, int pre) {
    int i, j;
    nt = threads;
    before = mc_choose(pre);
    handed = ops > 1 && mc_choose(2);
    keep = 1 + (handed ? 0 : mc_choose(2));
    for (i = 0; i < nt; i++) {
        nop[i] = ops;
        for (j = 0; j < ops; j++) op[i][j] = few ? fewops[mc_choose(4)] : mc_choose(NO);
    }
    for (i = 1; i < nt; i++) for (j = 0; j < ops; j++) {
        if (op[i][j] < op[i - 1][j]) mc_skip();
        if (op[i][j] > op[i - 1][j]) break;
    }
}
static void gen_one(void) { gen(2, 1, 3); }
static void gen_two(void) { gen(2, 2, 3); }
static void gen_long(void) { few = !mc_thorough; gen(2, 3, 2); }
static void gen_three(void) { gen(3, 1, 3); }
static void gen_three_two(void) { few = !mc_thorough; gen(3, 2, 2); }

/* many threads, all operations in turn, in step with each other */
static void gen_many(void) {
    static const int ns[] = {4, 6, 10}, ks[] = {1, 2, 3, 5, 8};
    int i, j, a = mc_choose(NO), s = mc_choose(3), t = mc_choose(NO);
    nt = ns[mc_choose(3)];
    mc_rotate(ks[mc_choose(5)]);
    before = mc_choose(2) * 4; handed = mc_choose(2); keep = 1 + mc_choose(2);
    for (i = 0; i < nt; i++) { nop[i] = 3; for (j = 0; j < 3; j++) op[i][j] = (a + i * s + j * t) % NO; }
}

/* The first and last bytes of a block are its own as long as it lives. */
static void mark(own *w, int k, int id) {
    unsigned char *p = w->b[k].p;
    long n = w->b[k].n;
    p[0] = p[1] = p[n - 2] = p[n - 1] = (unsigned char)(id * 16 + k);
}
static void look(own *w, int id) {
    int k;
    for (k = 0; k < w->nb; k++) {
        unsigned char *p = w->b[k].p, v = (unsigned char)(id * 16 + k);
        long n = w->b[k].n;
        mc_check(mc_block_live(p) && mc_block_live(p + n - 1), "a block that was not released is not live memory");
        mc_check(p[0] == v && p[1] == v && p[n - 2] == v && p[n - 1] == v, "a block of thread %d changed", id);
    }
}
static void got(own *w, unsigned char *p, long n, int id) {
    int k;
    mc_check(p != NULL, "no memory");
    for (k = 0; k < w->nb; k++) mc_check(p + n <= w->b[k].p || p >= w->b[k].p + w->b[k].n, "two blocks overlap");
    mc_check(w->nb < MB, "too many blocks");
    w->b[w->nb].p = p;
    w->b[w->nb].n = n;
    w->nb++;
    mark(w, w->nb - 1, id);
}
static void scoped(own *w, int id) {
    unique_t *u = unique_init_arena();
    unsigned char *p = malloc_by(u, 10), *q;
    p[0] = p[9] = 0x50 + id;
    mc_point();
    q = calloc_by(u, 3, 200);
    mc_check(!q[0] && !q[599], "not zero");
    q[0] = q[599] = 0x60 + id;
    look(w, id);
    mc_point();
    mc_check(p[0] == 0x50 + id && p[9] == 0x50 + id && q[0] == 0x60 + id && q[599] == 0x60 + id, "the block of a scope changed");
    free_arena(u);
}
static void whole(int id) {
    own *w = &o[id];
    int j;
    if (!w->a) w->a = arena_init(keep);
    for (j = 0; j < nop[id]; j++) {
        switch (op[id][j]) {
            case O_SMALL: got(w, arena_alloc(w->a, 40), 40, id); break;
            case O_LARGE: got(w, arena_alloc(w->a, 700), 700, id); break;
            case O_HUGE: got(w, arena_alloc(w->a, 2000), 2000, id); break;
            case O_ZERO: {
                unsigned char *p = arena_calloc(w->a, 2, 100);
                mc_check(!p[0] && !p[99] && !p[199], "not zero");
                got(w, p, 200, id);
                break; }
            case O_CLEAR: w->nb = 0; arena_clear(w->a); break;
            case O_FREE: w->nb = 0; arena_free(w->a); w->a = arena_init(keep); break;
            case O_SCOPE: scoped(w, id); break;
        }
        look(w, id);
        mc_point();
        look(w, id);
    }
    if (!(handed & 1)) { arena_free(w->a); w->a = NULL; w->nb = 0; }
}
static int work(void *p) { int i = (int)(intptr_t)p; whole(i); raii_destroy(); return 0; }
static void run(void) {
    thrd_t id[MT];
    int i;
    long base;
    arena_t d;
    raii_init();
    ex_signal_setup();
    memset(o, 0, sizeof o);
    base = mc_alloc_live();
    if (before) {
        d = arena_init(before);
        for (i = 0; i < before; i++) arena_alloc(d, 300);
        if (before > 1) { arena_alloc(d, 1200); arena_alloc(d, 4000); }
        arena_clear(d);
        arena_free(d);
    }
    if (handed) for (i = 0; i < nt; i++) {
        o[i].a = arena_init(keep);
        got(&o[i], arena_alloc(o[i].a, 60), 60, i);
    }
    for (i = 1; i < nt; i++) mc_check(thrd_create(&id[i], work, (void *)(intptr_t)i) == thrd_success, "no thread");
    whole(0);
    for (i = 1; i < nt; i++) thrd_join(id[i], NULL);
    for (i = 0; i < nt; i++) look(&o[i], i);
    for (i = 0; i < nt; i++) if (o[i].a) { arena_free(o[i].a); o[i].a = NULL; o[i].nb = 0; }
    mc_outcome(mc_alloc_live() - base);
    mc_check(mc_alloc_live() - base <= 32, "%ld blocks are left when all arenas are gone", mc_alloc_live() - base);
    d = arena_init(1); arena_alloc(d, 64 << 10); arena_free(d);
    raii_deferred_clean();
    mc_check(mc_alloc_live() == base, "%ld blocks are lost to every arena", mc_alloc_live() - base);
}
mc_suite mc_suites[] = {
    {"one each", NULL, gen_one, run, show, 0, 100, 100},
    {"three", NULL, gen_three, run, show, 0, 2, 100},
    {"two each", NULL, gen_two, run, show, 0, 1, 4},
    {"three each", NULL, gen_long, run, show, 0, 1, 1},
    {"three, two each", NULL, gen_three_two, run, show, 0, 1, 1},
    {"many", NULL, gen_many, run, show, 0, DELAYS(0), DELAYS(1)},
    {NULL}
};

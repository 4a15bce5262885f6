#include "scope.h"
static const int pre[] = {0, 15, 16, 31, 33};
static void gen(void) {
    int i, n;
    scope_gen_ends();
    prefill = pre[mc_choose(mc_thorough ? 5 : 3)];
    n = mc_choose(mc_thorough ? 7 : 6);
    nops = n;
    for (i = 0; i < n; i++) {
        static const int kinds[] = {K_PLAIN, K_NEST, K_REC, K_NEST2, K_RELEASES};
        int c = mc_choose(6);
        ops[i].arg = 0;
        if (c == 5) { ops[i].op = O_RELEASE; ops[i].arg = end_kind; }
        else { ops[i].op = O_DEFER; ops[i].kind = kinds[c]; }
    }
}
/* Every length of the list, and one operation at each. */
static void gen_lengths(void) {
    static const int kinds[] = {K_PLAIN, K_NEST, K_NEST2, K_RELEASES};
    scope_gen_ends();
    prefill = mc_choose(mc_thorough ? 200 : 100);
    nops = mc_choose(3);
    if (nops == 1) { ops[0].op = O_DEFER; ops[0].kind = kinds[mc_choose(4)]; ops[0].arg = 0; }
    if (nops == 2) {
        ops[0].op = O_RELEASE; ops[0].arg = end_kind;
        ops[1].op = O_DEFER; ops[1].kind = kinds[mc_choose(4)]; ops[1].arg = 0;
    }
}

/* A worker thread that defers, with its end in every way: all has run once the thread is joined. */
enum { TH_RETURN, TH_THROW, TH_PANIC, TH_GUARD_FIRST, TH_RELEASE_FIRST, NTH };
static int th_n, th_ways, th_kinds[4], th_late;
static char th_log[256];
static void th_run(void *p) { char t[8]; snprintf(t, sizeof t, "%d ", (int)(intptr_t)p & 63); strcat(th_log, t); if ((intptr_t)p & 64) raii_defer(th_run, (void *)((intptr_t)p - 64 + 8)); }
static void_t th_work(args_t a) {
    int i;
    (void)a;
    if (th_ways == TH_RELEASE_FIRST) { raii_defer(th_run, (void *)40); raii_deferred_clean(); }
    if (th_ways == TH_GUARD_FIRST) { guard { _defer(th_run, (void *)41); } guarded }
    for (i = 0; i < th_n; i++) raii_defer(th_run, (void *)(intptr_t)(i + 64 * th_kinds[i]));
    if (th_ways == TH_THROW) throw(range_error);
    if (th_ways == TH_PANIC) raii_panic("oops");
    return NULL;
}
static void gen_thread(void) {
    int i;
    th_n = mc_choose(5); th_ways = mc_choose(NTH);
    for (i = 0; i < th_n && i < 4; i++) th_kinds[i] = mc_choose(2);
}
static void thread_run(void) {
    char want[256] = "", t[8];
    int i;
    uint64_t h = 3;
    th_log[0] = 0;
    if (th_ways == TH_RELEASE_FIRST) strcat(want, "40 ");
    if (th_ways == TH_GUARD_FIRST) strcat(want, "41 ");
    for (i = th_n; i-- > 0;) { sprintf(t, "%d ", i); strcat(want, t); if (th_kinds[i]) { sprintf(t, "%d ", i + 8); strcat(want, t); } mc_state(mc_mix(i, th_kinds[i])); }
    {
        volatile int thrown = 0;
        future f = thrd_async(th_work, NULL);
        try { thrd_get(f); } catch_any { thrown = 1; } end_try;
        mc_check(thrown == (th_ways == TH_THROW || th_ways == TH_PANIC), "the worker's exception %s", thrown ? "came from nowhere" : "is lost");
    }
    mc_check(!strcmp(want, th_log), "deferred in the worker thread, and run by its end: \"%s\", expected \"%s\"", th_log, want);
    raii_deferred_clean();
    mc_steps(th_n + 2);
    h = mc_hash_mem(h, want, strlen(want));
    mc_outcome(h);
}
static void thread_show(FILE *f) {
    static const char *w[] = {"return", "throw", "panic", "guard first, return", "release first, return"};
    fprintf(f, "worker defers %d (kinds %d %d %d %d), ends by %s\n", th_n, th_kinds[0], th_kinds[1], th_kinds[2], th_kinds[3], w[th_ways]);
}
#include "big.h"
static void gen_big(void) { big_pick(0); }
/* see P01b.c */
void guards_init(void), guards_run(void), guards_show(FILE *), guards_gen(void), guards_deep_gen(void), guards_wide_gen(void);
mc_suite mc_suites[] = {{"histories", scope_init, gen, scope_run, scope_show, 0}, {"lengths", scope_init, gen_lengths, scope_run, scope_show, 0}, {"long", scope_init, gen_big, big_run, big_show, 0}, {"thread", scope_init, gen_thread, thread_run, thread_show, 0}, {"guards", guards_init, guards_gen, guards_run, guards_show, 0}, {"deep guards", guards_init, guards_deep_gen, guards_run, guards_show, 0}, {"wide guards", guards_init, guards_wide_gen, guards_run, guards_show, 0}, {0}};

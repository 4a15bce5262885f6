#include "scope.h"
static const int pre[] = {0, 14, 16};
static void gen(void) {
    int i, n;
    scope_gen_ends();
    prefill = pre[mc_choose(mc_thorough ? 3 : 2)];
    n = 1 + mc_choose(mc_thorough ? 5 : 4);
    nops = n;
    for (i = 0; i < n; i++) {
        int c = mc_choose(12);
        ops[i].arg = 0;
        if (c < 8) { ops[i].op = O_ALLOC; ops[i].kind = c; }
        else if (c == 8) { ops[i].op = O_DEFER; ops[i].kind = K_ALLOCS; }
        else if (c == 9) { ops[i].op = O_FIRE; ops[i].arg = 1; }
        else if (c == 10) { ops[i].op = O_CANCEL; ops[i].arg = 0; }
        else { ops[i].op = O_RELEASE; ops[i].arg = end_kind; }
    }
}

/* One allocation of each size through each way to ask, with a small one before and after. */
static const long some[] = {4095, 4096, 4097, 8191, 8192, 8193, 10000, 16384, 32767, 32768, 65535, 65536, 65537, 100001, 262144, 1 << 20, (1 << 20) + 1, (1 << 24) + 3};
static long sz_n, sz_count; static int sz_way, sz_scope;
enum { W_MALLOC_FULL, W_CALLOC_FULL, W_MALLOC_BY, W_CALLOC_BY, W_MALLOC_DEFAULT, W_CALLOC_DEFAULT, W_MEMDUP, W_STR_MEMDUP, W_GUARD_MALLOC, W_GUARD_CALLOC, W_TRY_MALLOC, W_TRY_CALLOC, W_TRY_REALLOC, W_ARENA_BY, W_ARENA_CBY, NWAY };
static const char *wname[] = {"malloc_full", "calloc_full", "malloc_by", "calloc_by", "malloc_default", "calloc_default", "raii_memdup", "str_memdup_ex", "_malloc", "_calloc", "try_malloc", "try_calloc", "try_realloc", "malloc_by of an arena", "calloc_by of an arena"};
static void gen_sizes(void) {
    int i, big;
    sz_way = mc_choose(NWAY);
    big = mc_choose(2);
    if (big) sz_n = some[mc_choose(sizeof some / sizeof *some)];
    else sz_n = 1 + mc_choose(mc_thorough ? 2000 : 400);
    sz_count = 1;
    if (sz_way == W_CALLOC_FULL || sz_way == W_CALLOC_BY || sz_way == W_CALLOC_DEFAULT || sz_way == W_GUARD_CALLOC || sz_way == W_TRY_CALLOC || sz_way == W_ARENA_CBY) {
        static const int counts[] = {1, 2, 3, 7, 16, 255, 256, 300, 65536};
        i = counts[mc_choose(9)];
        if ((double)i * sz_n > (1 << 25)) mc_skip();
        sz_count = i;
    }
    sz_scope = sz_way == W_MALLOC_FULL || sz_way == W_CALLOC_FULL || sz_way == W_MALLOC_BY || sz_way == W_CALLOC_BY || sz_way == W_STR_MEMDUP ? mc_choose(2) : 0;
}
static int was_freed; static unsigned char *sz_p;
static void sz_freed(void *p, long n) { (void)n; if (p == (void *)sz_p) was_freed++; }
static void sz_use(unsigned char *p, long n, int zero, int block) {
    long k;
    mc_check(p != NULL && ((uintptr_t)p & 1) == 0, "the allocation is nowhere, or at an odd address");
    if (block) mc_check(mc_block_size(p) >= n, "asked for %ld bytes, got a block of %ld", n, mc_block_size(p));
    else mc_check(mc_block_live(p) && mc_block_live(p + n - 1), "the allocation is not live memory");
    if (zero) { for (k = 0; k < n; k++) if (p[k]) mc_fail("calloc memory is not zero at %ld of %ld", k, n); }
    memset(p, 0x5e, n);
    sz_p = p;
}
static void sz_still(const char *when) {
    long k, n = sz_n * sz_count;
    mc_check(was_freed == 0, "%s: the memory is gone", when);
    for (k = 0; k < n; k += k < 64 || k > n - 66 ? 1 : 61) if (sz_p[k] != 0x5e) mc_fail("%s: the memory changed at %ld", when, k);
}
static void sz_guarded(void)
guard {
    unsigned char *a = _malloc(7), *b;
    memset(a, 1, 7);
    sz_use(sz_way == W_GUARD_MALLOC ? _malloc(sz_n) : _calloc(sz_count, sz_n), sz_n * sz_count, sz_way == W_GUARD_CALLOC, 1);
    b = _calloc(3, 5);
    memset(b, 2, 15);
    sz_still("in the guard");
} guarded
static void run_sizes(void) {
    static unsigned char *src;
    long n = sz_n * sz_count, k;
    memory_t *sc = NULL;
    unsigned char *a = NULL, *b;
    mc_alloc_reset();
    was_freed = 0; sz_p = NULL;
    mc_on_free = sz_freed;
    if (!src) { src = malloc(1 << 25); for (k = 0; k < 1 << 25; k++) src[k] = (unsigned char)(k * 31 + k / 251 + 1); }
    switch (sz_way) {
        case W_GUARD_MALLOC: case W_GUARD_CALLOC: sz_guarded(); mc_check(was_freed == 1, "the guard's memory is released %d times", was_freed); break;
        case W_TRY_MALLOC: case W_TRY_CALLOC: case W_TRY_REALLOC:
            sz_use(sz_way == W_TRY_MALLOC ? try_malloc(n) : sz_way == W_TRY_CALLOC ? try_calloc(sz_count, sz_n) : try_realloc(NULL, n), n, sz_way == W_TRY_CALLOC, 1);
            if (sz_way == W_TRY_REALLOC) {
                unsigned char *p = sz_p, *q = try_realloc(p, n + 100);
                mc_check(mc_block_size(q) >= n + 100, "asked for %ld bytes, got a block of %ld", n + 100, mc_block_size(q));
                for (k = 0; k < n; k++) if (q[k] != 0x5e) mc_fail("what was in the memory is lost at %ld", k);
                sz_p = NULL; mc_free(q);
            } else mc_free(sz_p);
            break;
        case W_ARENA_BY: case W_ARENA_CBY:
            sc = unique_init_arena();
            a = malloc_by(sc, 7); memset(a, 1, 7);
            sz_use(sz_way == W_ARENA_BY ? malloc_by(sc, n) : calloc_by(sc, sz_count, sz_n), n, sz_way == W_ARENA_CBY, 0);
            b = calloc_by(sc, 3, 5); for (k = 0; k < 15; k++) mc_check(b[k] == 0, "calloc_by memory is not zero"); memset(b, 2, 15);
            sz_still("in the scope");
            for (k = 0; k < 7; k++) mc_check(a[k] == 1, "the memory before changed");
            free_arena(sc);
            break;
        default:
            if (sz_scope) sc = unique_init();
            else { raii_init(); sc = raii_local(); }
            a = malloc_by(sc, 7); memset(a, 1, 7);
            switch (sz_way) {
                case W_MALLOC_FULL: sz_use(malloc_full(sc, n, (func_t)RAII_FREE), n, 0, 1); break;
                case W_CALLOC_FULL: sz_use(calloc_full(sc, sz_count, sz_n, (func_t)RAII_FREE), n, 1, 1); break;
                case W_MALLOC_BY: sz_use(malloc_by(sc, n), n, 0, 1); break;
                case W_CALLOC_BY: sz_use(calloc_by(sc, sz_count, sz_n), n, 1, 1); break;
                case W_MALLOC_DEFAULT: sz_use(malloc_default(n), n, 0, 1); break;
                case W_CALLOC_DEFAULT: sz_use(calloc_default(sz_count, sz_n), n, 1, 1); break;
                default: {
                    unsigned char *d = sz_way == W_MEMDUP ? raii_memdup(src, n) : (unsigned char *)str_memdup_ex(sc, src, n);
                    mc_check(memcmp(d, src, n) == 0, "duplicated memory differs");
                    sz_use(d, n, 0, 1);
                }
            }
            b = calloc_by(sc, 3, 5); memset(b, 2, 15);
            sz_still("in the scope");
            mc_check(raii_deferred_count(sc) == 3, "%zu registrations for 3 allocations", raii_deferred_count(sc));
            if (sz_scope) raii_delete(sc); else raii_deferred_clean();
            mc_check(was_freed == 1, "the memory is released %d times", was_freed);
    }
    mc_on_free = NULL;
    mc_alloc_verify("at the end");
    if (mc_alloc_live() && (sz_way == W_ARENA_BY || sz_way == W_ARENA_CBY)) { arena_t d = arena_init(1); arena_alloc(d, 64 << 20); arena_free(d); }
    mc_check(mc_alloc_live() == 0, "%ld blocks are never released", mc_alloc_live());
    mc_state(mc_mix(sz_way * 2 + sz_scope, n)); mc_outcome(mc_mix(sz_way, n < 400)); mc_steps(4);
}
static void show_sizes(FILE *f) { fprintf(f, "%s of %ld x %ld bytes (%s)\n", wname[sz_way], sz_count, sz_n, sz_scope ? "unique_init()" : "the usual scope"); }

/* Memory of a worker thread, however it ends. */
static int tm_n, tm_how[4], tm_way; static int tm_alive;
static struct { unsigned char *p; long n; int freed; } tm[8];
static void tm_freed(void *p, long n) { int i; (void)n; for (i = 0; i < tm_n; i++) if (tm[i].p == p) { tm[i].freed++; mc_check(!tm_alive, "memory of the thread is released before its function has ended"); } }
static void tm_check(const char *when) {
    int i; long k;
    for (i = 0; i < tm_n; i++) if (tm[i].p) {
        mc_check(!tm[i].freed && mc_block_live(tm[i].p), "%s: memory of the thread is gone", when);
        for (k = 0; k < tm[i].n; k++) mc_check(tm[i].p[k] == (unsigned char)(i + 40), "%s: memory of the thread changed", when);
    }
}
static void tm_late(void *p) { (void)p; tm_check("in a deferred function"); }
static void_t tm_work(args_t a) {
    int i;
    (void)a;
    tm_alive = 1;
    for (i = 0; i < tm_n; i++) {
        tm[i].n = 20 + i * 5;
        switch (tm_how[i]) {
            case 0: tm[i].p = malloc_default(tm[i].n); break;
            case 1: tm[i].p = calloc_default(tm[i].n / 5, 5); break;
            case 2: tm[i].p = raii_memdup("abcdefghijklmnopqrstuvwxyz0123456789", tm[i].n); break;
        }
        memset(tm[i].p, i + 40, tm[i].n);
    }
    /* runs before what was registered before it is released */
    raii_defer(tm_late, NULL);
    tm_check("in the thread");
    if (tm_way == 1) { tm_alive = 0; throw(range_error); }
    if (tm_way == 2) { tm_alive = 0; raii_panic("oops"); }
    if (tm_way == 3) { guard { _malloc(9); } guarded tm_check("after a guard"); }
    if (tm_way == 4) { volatile int c = 0; try { throw(range_error); } catch_any { c = 1; } end_try; (void)c; tm_check("after an exception"); }
    tm_alive = 0;
    return NULL;
}
static void gen_thread(void) {
    int i;
    tm_n = mc_choose(5); tm_way = mc_choose(5);
    for (i = 0; i < tm_n && i < 4; i++) tm_how[i] = mc_choose(3);
}
static void run_thread(void) {
    volatile int thrown = 0;
    int i;
    future f;
    mc_alloc_reset();
    memset(tm, 0, sizeof tm);
    mc_on_free = tm_freed;
    f = thrd_async(tm_work, NULL);
    try { thrd_get(f); } catch_any { thrown = 1; } end_try;
    mc_check(thrown == (tm_way == 1 || tm_way == 2), "the worker's exception %s", thrown ? "came from nowhere" : "is lost");
    for (i = 0; i < tm_n; i++) mc_check(tm[i].freed == 1, "memory %d of the thread is released %d times", i, tm[i].freed);
    raii_deferred_clean();
    mc_on_free = NULL;
    mc_alloc_verify("at the end");
    mc_check(mc_alloc_live() == 0, "%ld blocks are never released", mc_alloc_live());
    mc_state(mc_mix(tm_way, tm_n)); mc_outcome(thrown); mc_steps(tm_n + 2);
}
static void show_thread(FILE *f) { static const char *w[] = {"return", "throw", "panic", "a guard, return", "try, return"}; fprintf(f, "worker allocates %d (%d %d %d %d), ends by %s\n", tm_n, tm_how[0], tm_how[1], tm_how[2], tm_how[3], w[tm_way]); }
/* see P01b.c */
void guards_init(void), guards_run(void), guards_show(FILE *), guards_memory_gen(void), guards_deep_gen(void), guards_wide_gen(void);
mc_suite mc_suites[] = {{"histories", scope_init, gen, scope_run, scope_show, 0}, {"sizes", scope_init, gen_sizes, run_sizes, show_sizes, 0}, {"thread", scope_init, gen_thread, run_thread, show_thread, 0},
    {"guards", guards_init, guards_memory_gen, guards_run, guards_show, 0}, {"deep guards", guards_init, guards_deep_gen, guards_run, guards_show, 0}, {"wide guards", guards_init, guards_wide_gen, guards_run, guards_show, 0}, {0}};

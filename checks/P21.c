/* thrd_scope / thrd_spawn / thrd_sync / thrd_then / thrd_result / thrd_is_finish / thrd_destroy,
   under every schedule. */
#include "raii.h"
#include "mc_sched.h"

enum { W_VALUE, W_NULL, W_RETURNING, W_THROW, W_DEFER, NW };
static const char *wname[] = {"value", "null", "returning", "throw", "defer"};
enum { A_NONE, A_FINISH, A_POLL, A_RESULT, NA };
#define MAXN 34
static int n, kind[MAXN], batch1, twice, ask, cpus, ex_args, foreign, osize, every;
#define VAL(i) ((intptr_t)0x7A5B3C1D2E4F6071ll + (intptr_t)(i) * 0x0101010101010101ll)
static const int sizes[] = {16, 1, 200, 5000};
static int size_of(int i) { return osize < 4 ? sizes[osize] : 1 + i * 37; }
static int same(void *o, int i) { unsigned char *c = o; int k; if (!c) return 0; for (k = 0; k < size_of(i); k++) if (c[k] != (unsigned char)(k * 7 + i)) return 0; return 1; }

static void show(FILE *f) {
    int i;
    fprintf(f, "%d cpus, spawns:", cpus);
    for (i = 0; i < n; i++) fprintf(f, "%s %s", i && (i == batch1 || (every && i % every == 0)) ? " | sync |" : "", wname[kind[i]]);
    fprintf(f, ", ask %d, sync again %d, spawn_ex %d, another scope %d\n", ask, twice, ex_args, foreign);
}


static int plain[MAXN];
static uintptr_t ids[MAXN];
static raii_values_t arg[MAXN];
static void deferred(void *p) { mc_count(64 + (int)(intptr_t)p, 1); }
static int common(args_t a) {
    int i = ex_args ? get_args(a, 0).integer : get_arg(a).integer;
    mc_count(i, 1);
    plain[i] = 500 + i;
    ids[i] = thrd_self();
    return i;
}
static void_t w_value(args_t a) { int i = common(a); mc_count(128 + i, 1); return thrd_value(VAL(i)); }
static void_t w_null(args_t a) { int i = common(a); mc_count(128 + i, 1); return NULL; }
static void_t w_returning(args_t a) {
    int i = common(a);
    unsigned char *v = try_calloc(1, size_of(i)); int k;
    raii_values_t *r;
    for (k = 0; k < size_of(i); k++) v[k] = (unsigned char)(k * 7 + i);
    r = thrd_returning(a, v, size_of(i));
    mc_count(128 + i, 1);
    return r;
}
static void_t w_throw(args_t a) { int i = common(a); raii_defer(deferred, (void *)(intptr_t)i); mc_count(128 + i, 1); if (i & 1) throw(range_error); else raii_panic("oops"); return NULL; }
static void_t w_defer(args_t a) {
    int i = common(a);
    char *p = malloc_default(16);
    raii_defer(deferred, (void *)(intptr_t)i);
    p[3] = 9;
    mc_count(128 + i, 1);
    return thrd_value(VAL(p[3] - 9 + i));
}
static thrd_func_t fn[] = {w_value, w_null, w_returning, w_throw, w_defer};

static void gen_n(int k) {
    int i;
    n = k;
    for (i = 0; i < n; i++) kind[i] = mc_choose(NW);
    cpus = 1; batch1 = n; twice = 0; ask = A_NONE; ex_args = 0; foreign = 0; every = 0; osize = 0;
}
static void gen_zero(void) { gen_n(0); twice = mc_choose(2); ask = mc_choose(2) ? A_FINISH : A_NONE; foreign = mc_choose(2); }
static void gen_one(void) {
    gen_n(1);
    cpus = 1 + mc_choose(2);
    twice = mc_choose(2);
    ask = mc_choose(NA);
    ex_args = mc_choose(2);
    foreign = mc_choose(2);
    if (kind[0] == W_RETURNING) osize = mc_choose(4);
}
static void gen_two(void) {
    gen_n(2);
    cpus = 1 + mc_choose(2);
    if (mc_choose(2)) batch1 = 1;
    if (kind[0] == W_THROW && batch1 == 1) mc_skip();   /* the first thrd_sync throws: nothing after it to look at */
    if (mc_thorough) { ask = mc_choose(NA); twice = mc_choose(2); }
    ex_args = 0;
}
static void gen_three(void) {
    int i;
    static const int k3[] = {W_VALUE, W_THROW, W_RETURNING};
    n = mc_thorough ? 3 + mc_choose(2) : 3;
    for (i = 0; i < n; i++) kind[i] = k3[mc_choose(mc_thorough && n == 3 ? 3 : 2)];
    cpus = 1 + mc_choose(2);
    batch1 = n; twice = 0; ask = A_NONE; ex_args = 0; foreign = 0; every = 0; osize = 0;
}
/* up to 33, synchronised all at once or every few, with up to 8 processors */
static void gen_many(void) {
    static const int ns[] = {4, 5, 8, 9, 16, 17, 33}, cs[] = {1, 2, 3, 8}, es[] = {0, 1, 2, 3, 8}, fails[] = {-1, 0, 3, 7};
    static const int ks[] = {0, 1, 3};
    int i, all, f;
    mc_rotate(ks[mc_choose(3)]);
    n = ns[mc_choose(7)];
    cpus = cs[mc_choose(4)];
    every = es[mc_choose(5)];
    all = mc_choose(4);
    f = fails[mc_choose(4)];
    if (f >= 0 && every && f < (n - 1) / every * every) mc_skip();   /* a thrd_sync that throws is the last */
    for (i = 0; i < n; i++) {
        static const int k[] = {W_VALUE, W_RETURNING, W_DEFER, W_NULL};
        kind[i] = all < 3 ? k[all] : k[(i + i / 4) % 4];
        if (f >= 0 && i % 8 == f) kind[i] = W_THROW;
        if (kind[i] == W_THROW && every && i < (n - 1) / every * every) mc_skip();
    }
    batch1 = n; twice = 0; ask = A_NONE; ex_args = n & 1; foreign = 0; osize = 4;
}

static result_t res[MAXN];
static int seen_ids[MAXN], last_id, nthen, totals[MAXN + 1];
static void_t each(void_t result, size_t id, values_type v) {
    int i = (int)id;
    int *total = result;
    mc_check(i >= 0 && i < n, "thrd_then goes over a result %d that is not there", i);
    mc_check(!seen_ids[i], "thrd_then goes over result %d twice", i);
    mc_check(i > last_id, "thrd_then does not go in order");
    last_id = i;
    seen_ids[i] = 1;
    switch (kind[i]) {
        case W_NULL: mc_check(v.object == NULL, "result %d is another value", i); break;
        case W_RETURNING: mc_check(same(v.object, i), "result %d is not the worker's object", i); break;
        default: mc_check(v.array == (void *)VAL(i), "result %d is %lx in place of %lx", i, (long)v.array, (long)VAL(i));
    }
    mc_check(total == totals + nthen, "thrd_then hands over something else than the last call gave");
    return totals + ++nthen;
}

static void check_ready(int from, int to, int failed) {
    int i;
    for (i = from; i < to; i++) {
        volatile int threw = 0;
        raii_values_t v;
        memset(&v, 0, sizeof v);
        mc_check(mc_count(128 + i, 0) == 1, "thrd_sync returns before function %d did", i);
        mc_check(plain[i] == 500 + i, "the write of worker %d is not there after thrd_sync", i);
        if (kind[i] == W_THROW || kind[i] == W_DEFER)
            mc_check(mc_count(64 + i, 0) == 1, "what worker %d deferred ran %ld times by the time of thrd_sync", i, mc_count(64 + i, 0));
        if (kind[i] == W_THROW) {
            mc_check(!res[i]->is_ready, "the result of a worker that threw is ready");
            continue;
        }
        mc_check(res[i]->is_ready, "result %d is not ready after thrd_sync", i);
        try { values_type r = thrd_result(res[i]); memcpy((void *)&v.value, &r, sizeof r); } catch_any { threw = 1; } end_try;
        mc_check(!threw, "thrd_result throws for a result that is ready");
        if (kind[i] == W_NULL) mc_check(v.value.object == NULL, "result %d is another value", i);
        else if (kind[i] == W_RETURNING) {
            mc_check(same(v.value.object, i), "result %d is not the worker's object", i);
        } else
            mc_check(v.value.array == (void *)VAL(i), "result %d is %lx in place of %lx", i, (long)v.value.array, (long)VAL(i));
    }
    (void)failed;
}

static void sync_now(future_t s, int from, int to) {
    volatile int thrown = 0, i, expect = -1;
    const char *volatile nm = NULL;
    for (i = from; i < to; i++) if (kind[i] == W_THROW && expect < 0) expect = i;
    try {
        future_t r = thrd_sync(s);
        mc_check(r == s, "thrd_sync returns another scope");
    } catch_any {
        thrown = 1;
        nm = raii_message();
    } end_try;
    mc_check(thrown == (expect >= 0), thrown ? "thrd_sync throws though no worker did" : "thrd_sync does not throw a worker's exception");
    if (thrown) mc_check(!strcmp(nm, expect & 1 ? "range_error" : "oops"), "thrd_sync throws %s, not what the first failing worker threw", nm);
    check_ready(0, to, thrown);
    mc_check(mc_unjoined() == 0, "%d workers are still there after thrd_sync", mc_unjoined());
    mc_check(thrd_is_finish(s), "not finished after thrd_sync");
}

static void finished(void) {
    int i;
    for (i = 0; i < n; i++) {
        mc_check(mc_count(128 + i, 0) == 1, "finished before function %d returned", i);
        mc_check(plain[i] == 500 + i, "finished, but what function %d wrote is not there", i);
        if (kind[i] == W_THROW || kind[i] == W_DEFER) mc_check(mc_count(64 + i, 0) == 1, "finished before what function %d deferred ran", i);
    }
}
static void run(void) {
    long base;
    int i, from = 0;
    future_t s, other = NULL;
    raii_init();
    base = mc_alloc_live();
    mc_cpus(cpus);
    if (foreign) { other = thrd_scope(); thrd_destroy(other); }
    s = thrd_scope();
    mc_check(is_type(s, RAII_SPAWN), "not a scope");
    for (i = 0; i < n; i++) {
        if (i && (i == batch1 || (every && i % every == 0))) { sync_now(s, from, i); from = i; }
        arg[i].value.integer = i;
        if (ex_args) res[i] = thrd_spawn_ex(fn[kind[i]], "i", i);
        else res[i] = thrd_spawn(fn[kind[i]], &arg[i]);
        mc_check(is_type(res[i], RAII_VALUE), "not a result");
    }
    if (ask == A_FINISH) {
        if (thrd_is_finish(s)) {
            finished();
            mc_outcome(1);
        } else
            mc_outcome(2);
    } else if (ask == A_POLL) {
        while (!thrd_is_finish(s)) thrd_yield();
        finished();
    } else if (ask == A_RESULT && n) {
        volatile int threw = 0;
        try { thrd_result(res[n - 1]); } catch (logic_error) { threw = 1; } end_try;
        mc_check(threw, "thrd_result of what is not synchronised does not throw");
    }
    sync_now(s, from, n);
    if (twice) {
        volatile int threw = 0;
        try { thrd_sync(s); } catch_any { threw = 1; } end_try;
        mc_check(!threw, "a second thrd_sync throws");
        check_ready(0, n, 0);
    }
    memset(seen_ids, 0, sizeof seen_ids); last_id = -1; nthen = 0;
    thrd_then(each, s, totals);
    for (i = 0; i < n; i++) mc_check(seen_ids[i] == (kind[i] != W_THROW), "thrd_then %s result %d", seen_ids[i] ? "takes" : "leaves out", i);
    for (i = 0; i < n; i++) {
        int j;
        mc_check(mc_count(i, 0) == 1, "function %d ran %ld times", i, mc_count(i, 0));
        mc_check(ids[i] != thrd_self(), "worker %d has the identity of its creator", i);
        for (j = 0; j < i; j++) mc_check(res[i] != res[j], "two spawns share a result");
    }
    mc_check(mc_threads() == n, "%d threads for %d spawns", mc_threads(), n);
    thrd_destroy(s);
    raii_deferred_clean();
    mc_check(mc_alloc_live() <= base, "%ld blocks are left", mc_alloc_live() - base);
    mc_outcome(mc_mix(nthen, n));
}

mc_suite mc_suites[] = {
    {"zero", NULL, gen_zero, run, show, 0, 100, 100},
    {"one", NULL, gen_one, run, show, 0, 100, 100},
    {"two", NULL, gen_two, run, show, 0, 100, 100},
    {"three", NULL, gen_three, run, show, 0, 100, 100},
    {"many", NULL, gen_many, run, show, 0, DELAYS(0), DELAYS(1)},
    {NULL}
};

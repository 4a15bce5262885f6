/* Futures: the value, the exception and the writes of a worker reach the thread that gets it, once,
   after the worker ended, under every schedule. */
#include "raii.h"
#include "mc_sched.h"

enum { W_VALUE, W_NULL, W_RETURNING, W_THROW, W_PANIC, W_SCOPE, W_ARGS, W_GUARD, W_NESTED, W_HANDLES, NW };
enum { G_GET, G_WAIT, G_POLL, G_ASK, NG };
enum { B_NONE, B_SCOPE, B_THROW, NB };
#define MAXN 33
static int n, kind[MAXN], how[MAXN], order[MAXN], between, in_guard, osize;
/* what a worker hands over: more than 32 bits, different in every byte */
#define VAL(i) ((intptr_t)0x7A5B3C1D2E4F6071ll + (intptr_t)(i) * 0x0101010101010101ll)
static const int sizes[] = {16, 1, 200, 5000};
static int size_of(int i) { return osize < 4 ? sizes[osize] : 1 + i * 37; }

static const char *wname[] = {"value", "null", "returning", "throw", "panic", "scope", "args", "guard", "nested", "handles"};
static const char *gname[] = {"get", "wait+get", "poll+get", "ask+get"};
static void show(FILE *f) {
    int i;
    fprintf(f, "futures:");
    for (i = 0; i < n; i++) fprintf(f, " %s", wname[kind[i]]);
    fprintf(f, ", then:");
    for (i = 0; i < n; i++) fprintf(f, " %s(%d)", gname[how[order[i]]], order[i]);
    fprintf(f, ", meanwhile %d, in a guard %d\n", between, in_guard);
}

/* written by a worker, read by whoever got its future */
static int plain[MAXN + 2];
static uintptr_t ids[MAXN + 2];
static raii_values_t arg[MAXN + 1];

static void deferred(void *p) { mc_count(64 + (int)(intptr_t)p, 1); }
static void_t inner(args_t a) {
    int i = get_arg(a).integer;
    mc_count(i, 1);
    plain[i] = 700 + i;
    return thrd_value(77);
}
static int work_common(int i) {
    mc_count(i, 1);
    ids[i] = thrd_self();
    plain[i] = 500 + i;
    mc_check(mc_tid() != 0, "the function runs in the creator's thread");
    return i;
}
static void_t w_value(args_t a) { int i = work_common(get_arg(a).integer); mc_count(128 + i, 1); return thrd_value(VAL(i)); }
static void_t w_null(args_t a) { int i = work_common(get_arg(a).integer); mc_count(128 + i, 1); return NULL; }
static void_t w_returning(args_t a) {
    int i = work_common(get_arg(a).integer);
    unsigned char *v = try_calloc(1, size_of(i)); int k;
    raii_values_t *r;
    for (k = 0; k < size_of(i); k++) v[k] = (unsigned char)(k * 7 + i);
    r = thrd_returning(a, v, size_of(i));
    mc_count(128 + i, 1);
    return r;
}
static void_t w_throw(args_t a) { int i = work_common(get_arg(a).integer); raii_defer(deferred, (void *)(intptr_t)i); mc_count(128 + i, 1); throw(range_error); return NULL; }
static const char *messages[] = {"panic zero", "panic one", "panic", ""};
static void_t w_panic(args_t a) { int i = work_common(get_arg(a).integer); mc_count(128 + i, 1); raii_panic(messages[i & 3]); return NULL; }
static void_t w_scope(args_t a) {
    int i = work_common(get_arg(a).integer);
    char *p = malloc_default(24);
    raii_defer(deferred, (void *)(intptr_t)i);
    memset(p, i + 1, 24);
    mc_count(128 + i, 1);
    return thrd_value(VAL(p[23] - 1));
}
static void_t w_args(args_t a) {
    int i = work_common(get_args(a, 0).integer);
    const char *s = get_args(a, 1).char_ptr;
    mc_check(!strcmp(s, "hello"), "the worker gets another argument");
    mc_count(128 + i, 1);
    return thrd_value(VAL(i));
}
static void_t w_guard(args_t a) {
    int i = work_common(get_arg(a).integer), got = 0;
    guard {
        char *p = _malloc(16);
        _defer(deferred, (void *)(intptr_t)i);
        memset(p, 7, 16);
        got = p[3];
    } guarded
    mc_count(128 + i, 1);
    return thrd_value(VAL(i + got - 7));
}
static void_t w_nested(args_t a) {
    int i = work_common(get_arg(a).integer);
    int v;
    future f = thrd_async(inner, &arg[MAXN]);
    v = thrd_get(f).integer;
    mc_check(plain[MAXN] == 700 + MAXN, "the write of a nested worker is not there");
    mc_count(128 + i, 1);
    return thrd_value(VAL(v - 77 + i));
}
static void_t w_handles(args_t a) {
    int i = work_common(get_arg(a).integer); volatile int caughts = 0;
    try { throw(bad_alloc); } catch_any { mc_check(!strcmp(err, "bad_alloc"), "a worker catches another's exception"); caughts = 1; } end_try;
    mc_count(128 + i, 1);
    return thrd_value(VAL(i + caughts - 1));
}
static thrd_func_t fn[] = {w_value, w_null, w_returning, w_throw, w_panic, w_scope, w_args, w_guard, w_nested, w_handles};

static void perm(int k) {
    osize = 0;
    static const int p[6][3] = {{0, 1, 2}, {1, 0, 2}, {0, 2, 1}, {2, 1, 0}, {1, 2, 0}, {2, 0, 1}};
    int i; for (i = 0; i < 3; i++) order[i] = p[k][i];
}
static void gen_one(void) { n = 1; kind[0] = mc_choose(NW); how[0] = mc_choose(NG); between = mc_choose(NB); in_guard = mc_choose(2); perm(0); if (kind[0] == W_RETURNING) osize = mc_choose(4); }
static void gen_two(void) {
    n = 2;
    kind[0] = mc_choose(NW); kind[1] = mc_choose(NW);
    if (kind[0] == W_NESTED && kind[1] == W_NESTED) mc_skip();
    perm(mc_choose(2));
    how[0] = mc_thorough && mc_choose(2) ? G_POLL : G_GET; how[1] = how[0];
    between = mc_thorough ? mc_choose(NB) : B_NONE;
    in_guard = 0;
}
static void gen_three(void) {
    int i;
    static const int k3[] = {W_VALUE, W_THROW, W_RETURNING, W_SCOPE};
    n = 3;
    for (i = 0; i < n; i++) kind[i] = k3[mc_choose(mc_thorough ? 4 : 3)];
    perm(mc_choose(6));
    for (i = 0; i < n; i++) how[i] = G_GET;
    between = B_NONE; in_guard = 0;
}

/* up to 32 at a time, collected forwards, backwards or from the middle, of one kind or all kinds in turn */
static void gen_many(void) {
    static const int ns[] = {4, 9, 16, 17, 32};
    static const int ks[] = {0, 1, 2, 5};
    int i, all, o;
    mc_rotate(ks[mc_choose(4)]);
    n = ns[mc_choose(5)];
    all = mc_choose(NW + 1);
    o = mc_choose(3);
    for (i = 0; i < n; i++) {
        kind[i] = all == NW ? i % NW : all;
        if (kind[i] == W_NESTED) kind[i] = W_ARGS;
        how[i] = i % NG;
        if (how[i] == G_POLL && (kind[i] == W_THROW || kind[i] == W_PANIC)) how[i] = G_GET;
        order[i] = o == 0 ? i : o == 1 ? n - 1 - i : (i * 7 + n / 2) % n;
    }
    osize = 4; between = B_NONE; in_guard = 0;
    if (o == 2 && n % 7 == 0) mc_skip();
    if (all == W_NESTED) mc_skip();
}
static void get_one(future *f, int i) {
    volatile int thrown = 0;
    raii_values_t v;
    const char *volatile nm = NULL, *volatile ms = NULL;
    int fails = kind[i] == W_THROW || kind[i] == W_PANIC;
    memset((void *)&v, 0, sizeof v);
    if (how[i] == G_WAIT) {
        thrd_wait(f[i], thrd_yield);
        mc_check(fails || mc_count(128 + i, 0) == 1, "thrd_wait returns before the function did");
        mc_check(thrd_is_done(f[i]), "not done after thrd_wait");
        mc_check(plain[i] == 500 + i, "the worker's write is not there after thrd_wait");
        if (kind[i] == W_SCOPE || kind[i] == W_THROW || kind[i] == W_GUARD)
            mc_check(mc_count(64 + i, 0) == 1, "what the worker deferred ran %ld times by the end of thrd_wait", mc_count(64 + i, 0));
    } else if (how[i] == G_POLL) {
        while (!thrd_is_done(f[i])) thrd_yield();
        mc_check(mc_count(128 + i, 0) == 1, "done before the function returned");
        mc_check(thrd_is_done(f[i]), "done, and then no more");
        mc_check(plain[i] == 500 + i, "the worker's write is not there though it is done");
    } else if (how[i] == G_ASK) {
        if (thrd_is_done(f[i])) {
            mc_check(mc_count(128 + i, 0) == 1, "done before the function returned");
            mc_outcome(11);
        } else
            mc_outcome(12);
    }
    try {
        values_type r = thrd_get(f[i]);
        memcpy((void *)&v.value, &r, sizeof r);
    } catch_any {
        thrown = 1;
        nm = err;
        ms = raii_message();
    } end_try;
    mc_check(mc_count(128 + i, 0) == 1, "thrd_get returns before the function did");
    mc_check(mc_count(i, 0) == 1, "the function of future %d ran %ld times", i, mc_count(i, 0));
    mc_check(plain[i] == 500 + i, "the worker's write is not there after thrd_get");
    mc_check(ids[i] != thrd_self(), "the worker has the identity of its creator");
    mc_check(thrown == fails, fails ? "the worker's exception is not thrown by thrd_get" : "thrd_get throws though the worker did not");
    switch (kind[i]) {
        case W_NULL: mc_check(v.value.object == NULL, "another value"); break;
        case W_RETURNING: {
            unsigned char *o = v.value.object; int k;
            for (k = 0; k < size_of(i); k++) mc_check(o && o[k] == (unsigned char)(k * 7 + i), "the object returned is not the worker's");
            break;
        }
        case W_THROW: mc_check(nm && !strcmp(nm, "range_error"), "another exception: %s", nm ? nm : "none"); break;
        case W_PANIC: mc_check(ms && nm && !strcmp(nm, "panic") && !strcmp(ms, messages[i & 3]), "another message: %s", ms ? ms : "none"); break;
        default: mc_check(v.value.array == (void *)VAL(i), "another value: %lx in place of %lx", (long)v.value.array, (long)VAL(i));
    }
    if (kind[i] == W_SCOPE || kind[i] == W_THROW || kind[i] == W_GUARD)
        mc_check(mc_count(64 + i, 0) == 1, "what the worker deferred ran %ld times by the time it was joined", mc_count(64 + i, 0));
}

static void body(void) {
    future f[MAXN];
    int i;
    for (i = 0; i < n; i++) {
        arg[i].value.integer = i;
        if (kind[i] == W_ARGS) f[i] = thrd_async(fn[kind[i]], args_for("is", i, "hello"));
        else f[i] = thrd_async(fn[kind[i]], &arg[i]);
        mc_check(is_type(f[i], RAII_FUTURE), "not a future");
    }
    if (between == B_SCOPE) {
        unique_t *u = unique_init();
        char *p = malloc_by(u, 40);
        raii_deferred(u, deferred, (void *)60);
        memset(p, 1, 40);
        mc_point();
        raii_delete(u);
        mc_check(mc_count(124, 0) == 1, "a scope of the creator's was released with another count");
    } else if (between == B_THROW) {
        volatile int c = 0;
        try { mc_point(); throw(out_of_memory); } catch (out_of_memory) { c = 1; mc_check(!strcmp(err, "out_of_memory"), "another exception"); } end_try;
        mc_check(c, "not caught");
    }
    for (i = 0; i < n; i++) get_one(f, order[i]);
}

static void run(void) {
    long base;
    raii_init();
    arg[MAXN].value.integer = MAXN;
    base = mc_alloc_live();
    mc_cpus(2);
    if (in_guard) { guard { body(); } guarded }
    else body();
    mc_check(mc_unjoined() == 0, "%d workers are still there after their futures were got", mc_unjoined());
    raii_deferred_clean();
    mc_check(mc_alloc_live() <= base, "%ld blocks are left", mc_alloc_live() - base);
    mc_outcome(mc_mix(mc_threads(), kind[0]));
}

mc_suite mc_suites[] = {
    {"one", NULL, gen_one, run, show, 0, 100, 100},
    {"two", NULL, gen_two, run, show, 0, 2, 100},
    {"three", NULL, gen_three, run, show, 0, 1, 3},
    {"many", NULL, gen_many, run, show, 0, DELAYS(0), DELAYS(1)},
    {NULL}
};

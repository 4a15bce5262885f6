/* Threads that cannot be started, and threads that run out of memory: every allocation of every
   thread and every creation of a thread fails, under every schedule. */
#include "raii.h"
#include "mc_sched.h"
#include "mc_alloc.h"
#include <errno.h>

enum { W_VALUE, W_NULL, W_RETURNING, W_THROW, W_ALLOC, W_GUARD, W_CATCH, NW };
static const char *wname[] = {"value", "null", "returning", "throw", "allocate and defer", "guard", "catch"};
enum { SP_ASYNC, SP_SPAWN, SP_SPAWN_EX, NSP };
static const char *sname[] = {"thrd_async", "thrd_spawn", "thrd_spawn_ex"};
#define MAXN 10
typedef struct { void *object; char more[sizeof(values_type) - sizeof(void *)]; } value;
static int api, n, kind[MAXN], who, k, onwards, in_guard, cpus;
#define VAL(i) ((intptr_t)0x7A5B3C1D2E4F6071ll + (intptr_t)(i) * 0x0101010101010101ll)
#define CREATE 99
static void show(FILE *f) {
    int i;
    fprintf(f, "%s%s, %d cpus:", sname[api], in_guard ? " in a guard" : "", cpus);
    for (i = 0; i < n; i++) fprintf(f, " %s", wname[kind[i]]);
    if (who == CREATE) fprintf(f, "; creation %d fails", k);
    else fprintf(f, "; allocation %d%s of %s %d fails", k, onwards ? " and all after it" : "", who ? "worker" : "the first thread", who ? who - 1 : 0);
}
static raii_values_t arg[MAXN];
static void deferred(void *p) { mc_count(64 + (int)(intptr_t)p, 1); }
static void_t done(int i, void_t v) { mc_count(128 + i, 1); return v; }
static int start(args_t a) {
    int i = a->type == RAII_ARGS ? get_args(a, 0).integer : get_arg(a).integer;
    if (a->type == RAII_ARGS && !a->defer_set) { args_free(a); raii_panic("not registered"); }
    mc_count(i, 1);
    return i;
}
static void_t w_value(args_t a) { int i = start(a); return done(i, thrd_value(VAL(i))); }
static void_t w_null(args_t a) { int i = start(a); return done(i, NULL); }
static void_t w_returning(args_t a) {
    int i = start(a);
    char *v = try_calloc(1, 20);
    memset(v, 'a' + i, 20);
    return done(i, thrd_returning(a, v, 20));
}
static void_t w_throw(args_t a) { start(a); throw(range_error); return NULL; }
static void_t w_alloc(args_t a) {
    int i = start(a);
    if (raii_defer(deferred, (void *)(intptr_t)i) == (size_t)-1) raii_panic("not registered");
    mc_count(192 + i, 1);
    memset(malloc_default(40), 5, 40);
    return done(i, thrd_value(VAL(i)));
}
static void in_a_guard(int i)
guard {
    if (raii_defer(deferred, (void *)(intptr_t)i) == (size_t)-1) raii_panic("not registered");
    mc_count(192 + i, 1);
    memset(_malloc(24), 6, 24);
    memset(_calloc(3, 8), 6, 24);
} guarded
static void_t w_guard(args_t a) { int i = start(a); in_a_guard(i); return done(i, thrd_value(VAL(i))); }
static void_t w_catch(args_t a) {
    int i = start(a);
    volatile int caught = 0;
    try { memset(malloc_default(40), 5, 40); } catch_any { caught = 1; } end_try;
    return done(i, thrd_value(VAL(i + 100 * caught)));
}
static thrd_func_t fn[] = {w_value, w_null, w_returning, w_throw, w_alloc, w_guard, w_catch};

static void where(int maxmain, int maxworker) {
    int s = mc_choose(n + 2);
    who = s <= n ? s : CREATE;
    k = 1 + mc_choose(who == CREATE ? n : who ? maxworker : maxmain);
    onwards = who == CREATE ? 0 : mc_choose(2);
}
static void gen_one(void) {
    api = mc_choose(NSP);
    cpus = 1;
    n = 1;
    kind[0] = mc_choose(NW);
    in_guard = mc_choose(2);
    where(api ? 16 : 7, 9);
}
static void gen_two(void) {
    static const int k2[] = {W_VALUE, W_RETURNING, W_THROW, W_ALLOC};
    api = mc_choose(2);
    cpus = 1 + mc_choose(2);
    if (!api && cpus == 2) mc_skip();
    n = 2;
    kind[0] = k2[mc_choose(mc_thorough ? 4 : 3)]; kind[1] = k2[mc_choose(mc_thorough ? 4 : 2)];
    in_guard = mc_choose(2);
    where(api ? 20 : 13, 7);
}
/* several, in turns */
static void gen_many(void) {
    static const int ks[] = {0, 1, 3};
    static const int ns[] = {3, 5, 9};
    int i, first;
    mc_rotate(ks[mc_choose(3)]);
    api = mc_choose(NSP);
    cpus = 1 << mc_choose(3);
    if (!api && cpus > 1) mc_skip();
    n = ns[mc_choose(3)];
    first = mc_choose(NW);
    for (i = 0; i < n; i++) { kind[i] = (first + i) % NW; }
    in_guard = 0;
    where(6 + 10 * n, 9);
}

/* What is expected of worker i, given that nothing failed in it. */
static void normal(int i, int threw, const char *what, value *v) {
    if (kind[i] == W_THROW) { mc_check(threw && !strcmp(what, "range_error"), "the exception of function %d arrives as %s", i, threw ? what : "none"); return; }
    mc_check(!threw, "function %d gives the exception %s", i, what);
    mc_check(mc_count(128 + i, 0) == 1, "function %d returned %ld times", i, mc_count(128 + i, 0));
    if (kind[i] == W_NULL) mc_check(v->object == NULL, "function %d gives a value", i);
    else if (kind[i] == W_RETURNING) { char *c = v->object; int j; mc_check(c != NULL, "nothing from function %d", i); for (j = 0; j < 20; j++) mc_check(c[j] == 'a' + i, "the object of function %d changed", i); }
    else mc_check((intptr_t)v->object == VAL(i), "function %d gives %lx", i, (long)(intptr_t)v->object);
}
/* A worker in which an allocation failed. */
static void starved(int i, int threw, const char *what, value *v) {
    if (!threw && kind[i] == W_CATCH && (intptr_t)v->object == VAL(i + 100)) return;
    mc_check(threw, "out of memory in worker %d goes unseen", i);
    mc_check(strstr(what, "failed") || strstr(what, "not registered"), "out of memory in worker %d arrives as %s", i, what);
}
static void judge(int i, int threw, const char *what, value *v) {
    if (who == i + 1 && mc_alloc_failed()) { starved(i, threw, what, v); mc_outcome(7); }
    else normal(i, threw, what, v);
    mc_check(mc_count(64 + i, 0) == mc_count(192 + i, 0), "what function %d deferred ran %ld times", i, mc_count(64 + i, 0));
}
/* A call of the first thread failed: as it should? Then it works when tried again. */
static int failures;
static void expected(const char *nm, const char *what, int err, int creating) {
    if (who == CREATE && creating) mc_check(!strcmp(nm, "future_error"), "a thread that cannot be made is a %s", nm);
    else {
        mc_check(who == 0 && mc_alloc_failed(), "%s without a reason", nm);
        mc_check(!strcmp(nm, "panic") && what && strstr(what, "failed"), "out of memory is %s: %s", nm, what ? what : "");
        mc_check(err == ENOMEM, "errno is %d after a failed allocation", err);
    }
    mc_check(!failures, "fails a second time");
    failures++;
    mc_alloc_fail_in(0, 0, 0);
}
#define TRYING(creating, call)                                          \
    for (;;) {                                                          \
        volatile int ok_ = 0;                                           \
        int threads_ = mc_threads();                                    \
        errno = 0;                                                      \
        try { call; ok_ = 1; } catch_any {                              \
            expected(err, raii_message(), errno, creating);            \
            mc_check(mc_threads() == threads_, "a thread runs though starting it failed");     \
        } end_try;                                                      \
        if (ok_) break;                                                 \
    }
static int failing_create(void) { return who == CREATE; }
static void body(void) {
    int i;
    if (api == SP_ASYNC) {
        future f[MAXN];
        for (i = 0; i < n; i++) { arg[i].value.integer = i; TRYING(1, f[i] = thrd_async(fn[kind[i]], &arg[i])) }
        for (i = 0; i < n; i++) {
            volatile int threw = 0;
            value v;
            char what[80] = "";
            memset(&v, 0, sizeof v);
            try { values_type g = thrd_get(f[i]); memcpy(&v, &g, sizeof v); } catch_any { threw = 1; snprintf(what, sizeof what, "%s", raii_message()); } end_try;
            judge(i, threw, what, &v);
        }
    } else {
        result_t r[MAXN];
        future_t s;
        volatile int threw = 0, retry = 1, first = -1, again = 0;
        char what[80] = "";
        TRYING(0, s = thrd_scope())
        for (i = 0; i < n; i++) {
            arg[i].value.integer = i;
            if (api == SP_SPAWN) TRYING(1, r[i] = thrd_spawn(fn[kind[i]], &arg[i]))
            else TRYING(1, r[i] = thrd_spawn_ex(fn[kind[i]], "i", i))
        }
        while (retry) {
            int before = failures;
            retry = 0;
            errno = 0;
            try { thrd_sync(s); } catch_any {
                if (who == 0 && mc_alloc_failed() && !before && strcmp(err, "range_error")) { expected(err, raii_message(), errno, 0); retry = 1; again = 1; }
                else { threw = 1; snprintf(what, sizeof what, "%s", raii_message()); }
            } end_try;
        }
        mc_check(mc_unjoined() == 0, "%d threads are still there after thrd_sync", mc_unjoined());
        for (i = 0; i < n; i++) {
            value v;
            memset(&v, 0, sizeof v);
            if (r[i]->is_ready) { values_type g = thrd_result(r[i]); memcpy(&v, &g, sizeof v); judge(i, 0, "", &v); continue; }
            if (first < 0) { first = i; if (!again || threw) { mc_check(threw, "an exception of function %d is not thrown", i); judge(i, 1, what, &v); } }
            else if (who != i + 1) mc_check(kind[i] == W_THROW, "result %d is not ready", i);
        }
        mc_check(!threw || first >= 0, "thrd_sync throws %s though no function did", what);
        thrd_destroy(s);
    }
}
static void run(void) {
    long base;
    int i;
    raii_init();
    mc_cpus(cpus);
    base = mc_alloc_live();
    failures = 0;
    if (in_guard) { guard {
        /* the guard is there before anything fails */
        if (failing_create()) mc_create_fail(k); else mc_alloc_fail_in(who, k, onwards);
        body();
    } guarded } else {
        if (failing_create()) mc_create_fail(k); else mc_alloc_fail_in(who, k, onwards);
        body();
    }
    mc_alloc_fail_in(0, 0, 0);
    mc_check(mc_unjoined() == 0, "%d threads are still there", mc_unjoined());
    mc_check(mc_threads() == n, "%d threads for %d functions", mc_threads(), n);
    for (i = 0; i < n; i++) mc_check(mc_count(i, 0) <= 1, "function %d ran %ld times", i, mc_count(i, 0));
    raii_deferred_clean();
    mc_check(mc_alloc_live() <= base, "%ld blocks are left", mc_alloc_live() - base);
    mc_outcome(mc_mix(failures * 2 + !!mc_alloc_failed(), kind[0] * 3 + api));
}
mc_suite mc_suites[] = {
    {"one", NULL, gen_one, run, show, 0, 100, 100},
    {"two", NULL, gen_two, run, show, 0, 1, 3},
    {"many", NULL, gen_many, run, show, 0, DELAYS(0), DELAYS(1)},
    {NULL}
};

/* Every allocation of every history fails once: alone, or together with all after it. */
#include "raii.h"
#include "mc.h"
#include <errno.h>
#include <limits.h>
int backtrace(void **buffer, int size) { (void)buffer; (void)size; return 0; }
enum { O_DEFER, O_MALLOC, O_CALLOC, O_DTOR, O_MEMDUP, O_SPLIT, O_CONCAT, O_REPLACE, O_ENC, O_DEC, O_ARGS, O_ARGSREAD, O_UNIQUE, O_UARENA, O_ARENA, O_ARENA2, O_ARCLEAR, O_GUARD, O_GUARD2, O_TRY, O_PROT, O_RELEASE, O_RAW, NO };
static const char *on[] = {"defer", "malloc", "calloc", "malloc with destructor", "memdup", "split", "concat", "replace", "encode64", "decode64", "args", "read args", "unique", "unique arena", "arena alloc", "arena alloc a lot", "arena clear",
    "guard with memory", "guard in a guard", "throw with memory", "protected malloc", "release", "try_malloc"};
static int nops, ops[5], kind, prefill;
static const int pre[] = {0, 15, 16};
static void gen(void) {
    int i;
    kind = mc_choose(2);
    prefill = pre[mc_choose(3)];
    nops = 1 + mc_choose(mc_thorough ? 4 : 3);
    for (i = 0; i < nops; i++) ops[i] = mc_choose(NO);
}
static memory_t *scope; static arena_t arena; static args_t args;
static int armed[400], ran[400], nd;            /* deferred functions */
static struct { unsigned char *p; long n; unsigned char f; int ar; } b[200]; static int nb;
static struct { unique_t *u; int arena; } us[8]; static int nu;
static void *raws[8]; static int nraw;
static int failed_op, failing;
static void d_run(void *p) { ran[(intptr_t)p]++; }
static void dtor(void *p) { mc_free(p); }
static void own(void *p, long n, int ar) {
    mc_check(p && mc_block_live(p) && mc_block_live((char *)p + n - 1), "an allocation reported as successful is not live");
    b[nb].p = p; b[nb].n = n; b[nb].f = (unsigned char)(nb * 7 + 1); b[nb].ar = ar; memset(p, b[nb].f, n); nb++;
}
static void owns(const char *s, const char *want) { mc_check(s && !strcmp(s, want), "got '%s' instead of '%s'", s ? s : "(null)", want); mc_check(mc_block_live((void *)s), "the string is not live"); }
static void add_defer(memory_t *s) {
    int id = nd++;
    ran[id] = 0;
    armed[id] = raii_deferred(s, d_run, (void *)(intptr_t)id) != (size_t)-1;
    if (!armed[id]) mc_check(failing, "deferring is refused though no allocation failed");
}
static int gstage;
static void d_guard(void *p) { *(int *)p += 1; }
static void a_guard(int *runs, int *deferred)
guard {
    if (raii_deferred(_$__FUNCTION__, d_guard, runs) != (size_t)-1) ++*deferred;
    gstage = 1;
    memset(_malloc(30), 1, 30);
    gstage = 2;
    memset(_calloc(2, 20), 1, 40);
    gstage = 3;
} guarded
static void guard_in_guard(int *runs, int *deferred)
guard {
    if (raii_deferred(_$__FUNCTION__, d_guard, runs) != (size_t)-1) ++*deferred;
    memset(_malloc(30), 1, 30);
    a_guard(runs, deferred);
    memset(_malloc(30), 1, 30);
} guarded
static void op(int o) {
    int count = 0;
    switch (o) {
        case O_DEFER: add_defer(scope); break;
        case O_MALLOC: own(malloc_by(scope, 24), 24, 0); break;
        case O_CALLOC: own(calloc_by(scope, 3, 9), 27, 0); break;
        case O_DTOR: own(malloc_full(scope, 17, dtor), 17, 0); break;
        case O_MEMDUP: owns(str_memdup_ex(scope, "abcdef", 6), "abcdef"); break;
        case O_SPLIT: { char **r = str_split_ex(scope, "a,bb,,c", ",", &count); mc_check(r && count == 4, "split"); owns(r[1], "bb"); owns(r[3], "c"); break; }
        case O_CONCAT: owns(kind ? raii_concat(3, "ab", "", "cde") : raii_concat(2, "ab", "cde"), "abcde"); break;
        case O_REPLACE: owns(str_replace_ex(scope, "xaxa", "a", "bcd"), "xbcdxbcd"); break;
        case O_ENC: owns((char *)str_encode64_ex(scope, (u_string_t)"hello"), "aGVsbG8="); break;
        case O_DEC: owns((char *)str_decode64_ex(scope, (u_string_t)"aGVsbG8="), "hello"); break;
        case O_ARGS: { args_t a = raii_args_for(scope, "is", 5, "five"); mc_check(a->n_args == 2, "args"); if (args) args_free(a); else args = a; break; }
        case O_ARGSREAD: { args_t a = raii_args_for(scope, "is", 5, "five"); mc_check(get_args(a, 0).integer == 5 && !strcmp(get_args(a, 1).char_ptr, "five"), "args read back"); if (!a->defer_set) { mc_check(failing, "arguments are not registered"); args_free(a); } break; }
        case O_UNIQUE: if (nu < 8) { unique_t *u = unique_init(); us[nu].u = u; us[nu++].arena = 0; add_defer(u); own(malloc_by(u, 40), 40, 0); } break;
        case O_UARENA: if (nu < 8) { unique_t *u = unique_init_arena(); us[nu].u = u; us[nu++].arena = 1; own(malloc_by(u, 40), 40, 0); own(calloc_by(u, 2, 9000), 18000, 0); } break;
        case O_ARENA: if (!arena) arena = arena_init(1); own(arena_alloc(arena, 50), 50, 1); break;
        case O_ARENA2: if (!arena) arena = arena_init(0); own(arena_alloc(arena, 12000), 12000, 1); own(arena_calloc(arena, 3, 5000), 15000, 1); break;
        case O_ARCLEAR: if (arena) { int i; for (i = 0; i < nb; i++) if (b[i].ar) b[i].p = NULL; arena_clear(arena); } break;
        case O_GUARD: { int runs = 0, deferred = 0; gstage = 0; a_guard(&runs, &deferred); mc_check(gstage == 3, "the guard was left early without an exception"); mc_check(runs == deferred, "the guard ran %d of %d deferred functions", runs, deferred); break; }
        case O_GUARD2: { int runs = 0, deferred = 0; guard_in_guard(&runs, &deferred); mc_check(runs == deferred, "the guards ran %d of %d deferred functions", runs, deferred); break; }
        case O_TRY: { volatile int in = 0; try { own(malloc_full(scope, 20, dtor), 20, 0); in = 1; } finally { (void)in; } end_try; break; }
        case O_PROT: { void *p = NULL; protected(p, dtor); p = try_malloc(33); memset(p, 2, 33); raii_deferred(scope, d_run, (void *)(intptr_t)nd) != (size_t)-1 ? (armed[nd] = 1, ran[nd++] = 0) : (armed[nd] = 0, ran[nd++] = 0); { void *q = try_calloc(1, 9); mc_free(q); } unprotected(p); mc_free(p); break; }
        case O_RELEASE: { int i; for (i = 0; i < nb; i++) if (b[i].ar == 0) { int k, x = 0; for (k = 0; k < nu; k++) if (us[k].u) x = 1; if (!x) b[i].p = NULL; }
            if (nu == 0) raii_deferred_free(scope); break; }
        case O_RAW: raws[nraw] = try_malloc(21); memset(raws[nraw], 3, 21); nraw++; break;
    }
}
static void guard_op(int o) {
    volatile int threw = 0;
    int live_scopes = 0;
    void *outer = raii_local()->arena;
    ex_context_t *ctx = ex_local();
    errno = 0;
    try {
        op(o);
    } catch_any {
        threw = 1;
        mc_check(!strcmp(err, "panic"), "an allocation fails with the exception %s", err);
        mc_check(raii_message() && strstr(raii_message(), "fail"), "the message of a failed allocation is '%s'", raii_message());
        mc_check(errno == ENOMEM, "errno is %d after a failed allocation", errno);
    } end_try;
    (void)live_scopes;
    mc_check(!threw || failing, "%s panics though no allocation failed", on[o]);
    mc_check(raii_local()->arena == outer && ex_local() == ctx, "the scope or handler in force changed");
    if (threw) failed_op = 1;
}
static void verify_blocks(const char *when) {
    int i; long k;
    for (i = 0; i < nb; i++) if (b[i].p) { mc_check(mc_block_live(b[i].p), "%s: memory is gone", when); for (k = 0; k < b[i].n; k += 1) mc_check(b[i].p[k] == b[i].f, "%s: memory changed", when); }
}
static long execute(long k, int onwards) {
    int i;
    long n;
    mc_alloc_reset();
    nd = nb = nu = nraw = 0; arena = NULL; args = NULL; failed_op = 0;
    scope = kind ? raii_init() : unique_init();
    for (i = 0; i < prefill; i++) add_defer(scope);
    n = mc_alloc_count();
    failing = k > 0;
    mc_alloc_fail(k ? n + k : 0, onwards);
    for (i = 0; i < nops; i++) {
        long before = mc_alloc_live(); (void)before;
        guard_op(ops[i]);
        verify_blocks("after a step");
        if (k && ops[i] == O_RELEASE && nu == 0) { int j; for (j = 0; j < nd; j++) mc_check(ran[j] == armed[j], "deferred function %d ran %d times after the release", j, ran[j]); }
    }
    n = mc_alloc_count() - n;
    mc_alloc_fail(0, 0);
    /* everything still works */
    own(malloc_full(scope, 24, RAII_FREE), 24, 0);
    add_defer(scope);
    mc_check(armed[nd - 1], "deferring is refused");
    verify_blocks("before the release");
    failing = 0;
    while (nu) { unique_t *u = us[--nu].u; if (us[nu].arena) free_arena(u); else raii_delete(u); }
    if (arena) arena_free(arena);
    if (args) args_free(args);
    for (i = 0; i < nraw; i++) mc_free(raws[i]);
    if (!kind) raii_delete(scope);
    raii_deferred_clean();
    { arena_t d = arena_init(0); arena_alloc(d, 400000); arena_free(d); }   /* takes the chunks kept for reuse */
    for (i = 0; i < nd; i++) mc_check(ran[i] == armed[i], "deferred function %d ran %d times", i, ran[i]);
    mc_alloc_verify("at the end");
    mc_check(mc_alloc_live() == 0, "%ld blocks are never released, failing allocation %ld%s", mc_alloc_live(), k, onwards ? " and all after it" : "");
    mc_steps(nops + 3);
    mc_outcome(mc_mix(mc_mix(failed_op, n), ops[0] * 31 + nops));
    return n;
}
static long at; static int at_on;
static void run(void) {
    long n, k;
    at = 0; at_on = 0;
    n = execute(0, 0);
    for (k = 1; k <= n; k++) { at = k; at_on = 0; execute(k, 0); at_on = 1; execute(k, 1); mc_extra_traces(2); mc_state(mc_mix(k, mc_mix(ops[0], mc_mix(nops > 1 ? ops[1] : 99, prefill * 2 + kind)))); }
}
static void show(FILE *f) { int i; fprintf(f, "%s scope with %d deferred functions:", kind ? "the thread's" : "a", prefill); for (i = 0; i < nops; i++) fprintf(f, " %s;", on[ops[i]]); fprintf(f, " allocation %ld%s fails\n", at, at_on ? " and all after it" : ""); }
static void init(void) { raii_init(); ex_signal_setup(); mc_crash_handlers(); }
/* ---- sizes no machine has, also those whose product or sum overflows ---- */
enum { H_FULL, H_CFULL, H_BY, H_CBY, H_DEF, H_CDEF, H_GUARD, H_CGUARD, H_TRY, H_CTRY, H_RETRY, H_ARENA, H_CARENA, H_ARENA_BY, H_ARENA_CBY, H_ARENA_M, H_ARENA_C, NH };
static const char *hn[] = {"malloc_full", "calloc_full", "malloc_by", "calloc_by", "malloc_default", "calloc_default", "_malloc", "_calloc", "try_malloc", "try_calloc", "try_realloc", "arena_alloc", "arena_calloc", "malloc_by of an arena", "calloc_by of an arena", "malloc_arena", "calloc_arena"};
static const unsigned long huge[] = {1ul << 40, 1ul << 46, 1ul << 62, (1ul << 62) + 4, LONG_MAX, LONG_MAX - 1, LONG_MAX - 15, LONG_MAX - 4096, LONG_MAX - 10240, LONG_MAX - 20000,
    (unsigned long)LONG_MAX + 1, (unsigned long)LONG_MAX + 2, (unsigned long)LONG_MAX + 9, -1ul, -2ul, -7ul, -8ul, -16ul, -24ul, -32ul, -64ul, -128ul, -4096ul};
/* with these counts the product is a small number, modulo the word */
static const struct { long count; unsigned long size; } hugec[] = {{1, 1ul << 45}, {1, LONG_MAX}, {1, -1ul}, {2, 1ul << 63}, {2, (1ul << 63) + 4}, {2, (1ul << 62) + 8}, {4, 1ul << 62}, {4, (1ul << 62) + 2}, {16, (1ul << 60) + 1}, {256, (1ul << 56) + 1},
    {65536, (1ul << 48) + 1}, {1 << 30, (1ul << 34) + 1}, {1 << 30, 1ul << 20}, {3, 0x5555555555555556ul}, {3, 0xAAAAAAAAAAAAAAABul}, {5, 0x3333333333333334ul}, {7, -9ul}, {INT_MAX, 1ul << 40}, {1 << 16, 1ul << 47}};
static int hw, hz, hpre;
static void h_gen(void) {
    int c;
    hw = mc_choose(NH);
    c = hw == H_CFULL || hw == H_CBY || hw == H_CDEF || hw == H_CGUARD || hw == H_CTRY || hw == H_CARENA || hw == H_ARENA_CBY || hw == H_ARENA_C;
    hz = c ? mc_choose(sizeof hugec / sizeof *hugec) : mc_choose(sizeof huge / sizeof *huge);
    hpre = mc_choose(3);
    if (hw == H_ARENA && huge[hz] > LONG_MAX) mc_skip();
    if (hw == H_CARENA && hugec[hz].size > LONG_MAX) mc_skip();
}
static int h_ran;
static void h_deferred(void *p) { h_ran += *(int *)p; }
static void h_guard(int *one)
guard {
    char *p = _malloc(9);
    memset(p, 1, 9);
    _defer(h_deferred, one);
    if (hw == H_GUARD) _malloc(huge[hz]); else _calloc(hugec[hz].count, hugec[hz].size);
    mc_fail("%s of what no machine has succeeds", hn[hw]);
} guarded
static void h_run(void) {
    memory_t *s = NULL; arena_t ar = NULL;
    unsigned char *p = NULL, *q;
    volatile int threw = 0;
    int i, one = 1;
    long before;
    mc_alloc_reset();
    h_ran = 0; nb = 0;
    raii_init();
    if (hw == H_ARENA || hw == H_CARENA) ar = arena_init(1);
    else if (hw >= H_ARENA_BY) s = unique_init_arena();
    else s = hw == H_DEF || hw == H_CDEF ? raii_init() : unique_init();
    if (s && !s->is_arena) for (i = 0; i < hpre * 15; i++) raii_deferred(s, h_deferred, &one);
    for (i = 0; i < hpre; i++) own(ar ? arena_alloc(ar, 24 + 3000 * i) : malloc_by(s, 24 + 3000 * i), 24 + 3000 * i, 0);
    if (hw == H_RETRY) { p = try_malloc(12); memset(p, 4, 12); }
    before = mc_alloc_live();
    errno = 0;
    try {
        unsigned long z = huge[hz < (int)(sizeof huge / sizeof *huge) ? hz : 0], cz = hugec[hz < (int)(sizeof hugec / sizeof *hugec) ? hz : 0].size; long c = hugec[hz < (int)(sizeof hugec / sizeof *hugec) ? hz : 0].count;
        switch (hw) {
            case H_FULL: malloc_full(s, z, RAII_FREE); break;
            case H_CFULL: calloc_full(s, c, cz, RAII_FREE); break;
            case H_BY: case H_ARENA_BY: malloc_by(s, z); break;
            case H_CBY: case H_ARENA_CBY: calloc_by(s, c, cz); break;
            case H_DEF: malloc_default(z); break;
            case H_CDEF: calloc_default(c, cz); break;
            case H_GUARD: case H_CGUARD: h_guard(&one); break;
            case H_TRY: try_malloc(z); break;
            case H_CTRY: try_calloc(c, cz); break;
            case H_RETRY: try_realloc(p, z); break;
            case H_ARENA: arena_alloc(ar, z); break;
            case H_CARENA: arena_calloc(ar, c, cz); break;
            case H_ARENA_M: malloc_arena(s, z); break;
            case H_ARENA_C: calloc_arena(s, c, cz); break;
        }
        mc_fail("%s of what no machine has succeeds", hn[hw]);
    } catch_any {
        threw = 1;
        mc_check(!strcmp(err, "panic"), "an allocation fails with the exception %s", err);
        mc_check(errno == ENOMEM, "errno is %d after a failed allocation", errno);
    } end_try;
    mc_check(threw, "no exception");
    mc_check(mc_alloc_live() == before, "%ld blocks more than before the failed call", mc_alloc_live() - before);
    if (hw == H_GUARD || hw == H_CGUARD) { mc_check(h_ran == 1, "the guard's deferred function ran %d times", h_ran); h_ran = 0; }
    verify_blocks("after the failed call");
    if (p) { for (i = 0; i < 12; i++) mc_check(p[i] == 4, "a failed try_realloc changed the memory"); mc_free(p); }
    q = ar ? arena_alloc(ar, 40) : malloc_by(s, 40); own(q, 40, 0);
    verify_blocks("afterwards");
    if (ar) arena_free(ar); else if (s->is_arena) free_arena(s); else if (hw == H_DEF || hw == H_CDEF) raii_deferred_clean(); else raii_delete(s);
    mc_check(h_ran == (s && hw < H_ARENA ? hpre * 15 : 0), "%d of %d deferred functions ran", h_ran, hpre * 15);
    raii_deferred_clean();
    { arena_t d = arena_init(0); arena_alloc(d, 400000); arena_free(d); }
    mc_alloc_verify("at the end");
    mc_check(mc_alloc_live() == 0, "%ld blocks are never released", mc_alloc_live());
    mc_state(mc_mix(hw, hz * 3 + hpre)); mc_outcome(mc_mix(hw, hz)); mc_steps(hpre + 2);
}
static void h_show(FILE *f) {
    fprintf(f, "after %d allocations, %s", hpre, hn[hw]);
    if (hw == H_CFULL || hw == H_CBY || hw == H_CDEF || hw == H_CGUARD || hw == H_CTRY || hw == H_CARENA || hw == H_ARENA_CBY || hw == H_ARENA_C) fprintf(f, " of %ld times %lu\n", hugec[hz].count, hugec[hz].size);
    else fprintf(f, " of %lu\n", huge[hz]);
}
mc_suite mc_suites[] = {{"sizes no machine has", init, h_gen, h_run, h_show, 0}, {"each allocation fails", init, gen, run, show, 0}, {0}};

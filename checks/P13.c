/* Typed argument sets: what went in comes out, and is released once with the scope. */
#include "raii.h"
#include "mc.h"
static const char letters[] = "zuidlcsaxfp";
#define NL 11
static int fn(void *p) { (void)p; return 7; }
static void *f1(void *p, ...) { return p; }
static void *f2(void *p, ...) { (void)p; return NULL; }
static char big[300], ex_[4], *arr[3];
/* values per letter */
static const size_t zs[] = {0, 1, (size_t)-1, 0x8000000000000000ull, 0x100000000ull, 0xdeadbeefcafef00dull};
static const long ls[] = {0, 1, -1, LONG_MAX, LONG_MIN, 0x100000000L};
static const uint32_t us[] = {0, 1, 0xffffffffu, 0x80000000u, 0x7fffffffu, 255};
static const int32_t is[] = {0, 1, -1, INT_MAX, INT_MIN, -256};
static const int64_t ds[] = {0, 1, -1, INT64_MAX, INT64_MIN, -0x100000000ll};
static const int cs[] = {0, 'a', 127, -128, -1, 10};
static char *ss[] = {"", "a", NULL, big, "hello world", ex_};
static double fs[] = {0.0, 1.5, -1e300, 3.14159265358979, 1e-310, -0.0};
static ptrdiff_t **as[] = {NULL, (ptrdiff_t **)arr, (ptrdiff_t **)(arr + 1), (ptrdiff_t **)big, (ptrdiff_t **)1, (ptrdiff_t **)-1};
static raii_func_args_t xs[] = {f1, f2, NULL, f1, f2, (raii_func_args_t)fn};
static void *ps[] = {NULL, big, ex_, (void *)1, (void *)-1, (void *)0xdeadbeefcafef00dull};
#define NV 6

#define MAXN 8
static int n, how, order, let[MAXN], val[MAXN], uses;

/* the value of one letter as 8 bytes, the way the caller of a variadic function passes it */
static uint64_t raw(int l, int v) {
    uint64_t r = 0;
    switch (letters[l]) {
        case 'z': return zs[v];
        case 'u': return us[v];
        case 'i': return (uint32_t)is[v];
        case 'd': return (uint64_t)ds[v];
        case 'l': return (uint64_t)ls[v];
        case 'c': return (uint32_t)cs[v];
        case 's': return (uint64_t)(uintptr_t)ss[v];
        case 'a': return (uint64_t)(uintptr_t)as[v];
        case 'x': return (uint64_t)(uintptr_t)xs[v];
        case 'p': return (uint64_t)(uintptr_t)ps[v];
    }
    return r;
}
static void same(values_type x, int l, int v, const char *from, int i) {
    int ok = 0;
    switch (letters[l]) {
        case 'z': ok = x.max_size == zs[v]; break;
        case 'u': ok = x.u_int == us[v]; break;
        case 'i': ok = x.integer == is[v]; break;
        case 'd': ok = x.long_long == ds[v]; break;
        case 'l': ok = x.s_long == ls[v]; break;
        case 'c': ok = x.schar == (signed char)cs[v]; break;
        case 's': ok = x.char_ptr == ss[v]; break;
        case 'a': ok = x.array == as[v]; break;
        case 'x': ok = x.func == (raii_func_t)xs[v]; break;
        case 'f': ok = memcmp(&x.precision, &fs[v], sizeof(double)) == 0; break;
        case 'p': ok = x.object == ps[v]; break;
    }
    mc_check(ok, "%s: argument %d ('%c') is not what was put in", from, i, letters[l]);
    mc_steps(1);
}

/* Doubles travel apart from the others, so one call passes all the integers in order and all the
   doubles in order; on this ABI that is what a caller with mixed arguments does. */
static args_t make(memory_t *sc, const char *desc) {
    uint64_t g[MAXN]; double d[MAXN]; int ng = 0, nd = 0, i;
    memset(g, 0, sizeof g); memset(d, 0, sizeof d);
    for (i = 0; i < n; i++) { if (letters[let[i]] == 'f') d[nd++] = fs[val[i]]; else g[ng++] = raw(let[i], val[i]); }
    if (how == 0) return args_for(desc, g[0], g[1], g[2], g[3], g[4], d[0], d[1], d[2], d[3], d[4], g[5], g[6], g[7]);
    return raii_args_for(how == 2 ? sc : NULL, desc, g[0], g[1], g[2], g[3], d[0], d[1], d[2], d[3], d[4], g[4], g[5], g[6], g[7]);
}
static void gen(void) {
    int i;
    how = mc_choose(3);
    order = mc_choose(2);
    n = mc_choose(mc_thorough ? 4 : 4);
    for (i = 0; i < n; i++) { let[i] = mc_choose(NL); val[i] = (i == 2 && !mc_thorough) ? mc_choose(3) * 2 : mc_choose(n < 3 ? NV : mc_thorough ? 4 : 3) % NV; }
}
static void run(void) {
    char desc[MAXN + 1];
    args_t a;
    memory_t *sc = NULL;
    int i;
    long live;
    for (i = 0; i < n; i++) desc[i] = letters[let[i]];
    desc[n] = 0;
    mc_alloc_reset();
    if (how == 2) sc = unique_init(); else { raii_init(); }
    live = mc_alloc_live();
    a = make(sc, desc);
    mc_check(a->n_args == (size_t)n, "%d arguments make a set of %d", n, (int)a->n_args);
    mc_check(is_type(a, RAII_ARGS), "the set's type is wrong");
    memset(desc, 'z', n);   /* the description is the caller's */
    if (how == 2 || n == 0 || order == 0) {
        for (i = 0; i < n; i++) {
            int k = order ? n - 1 - i : i;
            same(get_args(a, k), let[k], val[k], "get_args", k);
            same(args_in(a, k), let[k], val[k], "args_in", k);
        }
        if (n) for (i = 0; i < n; i++) same(get_args(a, i), let[i], val[i], "get_args again", i);
        if (n == 0) { args_free(a); mc_check(mc_alloc_live() == live, "the set is not released"); }
        else {
            if (how == 2) raii_deferred_free(sc); else raii_deferred_clean();
        }
    } else {
        for (i = 0; i < n; i++) same(args_in(a, i), let[i], val[i], "args_in", i);
        args_free(a);
        mc_check(mc_alloc_live() == live, "the set is not released");
    }
    if (how == 2) raii_delete(sc); else raii_destroy();
    mc_alloc_verify("at the end");
    mc_check(mc_alloc_live() == 0, "%ld blocks are never released", mc_alloc_live());
    { uint64_t h = how * 2 + order; for (i = 0; i < n; i++) h = mc_mix(h, let[i] * 10 + val[i] + 1); mc_state(h); }
    mc_outcome(n);
}
static void show(FILE *f) {
    int i;
    fprintf(f, "%s(\"", how == 0 ? "args_for" : "raii_args_for");
    for (i = 0; i < n; i++) fputc(letters[let[i]], f);
    fprintf(f, "\"%s) with values number", how == 2 ? ", of a scope" : "");
    for (i = 0; i < n; i++) fprintf(f, " %d", val[i]);
    fprintf(f, ", %s\n", order ? "last first" : "first to last");
}

/* longer sets: one letter, or a repeating pattern of letters */
static int lk, ln, lseed;
static void lgen(void) { ln = 1 + mc_choose(32); lk = mc_choose(NL + 1); lseed = mc_choose(6); }
static uint64_t lval(int i) { return (uint64_t)(i + 1) * 0x0101010101010101ull * (lseed * 2 + 1); }
static void lrun(void) {
    char desc[40], ch[40];
    args_t a;
    uint64_t v[32];
    double d[32];
    int i;
    for (i = 0; i < 32; i++) { v[i] = lval(i); d[i] = (double)(i * 1000 + lseed) / 7; }
    for (i = 0; i < ln; i++) ch[i] = desc[i] = lk == NL ? "zdps"[(i + lseed) & 3] : letters[lk];
    desc[ln] = 0;
    mc_alloc_reset();
    raii_init();
#define D8(x) d[x], d[x + 1], d[x + 2], d[x + 3], d[x + 4], d[x + 5], d[x + 6], d[x + 7]
#define V8(x) v[x], v[x + 1], v[x + 2], v[x + 3], v[x + 4], v[x + 5], v[x + 6], v[x + 7]
    if (lk < NL && letters[lk] == 'f') a = args_for(desc, D8(0), D8(8), D8(16), D8(24));
    else a = args_for(desc, V8(0), V8(8), V8(16), V8(24));
    mc_check(a->n_args == (size_t)ln, "%d arguments make a set of %d", ln, (int)a->n_args);
    for (i = ln - 1; i >= 0; i--) {
        values_type x = get_args(a, i);
        int ok = 0;
        switch (ch[i]) {
            case 'z': ok = x.max_size == v[i]; break;
            case 'u': ok = x.u_int == (uint32_t)v[i]; break;
            case 'i': ok = x.integer == (int32_t)v[i]; break;
            case 'd': ok = x.long_long == (long long)v[i]; break;
            case 'l': ok = x.s_long == (long)v[i]; break;
            case 'c': ok = x.schar == (signed char)v[i]; break;
            case 's': ok = (uint64_t)(uintptr_t)x.char_ptr == v[i]; break;
            case 'a': ok = (uint64_t)(uintptr_t)x.array == v[i]; break;
            case 'x': ok = (uint64_t)(uintptr_t)x.func == v[i]; break;
            case 'f': ok = x.precision == d[i]; break;
            case 'p': ok = (uint64_t)(uintptr_t)x.object == v[i]; break;
        }
        mc_check(ok, "argument %d of %d ('%c') is not what was put in", i, ln, ch[i]);
    }
    mc_steps(ln);
    raii_deferred_clean();
    mc_check(1, "x");
    raii_destroy();
    mc_alloc_verify("at the end");
    mc_check(mc_alloc_live() == 0, "%ld blocks are never released", mc_alloc_live());
    mc_state(mc_mix(mc_mix(ln, lk), lseed)); mc_outcome(ln);
}
static void lshow(FILE *f) { fprintf(f, "%d arguments of kind %c, values %d\n", ln, lk == NL ? '*' : letters[lk], lseed); }

/* several sets alive at once, in one scope: each keeps its own, all are released with it */
static int sk, so;
static void sgen(void) { sk = 1 + mc_choose(20); so = mc_choose(3); }
static void srun(void) {
    args_t a[24];
    char text[24][8];
    int i;
    mc_alloc_reset();
    raii_init();
    for (i = 0; i < sk; i++) { sprintf(text[i], "t%d", i); a[i] = args_for("isz", i, text[i], (size_t)i << 33); if (so == 0) (void)get_args(a[i], 0); }
    for (i = 0; i < sk; i++) {
        int k = so == 2 ? sk - 1 - i : i;
        mc_check(get_args(a[k], 0).integer == k && get_args(a[k], 1).char_ptr == text[k] && get_args(a[k], 2).max_size == (size_t)k << 33, "set %d of %d changed", k, sk);
    }
    mc_check(mc_alloc_live() >= 2 * sk, "argument sets are released early");
    raii_deferred_clean();
    raii_destroy();
    mc_alloc_verify("at the end");
    mc_check(mc_alloc_live() == 0, "%ld blocks are never released", mc_alloc_live());
    mc_state(sk * 3 + so); mc_outcome(sk); mc_steps(3 * sk);
}
static void sshow(FILE *f) { fprintf(f, "%d sets, order %d\n", sk, so); }
static void init(void) { ex_signal_setup(); mc_crash_handlers(); memset(big, 'q', sizeof big - 1); }
mc_suite mc_suites[] = {{"short sets", init, gen, run, show, 0}, {"long sets", init, lgen, lrun, lshow, 0}, {"many sets", init, sgen, srun, sshow, 0}, {0}};

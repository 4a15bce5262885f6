/* Atomics: every operation of every width does what it says to its object and to nothing else,
   as one indivisible step, with at least the memory order it promises. */
#include "raii.h"
#include "mc_sched.h"

enum { LOAD, STORE, XCHG, CAS_S, CAS_W, ADD, SUB, OR, XOR, AND, CAS_V, INIT, CAS_3, CAS_P, GET, TAS, CLEAR, NOP };
static const char *opname[] = {"load", "store", "exchange", "compare_exchange_strong", "compare_exchange_weak", "fetch_add", "fetch_sub",
    "fetch_or", "fetch_xor", "fetch_and", "compare_and_swap", "init", "cas", "swap", "get", "test_and_set", "clear"};
static const char *ordname[] = {"", "_relaxed", "_acquire", "_release", "_acq_rel", "_seq_cst"};
/* orders: 0 is the form without one */
#define ORDERS(X, ...) X(1, __ATOMIC_RELAXED, __VA_ARGS__) X(2, __ATOMIC_ACQUIRE, __VA_ARGS__) X(3, __ATOMIC_RELEASE, __VA_ARGS__) \
    X(4, __ATOMIC_ACQ_REL, __VA_ARGS__) X(5, __ATOMIC_SEQ_CST, __VA_ARGS__)
#define ORDERS_L(X, ...) X(1, __ATOMIC_RELAXED, __VA_ARGS__) X(2, __ATOMIC_ACQUIRE, __VA_ARGS__) X(5, __ATOMIC_SEQ_CST, __VA_ARGS__)
#define ORDERS_S(X, ...) X(1, __ATOMIC_RELAXED, __VA_ARGS__) X(3, __ATOMIC_RELEASE, __VA_ARGS__) X(5, __ATOMIC_SEQ_CST, __VA_ARGS__)
#define C_VAL(n, o, op, f) case op * 8 + n: r = (f(p, v, o)); break;
#define C_LD(n, o, op, f) case op * 8 + n: r = (f(p, o)); break;
#define C_ST(n, o, op, f) case op * 8 + n: f(p, v, o); break;
/* the order when the comparison fails */
#define FAIL_1 __ATOMIC_RELAXED
#define FAIL_2 __ATOMIC_ACQUIRE
#define FAIL_3 __ATOMIC_RELAXED
#define FAIL_4 __ATOMIC_ACQUIRE
#define FAIL_5 __ATOMIC_SEQ_CST
#define C_CAS(n, o, op, f) case op * 8 + n: *ok = f(p, e, v, o, FAIL_##n); break;
#define BAD default: return 0
/* The generic forms. */
#define GENERIC(T, AT, N) \
    static int do_##N(int op, int ord, void *cell, void *exp, void *val, void *res, int *ok) { \
        AT *p = (AT *)cell; T *e = (T *)exp; T v = *(T *)val, r = v; \
        switch (op * 8 + ord) { \
            case LOAD * 8: r = atomic_load(p); break; ORDERS_L(C_LD, LOAD, atomic_load_explicit) \
            case STORE * 8: atomic_store(p, v); break; ORDERS_S(C_ST, STORE, atomic_store_explicit) \
            case XCHG * 8: r = atomic_exchange(p, v); break; ORDERS(C_VAL, XCHG, atomic_exchange_explicit) \
            case CAS_S * 8: *ok = atomic_compare_exchange_strong(p, e, v); break; ORDERS(C_CAS, CAS_S, atomic_compare_exchange_strong_explicit) \
            case CAS_W * 8: *ok = atomic_compare_exchange_weak(p, e, v); break; ORDERS(C_CAS, CAS_W, atomic_compare_exchange_weak_explicit) \
            case INIT * 8: atomic_init(p, v); break; \
            case CAS_3 * 8: *ok = atomic_cas(p, e, v); break; \
            case CAS_P * 8: *ok = atomic_swap(p, e, v); break; \
            case GET * 8: r = atomic_get(T, p); break; \
            default: return arith_##N(op, ord, cell, v, res); \
        } \
        *(T *)res = r; return 1; }
#define GENERIC_INT(T, AT, N) \
    static int arith_##N(int op, int ord, void *cell, T v, void *res) { \
        AT *p = (AT *)cell; T r; \
        switch (op * 8 + ord) { \
            case ADD * 8: r = atomic_fetch_add(p, v); break; ORDERS(C_VAL, ADD, atomic_fetch_add_explicit) \
            case SUB * 8: r = atomic_fetch_sub(p, v); break; ORDERS(C_VAL, SUB, atomic_fetch_sub_explicit) \
            case OR * 8: r = atomic_fetch_or(p, v); break; ORDERS(C_VAL, OR, atomic_fetch_or_explicit) \
            case XOR * 8: r = atomic_fetch_xor(p, v); break; ORDERS(C_VAL, XOR, atomic_fetch_xor_explicit) \
            case AND * 8: r = atomic_fetch_and(p, v); break; ORDERS(C_VAL, AND, atomic_fetch_and_explicit) \
            BAD; \
        } \
        *(T *)res = r; return 1; } \
    GENERIC(T, AT, N)
GENERIC_INT(signed char, atomic_char, g_char)
GENERIC_INT(unsigned char, atomic_bool, g_bool)
GENERIC_INT(unsigned char, atomic_uchar, g_uchar)
GENERIC_INT(short, atomic_short, g_short)
GENERIC_INT(unsigned short, atomic_ushort, g_ushort)
GENERIC_INT(int, atomic_int, g_int)
GENERIC_INT(unsigned, atomic_uint, g_uint)
GENERIC_INT(long, atomic_long, g_long)
GENERIC_INT(unsigned long, atomic_ulong, g_ulong)
GENERIC_INT(long long, atomic_llong, g_llong)
GENERIC_INT(unsigned long long, atomic_ullong, g_ullong)
GENERIC_INT(size_t, atomic_size_t, g_size)
GENERIC_INT(intptr_t, atomic_intptr_t, g_intptr)
static int arith_g_ptr(int op, int ord, void *cell, void *v, void *res) { return 0; }
typedef void *voidp;
GENERIC(voidp, atomic_ptr_t, g_ptr)

/* The sized forms. */
#define SIZED(T, S, N, ARITH) \
    static int do_##N(int op, int ord, void *cell, void *exp, void *val, void *res, int *ok) { \
        volatile T *p = (volatile T *)cell; T *e = (T *)exp; T v = *(T *)val, r = v; \
        switch (op * 8 + ord) { \
            case LOAD * 8: r = c89atomic_load_##S(p); break; ORDERS_L(C_LD, LOAD, c89atomic_load_explicit_##S) \
            case STORE * 8: c89atomic_store_##S(p, v); break; ORDERS_S(C_ST, STORE, c89atomic_store_explicit_##S) \
            case XCHG * 8: r = c89atomic_exchange_##S(p, v); break; ORDERS(C_VAL, XCHG, c89atomic_exchange_explicit_##S) \
            case CAS_S * 8: *ok = c89atomic_compare_exchange_strong_##S(p, e, v); break; ORDERS(C_CAS, CAS_S, c89atomic_compare_exchange_strong_explicit_##S) \
            case CAS_W * 8: *ok = c89atomic_compare_exchange_weak_##S(p, e, v); break; ORDERS(C_CAS, CAS_W, c89atomic_compare_exchange_weak_explicit_##S) \
            case CAS_V * 8: r = c89atomic_compare_and_swap_##S(p, *e, v); break; \
            ARITH(S) \
            BAD; \
        } \
        *(T *)res = r; return 1; }
#define A_SUM(S) \
            case ADD * 8: r = c89atomic_fetch_add_##S(p, v); break; ORDERS(C_VAL, ADD, c89atomic_fetch_add_explicit_##S) \
            case SUB * 8: r = c89atomic_fetch_sub_##S(p, v); break; ORDERS(C_VAL, SUB, c89atomic_fetch_sub_explicit_##S)
#define A_ALL(S) A_SUM(S) \
            case OR * 8: r = c89atomic_fetch_or_##S(p, v); break; ORDERS(C_VAL, OR, c89atomic_fetch_or_explicit_##S) \
            case XOR * 8: r = c89atomic_fetch_xor_##S(p, v); break; ORDERS(C_VAL, XOR, c89atomic_fetch_xor_explicit_##S) \
            case AND * 8: r = c89atomic_fetch_and_##S(p, v); break; ORDERS(C_VAL, AND, c89atomic_fetch_and_explicit_##S)
#define A_UNS(S) A_ALL(S) \
            case TAS * 8: r = c89atomic_test_and_set_##S(p); break; \
            case CLEAR * 8: c89atomic_clear_##S(p); break;
#define A_NONE(S)
SIZED(c89atomic_uint8, 8, s_8, A_UNS)
SIZED(c89atomic_uint16, 16, s_16, A_UNS)
SIZED(c89atomic_uint32, 32, s_32, A_UNS)
SIZED(c89atomic_uint64, 64, s_64, A_UNS)
SIZED(c89atomic_int8, i8, s_i8, A_ALL)
SIZED(c89atomic_int16, i16, s_i16, A_ALL)
SIZED(c89atomic_int32, i32, s_i32, A_ALL)
SIZED(c89atomic_int64, i64, s_i64, A_ALL)
SIZED(float, f32, s_f32, A_SUM)
SIZED(double, f64, s_f64, A_SUM)
#define P_(f) f
static int do_s_ptr(int op, int ord, void *cell, void *exp, void *val, void *res, int *ok) {
    volatile void **p = (volatile void **)cell; void **e = (void **)exp; void *v = *(void **)val, *r = v;
    switch (op * 8 + ord) {
        case LOAD * 8: r = c89atomic_load_ptr(p); break; ORDERS_L(C_LD, LOAD, c89atomic_load_explicit_ptr)
        case STORE * 8: c89atomic_store_ptr(p, v); break; ORDERS_S(C_ST, STORE, c89atomic_store_explicit_ptr)
        case XCHG * 8: r = c89atomic_exchange_ptr(p, v); break; ORDERS(C_VAL, XCHG, c89atomic_exchange_explicit_ptr)
        case CAS_S * 8: *ok = c89atomic_compare_exchange_strong_ptr(p, e, v); break; ORDERS(C_CAS, CAS_S, c89atomic_compare_exchange_strong_explicit_ptr)
        case CAS_W * 8: *ok = c89atomic_compare_exchange_weak_ptr(p, e, v); break; ORDERS(C_CAS, CAS_W, c89atomic_compare_exchange_weak_explicit_ptr)
        case CAS_V * 8: r = c89atomic_compare_and_swap_ptr(p, *e, v); break;
        BAD;
    }
    *(void **)res = r;
    return 1;
}
/* flags */
#define C_TAS(n, o) case TAS * 8 + n: r = atomic_flag_test_and_set_explicit(p, o); break;
#define C_CLR(n, o) case CLEAR * 8 + n: atomic_flag_clear_explicit(p, o); break;
#define C_FLD(n, o) case LOAD * 8 + n: r = atomic_flag_load_explicit(p, o); break;
static int do_flag(int op, int ord, void *cell, void *exp, void *val, void *res, int *ok) {
    atomic_flag *p = (atomic_flag *)cell; unsigned char r = 0;
    switch (op * 8 + ord) {
        case TAS * 8: r = atomic_flag_test_and_set(p); break;
        C_TAS(1, __ATOMIC_RELAXED) C_TAS(2, __ATOMIC_ACQUIRE) C_TAS(3, __ATOMIC_RELEASE) C_TAS(4, __ATOMIC_ACQ_REL) C_TAS(5, __ATOMIC_SEQ_CST)
        case CLEAR * 8: atomic_flag_clear(p); break;
        C_CLR(1, __ATOMIC_RELAXED) C_CLR(3, __ATOMIC_RELEASE) C_CLR(5, __ATOMIC_SEQ_CST)
        case LOAD * 8: r = atomic_flag_load(p); break;
        C_FLD(1, __ATOMIC_RELAXED) C_FLD(2, __ATOMIC_ACQUIRE) C_FLD(5, __ATOMIC_SEQ_CST)
        BAD;
    }
    *(unsigned char *)res = r;
    return 1;
}

/* ---- what they should do, on the bits ---- */
typedef struct { const char *name; int size; int kind; int (*f)(int, int, void *, void *, void *, void *, int *); } type;
static const type types[] = {
    {"atomic_char", 1, 0, do_g_char}, {"atomic_bool", 1, 0, do_g_bool}, {"atomic_uchar", 1, 0, do_g_uchar}, {"atomic_short", 2, 0, do_g_short},
    {"atomic_ushort", 2, 0, do_g_ushort}, {"atomic_int", 4, 0, do_g_int}, {"atomic_uint", 4, 0, do_g_uint}, {"atomic_long", 8, 0, do_g_long},
    {"atomic_ulong", 8, 0, do_g_ulong}, {"atomic_llong", 8, 0, do_g_llong}, {"atomic_ullong", 8, 0, do_g_ullong}, {"atomic_size_t", 8, 0, do_g_size},
    {"atomic_intptr_t", 8, 0, do_g_intptr}, {"atomic_ptr_t", 8, 2, do_g_ptr},
    {"_8", 1, 0, do_s_8}, {"_16", 2, 0, do_s_16}, {"_32", 4, 0, do_s_32}, {"_64", 8, 0, do_s_64},
    {"_i8", 1, 0, do_s_i8}, {"_i16", 2, 0, do_s_i16}, {"_i32", 4, 0, do_s_i32}, {"_i64", 8, 0, do_s_i64},
    {"_f32", 4, 1, do_s_f32}, {"_f64", 8, 1, do_s_f64}, {"_ptr", 8, 2, do_s_ptr}, {"flag", 1, 3, do_flag}};
#define NT_ ((int)(sizeof types / sizeof *types))
static uint64_t mask_of(int size) { return size == 8 ? ~0ull : (1ull << (8 * size)) - 1; }
static uint64_t sum(const type *t, uint64_t a, uint64_t b, int minus) {
    if (t->kind == 1 && t->size == 4) {
        float x, y; uint32_t r;
        memcpy(&x, &a, 4); memcpy(&y, &b, 4);
        x = minus ? x - y : x + y;
        memcpy(&r, &x, 4);
        return r;
    }
    if (t->kind == 1) {
        double x, y; uint64_t r;
        memcpy(&x, &a, 8); memcpy(&y, &b, 8);
        x = minus ? x - y : x + y;
        memcpy(&r, &x, 8);
        return r;
    }
    return (minus ? a - b : a + b) & mask_of(t->size);
}
/* The cell, the expected value, the result and the answer afterwards. */
static void spec(const type *t, int op, uint64_t *cell, uint64_t *e, uint64_t v, uint64_t *res, int *ok) {
    uint64_t old = *cell;
    *res = v;
    *ok = -1;
    switch (op) {
        case LOAD: case GET: *res = old; break;
        case STORE: case INIT: *cell = v; break;
        case XCHG: *res = old; *cell = v; break;
        case CAS_S: case CAS_W: case CAS_3: case CAS_P:
            *ok = old == *e;
            if (*ok) *cell = v; else *e = old;
            break;
        case CAS_V: *res = old; if (old == *e) *cell = v; break;
        case ADD: *res = old; *cell = sum(t, old, v, 0); break;
        case SUB: *res = old; *cell = sum(t, old, v, 1); break;
        case OR: *res = old; *cell = old | v; break;
        case XOR: *res = old; *cell = old ^ v; break;
        case AND: *res = old; *cell = old & v; break;
        case TAS: *res = old; *cell = 1; break;
        case CLEAR: *cell = 0; if (t->kind == 3) *res = 0; break;
    }
    if (t->kind == 3 && op == TAS) *res = old;
}
static const uint64_t ints[] = {0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x5555, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000u, 0xffffffffu,
    0x100000000ull, 0x123456789abcdefull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xaaaaaaaaaaaaaaaaull, ~0ull};
static const double reals[] = {0, 1, -1, 1.5, -2.25, 1e6, 3.0e-5, 123456.75};
static uint64_t value(const type *t, int i) {
    if (t->kind == 3) return i;
    if (t->kind == 1) {
        uint64_t r = 0;
        float f = (float)reals[i];
        if (t->size == 4) memcpy(&r, &f, 4); else memcpy(&r, &reals[i], 8);
        return r;
    }
    return ints[i] & mask_of(t->size);
}
static int values(const type *t) { return t->kind == 3 ? 2 : t->kind == 1 ? 8 : 21; }
/* Which forms there are. */
static int exists(const type *t, int op, int ord) {
    int generic = !strncmp(t->name, "atomic", 6);
    if (t->kind == 3) return (op == LOAD && ord != 3 && ord != 4) || op == TAS || (op == CLEAR && ord != 2 && ord != 4);
    switch (op) {
        case LOAD: return ord != 3 && ord != 4;
        case STORE: return ord != 2 && ord != 4;
        case XCHG: case CAS_S: case CAS_W: return 1;
        case ADD: case SUB: return t->kind != 2;
        case OR: case XOR: case AND: return t->kind == 0;
        case CAS_V: return !generic && !ord;
        case INIT: case CAS_3: case CAS_P: case GET: return generic && !ord;
        default: return !generic && t->name[1] >= '0' && t->name[1] <= '9' && !ord;
    }
}
/* is the order executed at least the one asked for? */
static int strong(int op, int got, int ord) {
    int want = ord ? ord - 1 : 5;
    static const int code[] = {0, 2, 3, 4, 5};
    if (ord) want = code[ord - 1];
    (void)op;
    if (want == 0) return 1;
    if (want == 2) return got == 1 || got == 2 || got == 4 || got == 5;
    if (want == 3) return got == 3 || got == 4 || got == 5;
    if (want == 4) return got == 4 || got == 5;
    return got == 5;
}

static const int failing[] = {0, 1, 2, 1, 2, 5};
/* ---- one thread: every value ---- */
static int ty, op1, ord1;
static void show_one(FILE *f) { fprintf(f, "%s %s%s on every value\n", types[ty].name, opname[op1], ordname[ord1]); }
static void gen_one(void) { ty = mc_choose(NT_); op1 = mc_choose(NOP); ord1 = mc_choose(6); if (!exists(&types[ty], op1, ord1)) mc_skip(); }
static void run_one(void) {
    const type *t = &types[ty];
    int i, j, k, off, n = values(t), any = 0;
    struct { unsigned char before[16]; union { uint64_t w; unsigned char b[24]; } cell; unsigned char after[16]; } m __attribute__((aligned(16)));
    for (off = 0; off < 16; off += t->size)
        for (i = 0; i < n; i++) for (j = 0; j < n; j++) {
            int ne = op1 >= CAS_S && op1 != ADD && op1 != SUB && op1 != OR && op1 != XOR && op1 != AND ? 2 : 1;
            for (k = 0; k < ne; k++) {
                uint64_t c = value(t, i), v = value(t, j), e = value(t, k ? i : (i + 1) % n), se = e, sc = c, sr, r = 0;
                int ok = -1, sok, b;
                unsigned char *p = m.cell.b + off;
                if (off && (i % 3 || j % 3) && !mc_thorough) continue;
                memset(&m, 0xA5, sizeof m);
                memcpy(p, &c, t->size);
                spec(t, op1, &sc, &se, v, &sr, &sok);
                mc_check(t->f(op1, ord1, p, &e, &v, &r, &ok), "no such form");
                any = 1;
                mc_check(strong(op1, mc_last_order(), sok == 0 ? failing[ord1] : ord1), "%s %s%s: the memory order is weaker than that", t->name, opname[op1], ordname[ord1]);
                mc_check(!memcmp(p, &sc, t->size), "%s %s%s of %llx with %llx (expecting %llx) leaves another value than %llx", t->name, opname[op1], ordname[ord1], (long long)c, (long long)v, (long long)value(t, k ? i : (i + 1) % n), (long long)sc);
                mc_check((r & mask_of(t->size)) == (sr & mask_of(t->size)) || op1 == STORE || op1 == INIT || op1 == CLEAR, "%s %s%s of %llx with %llx returns %llx", t->name, opname[op1], ordname[ord1], (long long)c, (long long)v, (long long)r);
                mc_check(sok < 0 || ok == sok, "%s %s%s answers %d for %d", t->name, opname[op1], ordname[ord1], ok, sok);
                mc_check((e & mask_of(t->size)) == (se & mask_of(t->size)), "%s %s%s leaves %llx as the expected value", t->name, opname[op1], ordname[ord1], (long long)e);
                for (b = 0; b < (int)sizeof m; b++)
                    if ((unsigned char *)&m + b < p || (unsigned char *)&m + b >= p + t->size)
                        mc_check(((unsigned char *)&m)[b] == 0xA5, "%s %s%s changes the byte %ld behind its object", t->name, opname[op1], ordname[ord1], (long)((unsigned char *)&m + b - p));
                mc_progress();
                mc_extra_traces(1);
            }
        }
    if (any) mc_outcome(mc_mix(ty, op1 * 8 + ord1));
}

/* ---- two and three threads: the results are those of some order ---- */
#define MT 3
#define MO 2
static int nt, no[MT], cop[MT][MO];
static const int types2[] = {1, 5, 8, 13, 15, 16, 21, 22, 24};
static const int ops2[] = {LOAD, STORE, XCHG, CAS_S, CAS_W, ADD, SUB, OR, XOR, AND, CAS_V};
static const uint64_t argv2[MT][MO] = {{1, 6}, {3, 12}, {5, 10}}, expv2[MT][MO] = {{0, 3}, {1, 0}, {0, 1}};
static unsigned char *cell2;
static uint64_t init2, got_r[MT][MO], got_e[MT][MO];
static int got_ok[MT][MO];
static uint64_t as_value(const type *t, uint64_t v) {
    uint64_t r = 0;
    if (t->kind == 1) { float f = (float)v; double d = (double)v; if (t->size == 4) memcpy(&r, &f, 4); else memcpy(&r, &d, 8); return r; }
    return v;
}
static void show_many(FILE *f) {
    int i, j;
    fprintf(f, "%s:", types[ty].name);
    for (i = 0; i < nt; i++) { fprintf(f, i ? " ||" : ""); for (j = 0; j < no[i]; j++) fprintf(f, " %s(%d)", opname[cop[i][j]], (int)argv2[i][j]); }
    fprintf(f, "\n");
}
static void gen_many(int a, int b, int c, int nops) {
    int i, j;
    const type *t;
    ty = types2[mc_choose(mc_thorough || nops == 11 ? 9 : 5)];
    t = &types[ty];
    nt = (a > 0) + (b > 0) + (c > 0);
    no[0] = a; no[1] = b; no[2] = c;
    for (i = 0; i < nt; i++) for (j = 0; j < no[i]; j++) {
        int o = ops2[mc_choose(nops)];
        if (!exists(t, o, 0)) mc_skip();
        cop[i][j] = o;
    }
}
static void gen_pairs(void) { gen_many(1, 1, 0, 11); }
static void gen_two(void) { gen_many(2, 2, 0, mc_thorough ? 9 : 6); }
static void gen_three(void) { gen_many(1, 1, mc_thorough ? 2 : 1, 7); }
static int thread2(void *a) {
    int i = (int)(intptr_t)a, j;
    const type *t = &types[ty];
    for (j = 0; j < no[i]; j++) {
        uint64_t e = as_value(t, expv2[i][j]), v = as_value(t, argv2[i][j]), r = 0;
        int ok = -1;
        mc_check(t->f(cop[i][j], 0, cell2, &e, &v, &r, &ok), "no such operation");
        got_r[i][j] = r; got_e[i][j] = e; got_ok[i][j] = ok;
    }
    return 0;
}
static int possible(const type *t, uint64_t cell, int *pos, uint64_t final) {
    int i, left = 0;
    for (i = 0; i < nt; i++) if (pos[i] < no[i]) {
        int j = pos[i], ok;
        uint64_t c = cell, e = as_value(t, expv2[i][j]), r;
        left = 1;
        spec(t, cop[i][j], &c, &e, as_value(t, argv2[i][j]), &r, &ok);
        if (((r ^ got_r[i][j]) & mask_of(t->size) && cop[i][j] != STORE) || (e ^ got_e[i][j]) & mask_of(t->size) || (ok >= 0 && ok != got_ok[i][j])) continue;
        pos[i]++;
        if (possible(t, c, pos, final)) { pos[i]--; return 1; }
        pos[i]--;
    }
    return !left && !((cell ^ final) & mask_of(t->size));
}
static void run_many(void) {
    static uint64_t mem[3];
    thrd_t id[MT];
    int i, j, pos[MT] = {0}, hash = 0;
    const type *t = &types[ty];
    uint64_t fin = 0;
    mem[0] = mem[1] = mem[2] = 0xA5A5A5A5A5A5A5A5ull;
    cell2 = (unsigned char *)&mem[1];
    init2 = 0;
    memset(cell2, 0, t->size);
    for (i = 1; i < nt; i++) mc_check(thrd_create(&id[i], thread2, (void *)(intptr_t)i) == thrd_success, "no thread");
    thread2((void *)0);
    for (i = 1; i < nt; i++) thrd_join(id[i], NULL);
    memcpy(&fin, cell2, t->size);
    mc_check(mem[0] == 0xA5A5A5A5A5A5A5A5ull && mem[2] == mem[0], "neighbours are changed");
    for (i = t->size; i < 8; i++) mc_check(cell2[i] == 0xA5, "a neighbour is changed");
    mc_check(possible(t, 0, pos, fin), "%s: no order of the operations gives these results: %s(%d)=%llx,%d and %s(%d)=%llx,%d, ends with %llx", t->name,
        opname[cop[0][0]], (int)argv2[0][0], (long long)got_r[0][0], got_ok[0][0], opname[cop[1][0]], (int)argv2[1][0], (long long)got_r[1][0], got_ok[1][0], (long long)fin);
    for (i = 0; i < nt; i++) for (j = 0; j < no[i]; j++) hash = (int)mc_mix(hash, cop[i][j] == STORE ? 0 : got_r[i][j] + 7 * got_ok[i][j]);
    mc_outcome(mc_mix(hash, fin));
}

/* ---- what was written before is seen afterwards ---- */
static int how_pub, pub_ord, how_sub, sub_ord, fences;
static int plain;
static void show_msg(FILE *f) { fprintf(f, "%s: %s%s publishes, %s%s observes, fences %d\n", types[ty].name, opname[how_pub], ordname[pub_ord], opname[how_sub], ordname[sub_ord], fences); }
static const int pubs[] = {STORE, XCHG, CAS_S, CAS_W, ADD, OR, XOR, CAS_V, TAS, CLEAR, CAS_3, SUB, AND};
static const int subs[] = {LOAD, XCHG, CAS_S, CAS_W, ADD, SUB, OR, XOR, AND, CAS_V, GET, TAS};
static const int types3[] = {1, 3, 5, 8, 13, 14, 15, 16, 17, 18, 21, 22, 23, 24, 25};
static void gen_msg(void) {
    static const int po[] = {0, 3, 4, 5}, so[] = {0, 2, 4, 5};
    ty = types3[mc_choose(15)];
    how_pub = pubs[mc_choose(13)];
    how_sub = subs[mc_choose(12)];
    fences = mc_choose(2);
    pub_ord = fences ? 1 : po[mc_choose(4)];
    sub_ord = fences ? 1 : so[mc_choose(4)];
    if (!exists(&types[ty], how_pub, pub_ord) || !exists(&types[ty], how_sub, sub_ord)) mc_skip();
}
/* the values before and after, so that the publication is a change that can be seen */
static void before_after(const type *t, uint64_t *a, uint64_t *b, uint64_t *v) {
    uint64_t e, r; int ok;
    *a = as_value(t, how_pub == SUB ? 2 : how_pub == AND ? 3 : how_pub == CLEAR ? 1 : 0);
    *v = as_value(t, how_pub == SUB || how_pub == AND ? 1 : 1);
    e = *a;
    *b = *a;
    spec(t, how_pub, b, &e, *v, &r, &ok);
}
static int publisher(void *x) {
    const type *t = &types[ty];
    uint64_t a, b, v, e, r = 0; int ok = -1;
    before_after(t, &a, &b, &v);
    e = a;
    plain = 42;
    if (fences) atomic_thread_fence(memory_order_release);
    t->f(how_pub, pub_ord, cell2, &e, &v, &r, &ok);
    return 0;
}
static void run_msg(void) {
    static uint64_t mem[2];
    const type *t = &types[ty];
    uint64_t a, b, v, e, r = 0, x; int ok = -1;
    thrd_t id;
    before_after(t, &a, &b, &v);
    cell2 = (unsigned char *)&mem[0];
    memcpy(cell2, &a, t->size);
    plain = 0;
    thrd_create(&id, publisher, NULL);
    /* observe without changing it for good */
    v = how_sub == AND ? mask_of(t->size) : 0;
    e = as_value(t, how_sub == CAS_V || how_sub == CAS_S || how_sub == CAS_W ? 77 : 0);
    if (how_sub == XCHG || how_sub == TAS) v = as_value(t, 5);
    r = 0;
    t->f(how_sub, sub_ord, cell2, &e, &v, &r, &ok);
    if (fences) atomic_thread_fence(memory_order_acquire);
    x = how_sub == CAS_S || how_sub == CAS_W ? e : r;
    if (!((x ^ b) & mask_of(t->size))) {
        mc_check(plain == 42, "what was written before the publication is not there");
        mc_outcome(1);
    } else {
        mc_check(!((x ^ a) & mask_of(t->size)), "a value in between is seen: %llx", (long long)x);
        mc_outcome(2);
    }
    thrd_join(id, NULL);
}

mc_suite mc_suites[] = {
    {"values", NULL, gen_one, run_one, show_one, 0, 100, 100},
    {"pairs", NULL, gen_pairs, run_many, show_many, 0, 100, 100},
    {"two", NULL, gen_two, run_many, show_many, 0, 100, 100},
    {"three", NULL, gen_three, run_many, show_many, 0, 100, 100},
    {"publication", NULL, gen_msg, run_msg, show_msg, 0, 100, 100},
    {NULL}
};

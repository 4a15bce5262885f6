/* Histories of arenas, alone, side by side and behind scopes; compared with a list of live blocks. */
#include "raii.h"
#include "mc.h"
#define NAR 3
#define MAXB 64
typedef struct { arena_t a; unique_t *scope; int threshold; int nb; struct { unsigned char *p; long n; unsigned char fill; } b[MAXB]; } mar;
enum { O_ALLOC, O_FIT, O_OVER, O_CALLOC, O_CLEAR, O_FREE, O_MANY };
typedef struct { int op, ar, arg; } op_t;
static int kinds[NAR], nops, nar; static op_t ops[8];
static mar m[NAR];
static int serial;
static const long sizes[] = {1, 1000, 9000, 25001, 2, 40000};
static const long cals[][2] = {{3, 7}, {1, 11000}, {500, 3}};
#define NKINDS 4
static const int thresholds[] = {0, 1, 2, -1};   /* -1: of a scope */

static void check_all(const char *when) {
    int i, j; long k;
    for (i = 0; i < nar; i++) for (j = 0; j < m[i].nb; j++) {
        unsigned char *p = m[i].b[j].p; long n = m[i].b[j].n;
        mc_check(mc_block_live(p) && mc_block_live(p + n - 1), "%s: allocation %d of arena %d is not live memory", when, j, i);
        /* the ends of the large ones; overlaps are seen by address */
        k = n > 600 ? 300 : n;
        mc_check(p[0] == m[i].b[j].fill && memcmp(p, p + 1, k - 1) == 0, "%s: allocation %d of arena %d changed", when, j, i);
        mc_check(p[n - k] == m[i].b[j].fill && memcmp(p + n - k, p + n - k + 1, k - 1) == 0, "%s: allocation %d of arena %d changed at its end", when, j, i);
    }
}
static void open_(int i) {
    m[i].nb = 0;
    m[i].threshold = thresholds[kinds[i]];
    if (m[i].threshold < 0) { m[i].scope = unique_init_arena(); m[i].a = (arena_t)m[i].scope->arena; }
    else { m[i].scope = NULL; m[i].a = arena_init(m[i].threshold); }
    mc_check(arena_capacity(m[i].a) == 0 && arena_total(m[i].a) == 0, "a new arena is not empty");
}
static void close_(int i) {
    if (m[i].scope) free_arena(m[i].scope); else arena_free(m[i].a);
    m[i].nb = 0;
}
static void grab(int i, long count, long n, int zero) {
    unsigned char *p; long cap = arena_capacity(m[i].a), cap2; size_t tot = arena_total(m[i].a), tot2; int a, j; long all = count * n;
    if (m[i].nb >= MAXB) return;
    if (m[i].scope) {
        if (zero) p = (serial & 1) ? calloc_by(m[i].scope, count, n) : calloc_arena(m[i].scope, count, n);
        else p = (serial & 1) ? malloc_by(m[i].scope, n) : malloc_arena(m[i].scope, n);
    } else p = zero ? arena_calloc(m[i].a, count, n) : arena_alloc(m[i].a, n);
    mc_check(p != NULL && ((uintptr_t)p & 1) == 0, "the allocation is at an odd address, or nowhere");
    mc_check(mc_block_live(p) && mc_block_live(p + all - 1), "the allocation is not live memory");
    for (a = 0; a < nar; a++) for (j = 0; j < m[a].nb; j++)
        mc_check(p + all <= m[a].b[j].p || p >= m[a].b[j].p + m[a].b[j].n, "the allocation overlaps allocation %d of arena %d", j, a);
    if (zero) for (j = 0; j < all; j++) mc_check(p[j] == 0, "arena_calloc memory is not zero at %d", j);
    cap2 = arena_capacity(m[i].a); tot2 = arena_total(m[i].a);
    if (all + 8 <= cap) {
        mc_check(tot2 == tot, "the arena grows for what it has room for");
        mc_check(cap - cap2 >= all && cap - cap2 < all + 16, "room shrinks by %ld for %ld bytes", cap - cap2, all);
    }
    mc_check(cap2 >= 0 && tot2 >= tot, "the arena's totals shrink");
    m[i].b[m[i].nb].p = p; m[i].b[m[i].nb].n = all; m[i].b[m[i].nb].fill = (unsigned char)(0x11 + serial * 13);
    j = all > 600 ? 300 : all;
    memset(p, m[i].b[m[i].nb].fill, j); memset(p + all - j, m[i].b[m[i].nb].fill, j);
    m[i].nb++; serial++;
    mc_steps(1);
}
static void run(void) {
    int i, j, k;
    uint64_t h = 9;
    long mid, empty;
    memset(m, 0, sizeof m);
    mc_alloc_reset();
    serial = 0;
    for (i = 0; i < nar; i++) open_(i);
    empty = mc_alloc_live();
    for (i = 0; i < nops; i++) {
        op_t *o = &ops[i];
        mar *x = &m[o->ar];
        long cap = arena_capacity(x->a);
        switch (o->op) {
            case O_ALLOC: grab(o->ar, 1, sizes[o->arg], 0); break;
            case O_FIT: if (cap > 2) grab(o->ar, 1, cap - o->arg, 0); break;
            case O_OVER: grab(o->ar, 1, cap + 1 + o->arg, 0); break;
            case O_CALLOC: grab(o->ar, cals[o->arg][0], cals[o->arg][1], 1); break;
            case O_CLEAR:
                x->nb = 0; arena_clear(x->a); mc_steps(1);
                mc_check(arena_capacity(x->a) == 0, "a cleared arena still has room in its old memory");
                mid = mc_alloc_live();
                if (nar == 1) mc_check(mid <= empty + (x->threshold > 0 ? x->threshold : 10), "%ld blocks are kept after a clear, %ld when new", mid, empty);
                break;
            case O_FREE: close_(o->ar); open_(o->ar); mc_steps(2); break;
            case O_MANY: for (j = 0; j < 12; j++) grab(o->ar, 1, 13000 - (j & 1) * 2999, 0); break;
        }
        check_all("after a step");
        h = mc_mix(h, o->op * 100 + o->ar * 10 + o->arg);
        { uint64_t s = 3; for (k = 0; k < nar; k++) s = mc_mix(mc_mix(mc_mix(s, arena_capacity(m[k].a)), arena_total(m[k].a)), m[k].nb); mc_state(s); mc_outcome(s); }
    }
    for (i = 0; i < nar; i++) { close_(i); check_all("after an arena is gone"); }
    mc_alloc_verify("at the end");
    mid = mc_alloc_live();
    /* what the arenas keep for later: not without limit, and given to the next arena that needs room */
    mc_check(mid <= 32, "%ld blocks are left when all arenas are gone", mid);
    { arena_t d = arena_init(1); arena_alloc(d, 3 << 20); arena_free(d); }
    mc_alloc_verify("at the end");
    mc_check(mc_alloc_live() == 0, "%ld blocks are lost to every arena", mc_alloc_live());
}
static void gen_ops(int n) {
    int i;
    nops = n;
    for (i = 0; i < n; i++) {
        op_t *o = &ops[i];
        int c = mc_choose(mc_thorough ? 13 : 11);
        o->ar = nar > 1 ? mc_choose(nar) : 0;
        o->arg = 0;
        if (c < 4) { o->op = O_ALLOC; o->arg = c; }
        else if (c == 4) { o->op = O_FIT; o->arg = 0; }
        else if (c == 5) { o->op = O_OVER; o->arg = 0; }
        else if (c == 6) { o->op = O_CALLOC; o->arg = 0; }
        else if (c == 7) { o->op = O_CALLOC; o->arg = 1; }
        else if (c == 8) o->op = O_CLEAR;
        else if (c == 9) o->op = O_FREE;
        else if (c == 10) o->op = O_MANY;
        else if (c == 11) { o->op = O_FIT; o->arg = 1; }
        else { o->op = O_ALLOC; o->arg = 5; }
    }
}
static void gen1(void) { nar = 1; kinds[0] = mc_choose(NKINDS); gen_ops(mc_choose(mc_thorough ? 7 : 6)); }
static void gen2(void) { nar = 2; kinds[0] = mc_choose(NKINDS); kinds[1] = mc_choose(NKINDS); gen_ops(mc_choose(mc_thorough ? 5 : 4)); }
static void gen3(void) { nar = 3; kinds[0] = mc_choose(2); kinds[1] = 1; kinds[2] = 3; gen_ops(mc_choose(mc_thorough ? 5 : 4)); }
/* every size, on a new arena, one in use, and one cleared; what follows must still fit together */
static long szn; static int szpre, szzero;
static void run_sizes(void) {
    int k;
    memset(m, 0, sizeof m);
    mc_alloc_reset();
    serial = szn & 255;
    open_(0);
    if (szpre) grab(0, 1, szpre == 1 ? 5 : 11000, 0);
    if (szpre == 2) { m[0].nb = 0; arena_clear(m[0].a); mc_check(arena_capacity(m[0].a) == 0, "a cleared arena still has room in its old memory"); }
    for (k = 0; k < 3; k++) {
        if (szzero == 2) grab(0, szn, 3, 1); else grab(0, 1, szn, szzero);
        check_all("after an allocation");
        grab(0, 1, 1 + k, 0);
        check_all("after a small allocation");
        mc_state(mc_mix(mc_mix(szn * 12 + kinds[0], arena_capacity(m[0].a)), arena_total(m[0].a)));
        mc_outcome(mc_mix(arena_capacity(m[0].a), arena_total(m[0].a)));
    }
    close_(0);
    mc_alloc_verify("at the end");
    { arena_t d = arena_init(1); arena_alloc(d, 9 << 20); arena_free(d); }
    mc_alloc_verify("at the end");
    mc_check(mc_alloc_live() == 0, "%ld blocks are lost to every arena", mc_alloc_live());
}
static void gen_sizes(void) {
    static const long mid[] = {4096, 8192, 10240, 16384, 32768, 65536, 131072, 1 << 20};
    int c;
    nar = 1; kinds[0] = mc_choose(NKINDS); szpre = mc_choose(3); szzero = mc_choose(3);
    c = mc_choose(mc_thorough ? 1024 + 8 * 64 : 520 + 8 * 16);
    if (c < (mc_thorough ? 1024 : 520)) szn = c + 1;
    else { int w = mc_thorough ? 64 : 16; c -= mc_thorough ? 1024 : 520; szn = mid[c / w] - w / 2 + c % w; }
}
static void show_sizes(FILE *f) {
    fprintf(f, "threshold %d, %s: three allocations of %ld %s\n", thresholds[kinds[0]], szpre == 0 ? "new" : szpre == 1 ? "in use" : "cleared", szn, szzero == 2 ? "x 3 zeroed bytes" : szzero ? "zeroed bytes" : "bytes");
}
static void show(FILE *f) {
    static const char *names[] = {"alloc", "alloc what fits, less", "alloc more than fits, by 1 +", "calloc", "clear", "free and open another", "alloc 12 large"};
    int i;
    for (i = 0; i < nar; i++) fprintf(f, "arena %d: threshold %d%s\n", i, thresholds[kinds[i]], thresholds[kinds[i]] < 0 ? " (of a scope)" : "");
    for (i = 0; i < nops; i++) {
        fprintf(f, "%s", names[ops[i].op]);
        if (ops[i].op == O_ALLOC) fprintf(f, " %ld", sizes[ops[i].arg]); else if (ops[i].op == O_CALLOC) fprintf(f, " %ld x %ld", cals[ops[i].arg][0], cals[ops[i].arg][1]); else fprintf(f, " %d", ops[i].arg);
        fprintf(f, " (arena %d)\n", ops[i].ar);
    }
}
static void init(void) { raii_init(); ex_signal_setup(); mc_crash_handlers(); }
mc_suite mc_suites[] = {{"one arena", init, gen1, run, show, 0}, {"two arenas", init, gen2, run, show, 0}, {"three arenas", init, gen3, run, show, 0}, {"sizes", init, gen_sizes, run_sizes, show_sizes, 0}, {0}};

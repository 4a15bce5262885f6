/*
 * Functions made with block() ... blocked / unblocked(), with results of many types, left in every
 * way, nested by recursion and lexically, called once, twice and hundreds of times.
 */
#include "raii.h"
#include "mc.h"
EX_EXCEPTION(fell);

enum { W_END, W_BREAK, W_CONTINUE, W_RETURN, W_FELL, W_RECOVER, NW };
static const char *wname[] = {"end", "break", "continue", "_return", "throw", "throw, recovered"};
enum { T_VOID, T_INT, T_CHAR, T_LL, T_DOUBLE, T_FLOAT, T_PTR, T_BIG, T_SMALL, T_NEST, NTYPES };
static const char *tname[] = {"void", "int", "signed char", "long long", "double", "float", "void *", "a struct of 72 bytes", "a struct of 16 bytes", "int, guards nested in the function"};
#define MAXD 12
static int depth, ways[MAXD], ndef[MAXD], type, times, ndepth_;
typedef struct { long a[9]; } big;
typedef struct { double d; int i; } small;

static struct { int what, level; } ev[1024], mo[1024];
static int nev, nmo;
enum { V_DEFER = 1, V_FREE, V_VALUE, V_CAUGHT };
static void note(int what, int level) { if (nev < 1024) { ev[nev].what = what; ev[nev].level = level; } nev++; }
static void mnote(int what, int level) { if (nmo < 1024) { mo[nmo].what = what; mo[nmo].level = level; } nmo++; }
static unsigned char *blk[MAXD];
static void on_free(void *p) { int i; for (i = 0; i < MAXD; i++) if (blk[i] == p) { blk[i] = NULL; note(V_FREE, i); } }
static int recs[MAXD * 4];
static void deferred_(void *p) {
    int v = *(int *)p;
    note(V_DEFER, v);
}
static void recover_(void *p) { if (_get_message()) _recover(_get_message());(void)p; }
/* in the guard of level l */
#define ENTER(l) do { int i_; \
    if (ways[l] == W_RECOVER) _defer(recover_, NULL); \
    for (i_ = 0; i_ < ndef[l]; i_++) { recs[(l) * 4 + i_] = (l) * 4 + i_; _defer(deferred_, &recs[(l) * 4 + i_]); } \
    _assign_ptr(mine_); blk[l] = (l) & 1 ? malloc_by(mine_, 40) : _malloc(40); memset(blk[l], 7, 40); } while (0)
#define LEAVE(l, value) if (ways[l] == W_BREAK) break; if (ways[l] == W_CONTINUE) continue; if (ways[l] == W_RETURN) { _return(value); } \
    if (ways[l] == W_FELL || ways[l] == W_RECOVER) throw(fell)

static int seed_of(int l, int returned) { return l * 37 + (returned ? 5 : 3) + 1000 * type; }
#define DEF(tag, type_, make, same) \
    static type_ mk_##tag(int s) { type_ v; memset(&v, 0, sizeof v); make; return v; } \
    static void call_##tag(int l); \
    block(type_, f_##tag, int l, double unused, const char *name) \
        ENTER(l); \
        if (l + 1 < depth) call_##tag(l + 1); \
        mc_check(unused == l + .5 && name == wname[ways[l]], "the arguments changed"); \
        LEAVE(l, mk_##tag(seed_of(l, 1))); \
    unblocked(mk_##tag(seed_of(l, 0))) \
    static void call_##tag(int l) { \
        type_ v = f_##tag(l, l + .5, wname[ways[l]]); \
        int s = seed_of(l, ways[l] == W_RETURN); (void)s; \
        mc_check(same, "the value of level %d is not what it returned", l); \
        note(V_VALUE, l); \
    }
DEF(int, int, v = -s * 65537, v == -s * 65537)
DEF(char, signed char, v = (signed char)(s % 100 - 90), v == (signed char)(s % 100 - 90))
DEF(ll, long long, v = -s * 0x100000003ll, v == -s * 0x100000003ll)
DEF(double, double, v = s / 3., v == s / 3.)
DEF(float, float, v = s / 4.f, v == s / 4.f)
DEF(ptr, void *, v = (char *)recs + s, v == (void *)((char *)recs + s))
DEF(big, big, { int i_; for (i_ = 0; i_ < 9; i_++) v.a[i_] = (long)s << (i_ * 3); }, v.a[0] == s && v.a[4] == (long)s << 12 && v.a[8] == (long)s << 24)
DEF(small, small, (v.d = s, v.i = -s), v.d == s && v.i == -s)

static void call_void(int l);
block(void, f_void, int l)
    ENTER(l);
    if (l + 1 < depth) call_void(l + 1);
    LEAVE(l, NONE);
blocked
static void call_void(int l) { f_void(l); note(V_VALUE, l); }

/* three guards, each in the one before, in one function */
static int f_nest(void)
guard {
    ENTER(0);
    if (depth > 1) {
        guard {
            ENTER(1);
            if (depth > 2) {
                guard {
                    ENTER(2);
                    if (ways[2] == W_BREAK) break;
                    if (ways[2] == W_CONTINUE) continue;
                    if (ways[2] >= W_FELL) throw(fell);
                } guarded
                note(V_VALUE, 2);
            }
            if (ways[1] == W_BREAK) break;
            if (ways[1] == W_CONTINUE) continue;
            if (ways[1] >= W_FELL) throw(fell);
        } guarded
        note(V_VALUE, 1);
    }
    LEAVE(0, seed_of(0, 1));
} unguarded(seed_of(0, 0))
static void call_nest(int l) {
    int v = f_nest();
    mc_check(v == seed_of(0, ways[0] == W_RETURN), "the value is %d", v);
    note(V_VALUE, l);
}

static void (*const calls[])(int) = {call_void, call_int, call_char, call_ll, call_double, call_float, call_ptr, call_big, call_small, call_nest};

/* 1 when an exception leaves level l */
static int model(int l) {
    int i, fell_ = l + 1 < depth && model(l + 1);
    if (!fell_) fell_ = ways[l] == W_FELL || ways[l] == W_RECOVER;
    for (i = ndef[l] - 1; i >= 0; i--) mnote(V_DEFER, l * 4 + i);
    mnote(V_FREE, l);
    if (fell_ && ways[l] != W_RECOVER) return 1;
    mnote(V_VALUE, l);
    return 0;
}
static void __attribute__((noinline)) scribble(int c) { volatile char junk[8192]; memset((void *)junk, c, sizeof junk); __asm__ volatile("" : : "r"(junk) : "memory"); }
/* the memory of a scope is released by a deferred function, which is the newest */
static int in_order(void) {
    int i, k, seen[2048];
    if (nev != nmo || nev > 1024) return 0;
    /* a block goes somewhere between the first deferred function of its level and its value */
    memset(seen, 0, sizeof seen);
    for (i = k = 0; i < nmo; i++) if (mo[i].what != V_FREE) {
        while (k < nev && ev[k].what == V_FREE) k++;
        if (k >= nev || ev[k].what != mo[i].what || ev[k].level != mo[i].level) return 0;
        k++;
    }
    for (i = k = 0; i < nev; i++) if (ev[i].what == V_FREE) k++; else if (ev[i].what == V_VALUE) mc_check(blk[ev[i].level] == NULL, "the memory of level %d is not released", ev[i].level);
    return 1;
}
void forms_run(void) {
    ex_context_t *before = ex_local();
    void *arena = raii_local()->arena;
    volatile int t;
    int i;
    uint64_t h = 7;
    mc_alloc_reset();
    mc_on_free = on_free;
    nmo = 0;
    if (model(0)) mnote(V_CAUGHT, 0);
    for (t = 0; t < times; t++) {
        nev = 0;
        memset(blk, 0, sizeof blk);
        scribble(t & 1 ? 0xff : 0x01);
        try { calls[type](0); } catch (fell) { note(V_CAUGHT, 0); } end_try;
        mc_check(in_order(), "call %d: what ran is not what should, %d events for %d", t, nev, nmo);
        for (i = 0; i < depth; i++) mc_check(blk[i] == NULL, "the memory of level %d is not released", i);
        mc_check(ex_local() == before, "call %d: the handler before is not the one after", t);
        mc_check(raii_local()->arena == arena, "call %d: the scope before is not the one after", t);
        mc_check(mc_alloc_live() == 0, "call %d: %ld blocks are never released", t, mc_alloc_live());
        mc_steps(nev);
    }
    mc_on_free = NULL;
    mc_alloc_verify("at the end");
    for (i = 0; i < nev; i++) h = mc_mix(h, ev[i].what * 64 + ev[i].level);
    mc_outcome(h); mc_state(mc_mix(h, type));
}
void forms_gen(void) {
    int i;
    type = mc_choose(NTYPES);
    times = mc_choose(2) ? 2 : 1;
    depth = 1 + mc_choose(mc_thorough ? 4 : 3); if (type == T_NEST && depth > 3) mc_skip();
    for (i = 0; i < depth; i++) {
        ways[i] = mc_choose(NW);
        if (type == T_NEST && i > 0 && ways[i] == W_RETURN) mc_skip();
        ndef[i] = mc_choose(4);
    }
}
/* very often, and deep */
void forms_gen_often(void) {
    int i, w = mc_choose(NW), w2 = mc_choose(NW);
    type = mc_choose(NTYPES);
    depth = mc_choose(2) ? 1 : type == T_NEST ? 3 : MAXD;
    times = depth == 1 ? 300 : 40;
    for (i = 0; i < depth; i++) { ways[i] = i & 1 ? w2 : w; ndef[i] = 1 + (i % 3); if (type == T_NEST && i > 0 && ways[i] == W_RETURN) mc_skip(); }
    if (depth == 1 && w2) mc_skip();
}
void forms_show(FILE *f) {
    int i;
    fprintf(f, "block of type %s, called %d times\n", tname[type], times);
    for (i = 0; i < depth; i++) fprintf(f, "level %d: %d deferred functions, left by %s\n", i, ndef[i], wname[ways[i]]);
}
void forms_init(void) { ex_signal_setup(); raii_init(); mc_crash_handlers(); try { throw(fell); } catch (fell) { (void)err; } end_try; }

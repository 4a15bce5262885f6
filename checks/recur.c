/* Hundreds of levels: one function that calls itself, each level of a kind, and what passes through all of them. */
#include "raii.h"
#include "mc.h"
#include "recur.h"
#include <sys/resource.h>
enum { K_PLAIN, K_TRY, K_FINALLY, K_AGAIN, K_OTHER, K_PROT, K_GUARD, K_DEFER2, NK, K_CATCH, K_RECOVER };
static const char *kname[] = {"a call", "try { } catch(C)", "try { } finally", "try { } catch_any { rethrow }", "try { } catch_any { throw the other }",
    "protected", "guard { allocate, defer }", "guard { allocate, defer, defer }", "", "try { } catch_any", "guard { defer(recover) }"};
enum { END_RETURN, END_A, END_PANIC, NEND };
static const char *ename[] = {"returns", "throw(A)", "panic"};
enum { V_AFTER, V_CATCH, V_FINALLY, V_DTOR, V_DEFER, V_RECOVER, V_TOP, V_BLOCK };
static const char *vname[] = {"after the statement", "catch", "finally", "destructor", "deferred function", "recovered", "outermost catch", "release"};
EX_EXCEPTION(C);
#define DEEP 2100
static int family, depth, pat[3], period, where, special, ending;
static int kind_[DEEP + 1], recs[DEEP + 1];
static void *vars[DEEP + 1];
static int objs[DEEP + 1];
typedef struct { short what; int level, val; } event;
static event re[8 * DEEP + 8], me[8 * DEEP + 8];
static int nre, nme, extra;
#define PUT(a, n, w, l, v) do { if (n < 8 * DEEP) { a[n].what = w; a[n].level = l; a[n].val = v; } n++; } while (0)
static void note(int w, int l, int v) { PUT(re, nre, w, l, v); }
static int name_of(const char *s) { return !s ? 9 : !strcmp(s, "A") ? 1 : !strcmp(s, "B") ? 2 : !strcmp(s, "deep") || !strcmp(s, "panic") ? 3 : 8; }
static void deferred(void *p) { note(V_DEFER, *(int *)p, 0); }
static void deferred2(void *p) { note(V_DEFER, *(int *)p, 2); }
static void recover_(void *p) { note(V_RECOVER, *(int *)p, name_of(_get_message())); _recover(_get_message()); }
static void dtor(void *p) { note(V_DTOR, *(int *)p, 0); }
/* each kind in a function of its own, so that a level is no larger than it has to be */
static void down(int l);
#define KIND(k, ...) static __attribute__((noinline, noclone)) void k##_(int l) { __VA_ARGS__ }
KIND(K_PLAIN, down(l + 1); note(V_AFTER, l, 0);)
KIND(K_TRY, try { down(l + 1); } catch (C) { note(V_CATCH, l, 77); } end_try; note(V_AFTER, l, 0);)
KIND(K_FINALLY, try { down(l + 1); } finally { note(V_FINALLY, l, 0); } end_try; note(V_AFTER, l, 0);)
KIND(K_AGAIN, try { down(l + 1); } catch_any { note(V_CATCH, l, name_of(err)); rethrow(); } end_try; note(V_AFTER, l, 0);)
KIND(K_OTHER, try { down(l + 1); } catch_any { note(V_CATCH, l, name_of(err)); if (l & 1) throw(A); else throw(B); } end_try; note(V_AFTER, l, 0);)
KIND(K_CATCH, try { down(l + 1); } catch_any { note(V_CATCH, l, name_of(err)); } end_try; note(V_AFTER, l, 0);)
KIND(K_PROT, void *p = &objs[l]; protected(p, dtor); down(l + 1); unprotected(p); note(V_AFTER, l, 0);)
KIND(K_GUARD, guard { _defer(deferred, &recs[l]); vars[l] = _malloc(24); down(l + 1); } guarded; note(V_AFTER, l, 0);)
KIND(K_DEFER2, guard { vars[l] = _calloc(3, 5); _defer(deferred, &recs[l]); _defer(deferred2, &recs[l]); down(l + 1); } guarded; note(V_AFTER, l, 0);)
KIND(K_RECOVER, guard { _defer(recover_, &recs[l]); down(l + 1); } guarded; note(V_AFTER, l, 0);)
static __attribute__((noinline, noclone)) void down(int l) {
    if (l == depth) {
        if (ending == END_A) throw(A);
        if (ending == END_PANIC) raii_panic("deep");
        return;
    }
    switch (kind_[l]) {
        case K_PLAIN: K_PLAIN_(l); break;
        case K_TRY: K_TRY_(l); break;
        case K_FINALLY: K_FINALLY_(l); break;
        case K_AGAIN: K_AGAIN_(l); break;
        case K_OTHER: K_OTHER_(l); break;
        case K_CATCH: K_CATCH_(l); break;
        case K_PROT: K_PROT_(l); break;
        case K_GUARD: K_GUARD_(l); break;
        case K_DEFER2: K_DEFER2_(l); break;
        case K_RECOVER: K_RECOVER_(l); break;
    }
}
/* what the rules say: the exception in flight, or 0 */
static void model(void) {
    int l, e = ending == END_A ? 1 : ending == END_PANIC ? 3 : 0;
    nme = 0;
    for (l = depth - 1; l >= 0; l--) {
        switch (kind_[l]) {
            case K_FINALLY: PUT(me, nme, V_FINALLY, l, 0); break;
            case K_AGAIN: if (e) PUT(me, nme, V_CATCH, l, e); break;
            case K_OTHER: if (e) { PUT(me, nme, V_CATCH, l, e); e = l & 1 ? 1 : 2; } break;
            case K_CATCH: if (e) { PUT(me, nme, V_CATCH, l, e); e = 0; } break;
            case K_PROT: if (e) PUT(me, nme, V_DTOR, l, 0); break;
            case K_GUARD: PUT(me, nme, V_DEFER, l, 0); break;
            case K_DEFER2: PUT(me, nme, V_DEFER, l, 2); PUT(me, nme, V_DEFER, l, 0); break;
            case K_RECOVER: PUT(me, nme, V_RECOVER, l, e ? e : 9); e = 0; break;
        }
        if (!e) PUT(me, nme, V_AFTER, l, 0);
    }
    if (e) PUT(me, nme, V_TOP, 0, e);
}
/* destructors run when the exception leaves the try that is next outside, in any case before anything else of it runs */
void recur_gen(void) {
    static const int depths[] = {1, 2, 3, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2049};
    static const int kinds[4][6] = {{K_TRY, K_FINALLY, K_AGAIN, K_OTHER, K_PLAIN, K_GUARD}, {K_PROT, K_TRY, K_AGAIN, K_FINALLY, K_OTHER, K_GUARD},
        {K_GUARD, K_DEFER2, K_PLAIN, K_FINALLY, K_AGAIN, K_PROT}, {K_GUARD, K_TRY, K_DEFER2, K_AGAIN, K_OTHER, K_PLAIN}};
    int i, nd = sizeof depths / sizeof *depths;
    if (!mc_thorough) { static const int few[] = {0, 2, 5, 8, 12, 13, 15, 16, 17, 18, 19, 21, 22, 25, 26, 27}; depth = depths[few[mc_choose(16)]]; }
    else depth = depths[mc_choose(nd)];
    period = mc_thorough ? 3 : 2;
    for (i = 0; i < period; i++) pat[i] = kinds[family][mc_choose(6)];
    ending = mc_choose(NEND);
    special = mc_choose(3);     /* nothing stops it; a catch; a guard that recovers */
    where = special ? mc_choose(3) : 0;
    where = where == 0 ? 0 : where == 1 ? depth / 2 : depth - 1;
    for (i = 0; i < depth; i++) kind_[i] = pat[i % period];
    if (special) kind_[where] = special == 1 ? K_CATCH : K_RECOVER;
    model();
}
void recur_run(void) {
    ex_context_t *before = ex_local();
    void *arena = raii_local()->arena, *stack = before->stack;
    int i, n;
    for (i = 0; i <= depth; i++) recs[i] = objs[i] = i;
    mc_alloc_reset();
    nre = 0;
    try { down(0); } catch_any { note(V_TOP, 0, name_of(err)); } end_try;
    n = nre < nme ? nre : nme;
    for (i = 0; i < n; i++) if (re[i].what != me[i].what || re[i].level != me[i].level || re[i].val != me[i].val)
        mc_fail("event %d of %d is %s in level %d (%d), not %s in level %d (%d)", i, nme, vname[re[i].what], re[i].level, re[i].val, vname[me[i].what], me[i].level, me[i].val);
    mc_check(nre >= nme, "%d events for %d: %s in level %d is missing", nre, nme, vname[me[nre < nme ? nre : 0].what], me[nre < nme ? nre : 0].level);
    mc_check(nre <= nme, "%d events for %d", nre, nme);
    mc_check(ex_local() == before, "the handler before is not the one after");
    mc_check(before->stack == stack, "the protected pointers before are not those after");
    mc_check(raii_local()->arena == arena, "the scope before is not the one after");
    mc_alloc_verify("at the end");
    mc_check(mc_alloc_live() == 0, "%ld blocks are never released", mc_alloc_live());
    mc_outcome(nre * 16 + ending * 3 + special);
    mc_state(mc_mix(mc_mix(depth, pat[0] * 16 + pat[1]), where * 16 + special * 4 + ending));
    mc_steps(depth);
    (void)extra;
}
void recur_show(FILE *f) {
    int i;
    fprintf(f, "%d levels, in turn", depth);
    for (i = 0; i < period; i++) fprintf(f, "%s %s", i ? "," : "", kname[pat[i]]);
    fprintf(f, "; the last %s", ename[ending]);
    if (special) fprintf(f, "; level %d is %s", where, kname[special == 1 ? K_CATCH : K_RECOVER]);
    fprintf(f, "\n");
}
/* room for the levels, however large they are: the stack grows as far as the limit of the moment */
static void room(void) { struct rlimit r; if (getrlimit(RLIMIT_STACK, &r) == 0) { rlim_t want = 100u << 20; if (r.rlim_cur < want) { r.rlim_cur = r.rlim_max < want ? r.rlim_max : want; setrlimit(RLIMIT_STACK, &r); } } }
static void init(int k) { family = k; room(); ex_signal_setup(); raii_init(); mc_crash_handlers(); try { throw(A); } catch_any { (void)err; } end_try; }
void recur_try(void) { init(0); }
void recur_protect(void) { init(1); }
void recur_guard(void) { init(2); }
void recur_recover(void) { init(3); }

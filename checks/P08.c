#include "prog.h"
#include "recur.h"
static void gen_recover(void) {
    memset(&G, 0, sizeof G);
    G.budget = mc_thorough ? 7 : 6; G.depth = 3; G.guards = 1;
    SET(x, X_A, X_PANIC_A);
    SET(t, T_ANY);
    SET(d, D_LOG, D_RECOVER, D_RECOVER_WRONG);
    prog_gen();
}
static void gen_names(void) {
    memset(&G, 0, sizeof G);
    G.budget = mc_thorough ? 6 : 5; G.depth = 3; G.guards = 1; G.rethrow = 1;
    SET(x, X_A, X_B, X_PANIC, X_PANIC_A);
    SET(t, T_A, T_ANY_F, T_IF, T_IF_F);
    SET(d, D_LOG, D_RECOVER, D_RECOVER_A, D_CAUGHT_A, D_ISCAUGHT_A, D_RECOVER_WRONG, D_THROW, D_TRY, D_PANIC);
    prog_gen();
}
/* guards in guards, deep, one of which recovers, or asks */
static void gen_deep(void) {
    static const level kinds[] = {{S_GUARD, 0, 0, 1, D_LOG}, {S_GUARD, 1, 0, 2, D_RECOVER_WRONG}, {S_TRY, T_F}, {S_TRY, T_A_F, IN_CLAUSE}, {S_TRY, T_F, IN_LAST}, {S_GUARD, 0, 0, 1, D_TRY}};
    static const level special[] = {{S_GUARD, 0, 0, 2, D_RECOVER}, {S_GUARD, 1, 0, 1, D_RECOVER_A}, {S_GUARD, 0, 0, 1, D_CAUGHT_A}, {S_GUARD, 0, 0, 1, D_ISCAUGHT_A}, {S_GUARD, 1, 0, 2, D_THROW}, {S_GUARD, 0, 0, 1, D_PANIC}};
    static const int ends[] = {-1, 100 + X_A, 100 + X_B, 100 + X_PANIC, 100 + X_PANIC_A, S_RETHROW};
    deep_gen(kinds, 6, special, 6, ends, 6, 33);
}
/* many in one guard */
static void gen_wide(void) {
    static const level outer[] = {{S_GUARD, 0, 0, 0}, {S_GUARD, 1, 0, 2, D_RECOVER_A}};
    static const int kinds[][2] = {{S_DEFER, D_LOG}, {S_DEFER, D_RECOVER}, {S_DEFER, D_CAUGHT_A}, {S_DEFER, D_RECOVER_WRONG}, {S_DEFER, D_TRY}, {S_ALLOC, 0}};
    static const int ends[] = {-1, 100 + X_A, 100 + X_PANIC, 100 + X_PANIC_A};
    wide_gen(outer, 2, kinds, 6, ends, 4, 36);
}
/* Names that differ in one place only: cut, longer, one byte changed, another case. */
static char base_[32], asked[40];
static int how_thrown, how_asked, said, sm_len, sm_var, sm_at;
static void sm_deferred(void *p) {
    const char *m = _get_message();
    (void)p;
    mc_check(m && !strcmp(m, base_), "the message is %s, not %s", m ? m : "(none)", base_);
    switch (how_asked) {
        case 0: said = _recover(asked); break;
        case 1: said = raii_caught(asked); break;
        case 2: said = raii_is_caught((memory_t *)raii_local()->arena, asked); break;
    }
}
static void sm_guarded(void)
guard {
    _defer(sm_deferred, NULL);
    if (how_thrown) ex_throw(base_, "f", 1, "g", NULL, NULL);
    raii_panic(base_);
} guarded
static void gen_similar(void) {
    static const int lens[] = {1, 2, 3, 7, 8, 9, 12, 15, 16, 17, 23, 24, 25};
    int i, l = lens[mc_choose(13)];
    for (i = 0; i < l; i++) base_[i] = "division_by_Zero_of_panic"[i];
    base_[l] = 0;
    strcpy(asked, base_);
    sm_len = l;
    switch (sm_var = mc_choose(5)) {
        case 0: break;
        case 1: asked[sm_at = mc_choose(l)] = 0; break;
        case 2: sm_at = 1 + mc_choose(9); for (i = 0; i < sm_at; i++) asked[l + i] = base_[0]; asked[l + i] = 0; break;
        case 3: asked[sm_at = mc_choose(l)] ^= mc_choose(2) ? 0x20 : 0x80; break;
        case 4: memmove(asked + 1, asked, l + 1); asked[0] = base_[0] == 'x' ? 'y' : 'x'; break;
    }
    how_thrown = mc_choose(2); how_asked = mc_choose(3);
}
static void run_similar(void) {
    volatile int arrived = 0, same = !strcmp(base_, asked);
    said = -1;
    mc_alloc_reset();
    try { sm_guarded(); } catch_any { arrived = 1; mc_check(!strcmp(raii_message(), base_), "another exception arrives"); } end_try;
    mc_check(said == same, "asked for \"%s\" with \"%s\" in flight: %d", asked, base_, said);
    mc_check(arrived == !same, "asked for \"%s\" with \"%s\" in flight, the exception %s", asked, base_, arrived ? "goes on" : "is stopped");
    mc_state(mc_mix(mc_mix(sm_len, sm_var), sm_at));
    mc_outcome(mc_mix(same, arrived));
    mc_steps(3);
}
static void show_similar(FILE *f) { fprintf(f, "thrown \"%s\" (%s), asked for \"%s\" (way %d)\n", base_, how_thrown ? "name" : "message", asked, how_asked); }
mc_suite mc_suites[] = {{"similar", prog_init, gen_similar, run_similar, show_similar, 0}, {"recover", prog_init, gen_recover, prog_run, prog_show, 0}, {"names", prog_init, gen_names, prog_run, prog_show, 0}, {"deep", prog_init, gen_deep, prog_run, prog_show, 0}, {"wide", prog_init, gen_wide, prog_run, prog_show, 0}, {"hundreds of levels", recur_recover, recur_gen, recur_run, recur_show, 0}, {0}};

#include "prog.h"
#include "recur.h"
static void gen_few(void) {
    memset(&G, 0, sizeof G);
    G.budget = mc_thorough ? 7 : 6; G.depth = 4; G.rethrow = 1;
    SET(x, X_A, X_PANIC);
    SET(t, T_A, T_ANY_F, T_F);
    prog_gen();
}
static void gen_all(void) {
    memset(&G, 0, sizeof G);
    G.budget = mc_thorough ? 5 : 4; G.depth = 3; G.rethrow = 1;
    SET(x, X_A, X_B, X_PANIC);
    SET(t, T_A, T_ANY, T_A_F, T_ANY_F, T_F, T_NONE, T_A_B, T_A_ANY_F, T_PANIC, T_IF, T_IF_F, T_A_B_ANY);
    prog_gen();
}
static void gen_forms(void) {
    memset(&G, 0, sizeof G);
    G.budget = mc_thorough ? 6 : 5; G.depth = 3; G.rethrow = 1;
    SET(x, X_A, X_B, X_PANIC, X_PANIC_A);
    SET(t, T_A_F, T_FINALITY, T_IF_IF, T_IF_ANY_F, T_A_IF);
    prog_gen();
}
static void gen_guards(void) {
    memset(&G, 0, sizeof G);
    G.budget = mc_thorough ? 7 : 6; G.depth = 4; G.rethrow = 1; G.guards = 1;
    SET(x, X_A, X_B);
    SET(t, T_A_F, T_ANY);
    SET(d, D_LOG);
    prog_gen();
}
/* deep nesting, in bodies, clauses and finally blocks */
static void gen_deep(void) {
    static const level kinds[] = {{S_TRY, T_F}, {S_TRY, T_A_F, IN_CLAUSE}, {S_TRY, T_ANY, IN_CLAUSE}, {S_TRY, T_A}, {S_TRY, T_F, IN_LAST}, {S_TRY, T_A_F, IN_LAST, 1}, {S_GUARD, 0, 0, 1, D_LOG}};
    static const level special[] = {{S_TRY, T_ANY_F}, {S_TRY, T_A_B_ANY}, {S_TRY, T_NONE}, {S_TRY, T_PANIC}, {S_TRY, T_IF_F}};
    static const int ends[] = {-1, 100 + X_A, 100 + X_B, 100 + X_PANIC, S_RETHROW};
    hmode = 0;
    deep_gen(kinds, 7, special, 5, ends, 5, 33);
}
/* many tries one after the other */
static void gen_wide(void) {
    static const level outer[] = {{S_TRY, T_ANY_F}, {S_TRY, T_ANY_F, IN_LAST}, {S_TRY, T_A, IN_CLAUSE}, {S_GUARD, 0, 0, 1, D_LOG}};
    static const int kinds[][2] = {{S_TRY, T_A}, {S_TRY, T_F}, {S_TRY, T_NONE}, {S_GUARD, 0}, {S_GUARD, 1}};
    static const int ends[] = {-1, 100 + X_A, 100 + X_PANIC};
    wide_gen(outer, 4, kinds, 5, ends, 3, 36);
}
mc_suite mc_suites[] = {{"nesting", prog_init, gen_few, prog_run, prog_show, 0}, {"clauses", prog_init, gen_all, prog_run, prog_show, 0},
    {"forms", prog_init, gen_forms, prog_run, prog_show, 0},
    {"with guards", prog_init, gen_guards, prog_run, prog_show, 0}, {"deep", prog_init, gen_deep, prog_run, prog_show, 0}, {"wide", prog_init, gen_wide, prog_run, prog_show, 0}, {"hundreds of levels", recur_try, recur_gen, recur_run, recur_show, 0}, {0}};

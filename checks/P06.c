#include "prog.h"
#include "recur.h"
/* pointers protected and unprotected one by one */
static void gen_flat(void) {
    memset(&G, 0, sizeof G);
    G.budget = mc_thorough ? 8 : 7; G.depth = 2; G.protects = 2;
    SET(x, X_A);
    SET(t, T_ANY);
    prog_gen();
}
/* protection that opens and closes with a block, inside and around tries and guards */
static void gen_blocks(void) {
    memset(&G, 0, sizeof G);
    G.budget = mc_thorough ? 6 : 5; G.depth = 4; G.rethrow = 1; G.prot_blocks = 1; G.guards = 1; G.allocs = 1;
    SET(x, X_A);
    SET(t, T_A_F, T_ANY);
    SET(d, D_LOG);
    prog_gen();
}
static void gen_mixed(void) {
    memset(&G, 0, sizeof G);
    G.budget = mc_thorough ? 6 : 5; G.depth = 3; G.protects = 1; G.prot_blocks = 1; G.rethrow = 1;
    SET(x, X_A, X_B);
    SET(t, T_A, T_ANY_F, T_NONE);
    prog_gen();
}
/* deep nesting */
static void gen_deep(void) {
    static const level kinds[] = {{S_PROT, 0}, {S_TRY, T_F}, {S_TRY, T_A_F, IN_CLAUSE}, {S_TRY, T_A}, {S_GUARD, 0, 0, 2, D_LOG}};
    static const level special[] = {{S_TRY, T_ANY_F}, {S_TRY, T_NONE}, {S_TRY, T_ANY, IN_CLAUSE}, {S_GUARD, 0, 0, 1, D_RECOVER}};
    static const int ends[] = {-1, 100 + X_A, 100 + X_B, S_RETHROW};
    deep_gen(kinds, 5, special, 4, ends, 4, 33);
}
/* many pointers protected in one block, some given up, set to NULL or elsewhere */
static void gen_wide(void) {
    static const level outer[] = {{S_TRY, T_ANY}, {S_PROT, 0}, {S_TRY, T_A_F, IN_CLAUSE}, {S_GUARD, 0, 0, 1, D_LOG}};
    static const int kinds[][2] = {{S_PROTECT, 0}, {S_PROTECT, 1}, {S_UNPROTECT, 0}, {S_NULLIFY, 0}, {S_REASSIGN, 0}, {S_PROT, 0}};
    static const int ends[] = {-1, 100 + X_A};
    wide_gen(outer, 4, kinds, 6, ends, 2, 36);
}
mc_suite mc_suites[] = {{"one by one", prog_init, gen_flat, prog_run, prog_show, 0}, {"blocks", prog_init, gen_blocks, prog_run, prog_show, 0},
    {"mixed", prog_init, gen_mixed, prog_run, prog_show, 0}, {"deep", prog_init, gen_deep, prog_run, prog_show, 0}, {"wide", prog_init, gen_wide, prog_run, prog_show, 0}, {"hundreds of levels", recur_protect, recur_gen, recur_run, recur_show, 0}, {0}};

#include "prog.h"
#include "recur.h"
/* every way out of a guard, nested */
static void gen_exits(void) {
    memset(&G, 0, sizeof G);
    G.budget = mc_thorough ? 7 : 6; G.depth = 3; G.guards = 1; G.exits = 1; G.allocs = 1;
    SET(x, X_A);
    SET(t, T_ANY);
    SET(d, D_LOG);
    prog_gen();
}
/* deferred functions that do more than log */
static void gen_deferred(void) {
    memset(&G, 0, sizeof G);
    G.budget = mc_thorough ? 6 : 5; G.depth = 3; G.guards = 1; G.exits = 1; G.allocs = 1;
    SET(x, X_A, X_PANIC);
    SET(t, T_ANY, T_A_F);
    SET(d, D_LOG, D_NEST, D_THROW, D_TRY, D_GUARD);
    prog_gen();
}
/* longer lists within one guard */
static void gen_lists(void) {
    memset(&G, 0, sizeof G);
    G.budget = mc_thorough ? 9 : 8; G.depth = 1; G.guards = 1; G.exits = 1; G.allocs = 1;
    SET(x, X_A);
    SET(d, D_LOG, D_NEST);
    prog_gen();
}
/* guards in guards, deep */
static void gen_deep(void) {
    static const level kinds[] = {{S_GUARD, 0, 0, 1, D_LOG}, {S_GUARD, 1, 0, 2, D_NEST}, {S_TRY, T_F}, {S_TRY, T_ANY, IN_CLAUSE}, {S_TRY, T_F, IN_LAST}};
    static const level special[] = {{S_TRY, T_ANY}, {S_GUARD, 0, 0, 1, D_THROW}, {S_GUARD, 1, 0, 2, D_TRY}, {S_GUARD, 1, 0, 2, D_RECOVER}, {S_GUARD, 0, 0, 1, D_GUARD}};
    static const int ends[] = {-1, 100 + X_A, 100 + X_PANIC, S_BREAK, S_RETURN};
    deep_gen(kinds, 5, special, 5, ends, 5, 33);
}
/* many in one guard, one after the other */
static void gen_wide(void) {
    static const level outer[] = {{S_GUARD, 0, 0, 0}, {S_GUARD, 1, 0, 2, D_NEST}, {S_GUARD, 1, 0, 1, D_RECOVER}, {S_GUARD, 0, 0, 1, D_TRY}};
    static const int kinds[][2] = {{S_DEFER, D_LOG}, {S_DEFER, D_NEST}, {S_ALLOC, 0}, {S_GUARD, 0}, {S_GUARD, 1}};
    static const int ends[] = {-1, 100 + X_A, S_BREAK, S_RETURN};
    wide_gen(outer, 4, kinds, 5, ends, 4, 36);
}
/* P07b.c */
void forms_init(void); void forms_gen(void); void forms_gen_often(void); void forms_run(void); void forms_show(FILE *f);
mc_suite mc_suites[] = {{"exits", prog_init, gen_exits, prog_run, prog_show, 0}, {"deferred", prog_init, gen_deferred, prog_run, prog_show, 0},
    {"lists", prog_init, gen_lists, prog_run, prog_show, 0}, {"deep", prog_init, gen_deep, prog_run, prog_show, 0}, {"wide", prog_init, gen_wide, prog_run, prog_show, 0},
    {"forms", forms_init, forms_gen, forms_run, forms_show, 0}, {"often", forms_init, forms_gen_often, forms_run, forms_show, 0}, {"hundreds of levels", recur_guard, recur_gen, recur_run, recur_show, 0}, {0}};

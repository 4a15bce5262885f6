/* Programs of guards, tries, throws and deferred functions: what is registered in each guard, however it ends. */
#include "prog.h"
void guards_init(void) { prog_init(); }
void guards_run(void) { prog_run(); }
void guards_show(FILE *f) { prog_show(f); }
void guards_gen(void) {
    memset(&G, 0, sizeof G);
    G.budget = mc_thorough ? 6 : 5; G.depth = 3; G.guards = 1; G.exits = 1;
    SET(x, X_A);
    SET(t, T_ANY, T_F);
    SET(d, D_LOG, D_NEST, D_THROW, D_GUARD);
    prog_gen();
}
void guards_memory_gen(void) {
    memset(&G, 0, sizeof G);
    G.budget = mc_thorough ? 7 : 6; G.depth = 3; G.guards = 1; G.exits = 1; G.allocs = 1;
    SET(x, X_A);
    SET(t, T_ANY);
    SET(d, D_LOG, D_THROW);
    prog_gen();
}
static const level kinds[] = {{S_GUARD, 0, 0, 1, D_LOG}, {S_GUARD, 1, 0, 2, D_NEST}, {S_TRY, T_F}, {S_TRY, T_ANY, IN_CLAUSE}, {S_TRY, T_F, IN_LAST}};
static const level special[] = {{S_TRY, T_ANY}, {S_GUARD, 0, 0, 1, D_THROW}, {S_GUARD, 1, 0, 2, D_RECOVER}};
static const int ends[] = {-1, 100 + X_A, 100 + X_PANIC, S_BREAK, S_RETURN};
void guards_deep_gen(void) { deep_gen(kinds, 5, special, 3, ends, 5, 33); }
void guards_wide_gen(void) {
    static const level outer[] = {{S_GUARD, 0, 0, 0}, {S_GUARD, 1, 0, 2, D_NEST}, {S_GUARD, 0, 0, 1, D_THROW}};
    static const int kinds[][2] = {{S_DEFER, D_LOG}, {S_DEFER, D_NEST}, {S_DEFER, D_TRY}, {S_ALLOC, 0}, {S_GUARD, 0}};
    wide_gen(outer, 3, kinds, 5, ends, 5, 38);
}

#include "prog.h"
/* The application's setup and unwind functions, which see every exception that arrives at a handler of a try. */
static void gen_nest(void) {
    memset(&G, 0, sizeof G);
    hmode = 1 + mc_choose(NH - 1);
    G.budget = mc_thorough ? 6 : 5; G.depth = 4; G.rethrow = 1;
    SET(x, X_A, X_PANIC);
    SET(t, T_A, T_ANY_F);
    prog_gen();
}
static void gen_clauses(void) {
    memset(&G, 0, sizeof G);
    hmode = 1 + mc_choose(NH - 1);
    G.budget = mc_thorough ? 4 : 3; G.depth = 3; G.rethrow = 1;
    SET(x, X_A, X_B, X_PANIC, X_PANIC_A);
    SET(t, T_A, T_ANY, T_A_F, T_ANY_F, T_F, T_NONE, T_A_B, T_A_ANY_F, T_PANIC, T_IF, T_IF_F, T_A_B_ANY);
    prog_gen();
}
static void gen_guards(void) {
    memset(&G, 0, sizeof G);
    hmode = 1 + mc_choose(NH - 1);
    G.budget = mc_thorough ? 5 : 4; G.depth = 4; G.rethrow = 1; G.guards = 1; G.allocs = 1;
    SET(x, X_A, X_PANIC);
    SET(t, T_A_F, T_ANY);
    SET(d, D_LOG, D_THROW, D_RECOVER, D_TRY);
    prog_gen();
}
static void gen_protect(void) {
    memset(&G, 0, sizeof G);
    hmode = 1 + mc_choose(NH - 1);
    G.budget = mc_thorough ? 5 : 4; G.depth = 3; G.rethrow = 1; G.protects = 1; G.prot_blocks = 1; G.guards = 1;
    SET(x, X_A, X_B);
    SET(t, T_A_F, T_ANY);
    prog_gen();
}
static void gen_deep(void) {
    static const level kinds[] = {{S_TRY, T_F}, {S_TRY, T_A_F, IN_CLAUSE}, {S_TRY, T_ANY, IN_CLAUSE}, {S_PROT, 0}, {S_GUARD, 0, 0, 1, D_TRY}, {S_TRY, T_F, IN_LAST}};
    static const level special[] = {{S_TRY, T_ANY_F}, {S_GUARD, 0, 0, 1, D_RECOVER}};
    static const int ends[] = {-1, 100 + X_A, 100 + X_B, 100 + X_PANIC, S_RETHROW};
    hmode = 1 + mc_choose(NH - 1);
    deep_gen(kinds, 6, special, 2, ends, 5, 20);
}
/* every sequence of uses of the data: the first of them in the setup function, the others in the catch */
enum { U_SET, U_SET2, U_SWAP, U_SWAP2, U_SWAP_NULL, U_RESET, U_ASK, U_UNASK, NU };
static const char *uname[] = {"set a", "set b", "swap in c", "swap in d", "swap in NULL", "reset", "ask for unwinding", "do not ask"};
static int nu, us[8], first_, rounds; static char cells_[5];
static void *m_data, *m_prev; static int m_ask, at_hook, at_unwind; static void *seen_unwind;
static void use(ex_context_t *c, int i) {
    switch (us[i]) {
        case U_SET: case U_SET2: m_data = &cells_[us[i]]; ex_data_set(c, m_data); break;
        case U_SWAP: case U_SWAP2: m_prev = m_data; m_data = &cells_[us[i]]; ex_swap_set(c, m_data); break;
        case U_SWAP_NULL: m_prev = m_data; m_data = NULL; ex_swap_set(c, NULL); break;
        case U_RESET: m_data = m_prev; ex_swap_reset(c); break;
        case U_ASK: case U_UNASK: m_ask = us[i] == U_ASK; ex_unwind_set(c, us[i] == U_ASK); break;
    }
    mc_check(ex_data_get(c, NULL) == m_data, "the data after step %d (%s) is not what it should be", i, uname[us[i]]);
    mc_steps(1);
}
static void use_hook(ex_context_t *c, const char *ex, const char *m) {
    int i;
    mc_check(!at_hook++, "the setup function is called twice");
    mc_check(!strcmp(ex, "A") && m == NULL, "the setup function sees %s", ex);
    mc_check(ex_data_get(c, NULL) == NULL, "a new handler has data");
    for (i = 0; i < first_; i++) use(c, i);
}
static void use_unwind(void *d) { at_unwind++; seen_unwind = d; }
static void use_run(void) {
    volatile int r, caught_ = 0; int i;
    mc_alloc_reset();
    exception_setup_func = use_hook; exception_unwind_func = use_unwind;
    for (r = 0; r < rounds; r++) {
        m_data = m_prev = NULL; m_ask = at_hook = at_unwind = 0; seen_unwind = cells_ + 4;
        try { throw(A); }
        catch_any {
            mc_check(at_hook == 1, "the setup function was called %d times", at_hook);
            mc_check(at_unwind == m_ask, "the unwind function was called %d times, expected %d", at_unwind, m_ask);
            if (m_ask) mc_check(seen_unwind == m_data, "the unwind function does not get the data");
            mc_check(ex_data_get(ex_local(), NULL) == m_data, "the data in the catch is not that of the setup function");
            m_ask = 0;
            for (i = first_; i < nu; i++) use(ex_local(), i);
            caught_++;
        } end_try;
        mc_check(caught_ == r + 1 && at_unwind <= 1, "the unwind function is called after the catch");
    }
    exception_setup_func = NULL; exception_unwind_func = NULL;
    mc_state(mc_mix(mc_hash_mem(nu, us, nu * sizeof *us), first_)); mc_outcome(mc_mix((uintptr_t)m_data, at_unwind));
    mc_check(mc_alloc_live() == 0, "%ld blocks are never released", mc_alloc_live());
}
static void use_gen(void) {
    int i, swaps = 0, last = -1;
    rounds = 1 + mc_choose(2);
    nu = mc_choose(mc_thorough ? 7 : 6); first_ = mc_choose(nu + 1);
    for (i = 0; i < nu; i++) {
        us[i] = mc_choose(NU);
        if (us[i] >= U_SWAP && us[i] <= U_SWAP_NULL) swaps = 1;
        if (us[i] == U_RESET) { if (!swaps || last == U_RESET) mc_skip(); swaps = 0; }
        if (us[i] >= U_ASK && i >= first_) mc_skip();
        last = us[i];
    }
}
static void use_show(FILE *f) { int i; for (i = 0; i < nu; i++) fprintf(f, "%s%s", i == first_ ? "| in the catch: " : i ? ", " : "in the setup function: ", uname[us[i]]); fprintf(f, "\n"); }
/* ends of the program, see P09.c */
void hooked_gen(void); void hooked_run(void); void hooked_show(FILE *f);
mc_suite mc_suites[] = {{"nesting", prog_init, gen_nest, prog_run, prog_show, 0}, {"clauses", prog_init, gen_clauses, prog_run, prog_show, 0},
    {"guards", prog_init, gen_guards, prog_run, prog_show, 0}, {"protected pointers", prog_init, gen_protect, prog_run, prog_show, 0}, {"deep", prog_init, gen_deep, prog_run, prog_show, 0}, {"uses of the data", prog_init, use_gen, use_run, use_show, 0}, {"uncaught", NULL, hooked_gen, hooked_run, hooked_show, 0}, {0}};

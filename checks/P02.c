#include "scope.h"
static const int pre[] = {0, 15, 16, 31};
static void gen(void) {
    int i, n;
    scope_gen_ends();
    prefill = pre[mc_choose(mc_thorough ? 4 : 2)];
    n = 1 + mc_choose(mc_thorough ? 6 : 5);
    nops = n;
    for (i = 0; i < n; i++) {
        static const int kinds[] = {K_PLAIN, K_NEST, K_CANCELS, K_FIRES};
        int c = mc_choose(11);
        if (i == 0 && c > 3 && !prefill) mc_skip();
        if (c < 4) { ops[i].op = O_DEFER; ops[i].kind = kinds[c]; }
        else if (c < 6) { ops[i].op = O_CANCEL; ops[i].arg = c - 4; }
        else if (c < 8) { ops[i].op = O_FIRE; ops[i].arg = c - 6; }
        else if (c < 10) { ops[i].op = c == 8 ? O_CANCEL : O_FIRE; ops[i].arg = 2; }
        else { ops[i].op = O_RELEASE; ops[i].arg = 0; }
    }
}
/* Lists of every length, each two places of it cancelled or fired, one after the other, then one more. */
static void gen_places(void) {
    int i, k;
    scope_gen_ends();
    prefill = 1 + mc_choose(mc_thorough ? 40 : 18);
    nops = 2;
    for (i = 0; i < 2; i++) { ops[i].op = mc_choose(2) ? O_FIRE : O_CANCEL; ops[i].arg = 3 + mc_choose(prefill); }
    k = mc_choose(3);
    if (k) { ops[nops].op = O_DEFER; ops[nops].kind = k == 1 ? K_PLAIN : K_FIRES; ops[nops++].arg = 0; }
    if (k == 2) { ops[nops].op = O_DEFER; ops[nops].kind = K_CANCELS; ops[nops++].arg = 0; }
}
#include "big.h"
static void gen_big(void) { big_pick(1); }
mc_suite mc_suites[] = {{"histories", scope_init, gen, scope_run, scope_show, 0}, {"places", scope_init, gen_places, scope_run, scope_show, 0}, {"long", scope_init, gen_big, big_run, big_show, 0}, {0}};

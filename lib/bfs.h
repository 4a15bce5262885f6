/*
 * Explicit-state search over the real code: a state is the memory of the structure under test (and
 * the model's, beside it); every operation is applied to every state reached, until there are no new ones.
 *
 * The harness provides: a struct of all the memory (elements, heads, model), the number of operations,
 *   int  bfs_op(int op)        applies it to the memory and compares, or, if it cannot be applied, leaves the memory alone and returns 0
 *   void bfs_look(void)        compares everything that can be asked of the state at hand; must leave it as is or restore it
 *   const char *bfs_name(int)  names an operation
 */
#ifndef BFS_H
#define BFS_H
#include "mc.h"
static char *bfs_store; static unsigned *bfs_pred, *bfs_tab, bfs_n, bfs_max, bfs_mask, bfs_cur, bfs_cut; static int *bfs_by, bfs_doing;
static void *bfs_mem; static size_t bfs_size;
static int bfs_op(int op);
static void bfs_look(void);
static const char *bfs_name(int op);
static const char *bfs_trace(void) {
    static char b[900]; unsigned path[64], i = bfs_cur, n = 0;
    while (i && n < 64) { path[n++] = i; i = bfs_pred[i]; }
    strcpy(b, " after:");
    while (n--) { if (strlen(b) < 700) { strcat(b, " "); strcat(b, bfs_name(bfs_by[path[n]])); } }
    if (bfs_doing >= 0) { strcat(b, "; at: "); strcat(b, bfs_name(bfs_doing)); }
    return b;
}
#define bfs_fail(...) do { char bfs_m[300]; snprintf(bfs_m, sizeof bfs_m, __VA_ARGS__); mc_fail("%s,%s", bfs_m, bfs_trace()); } while (0)
#define bfs_check(c, ...) do { if (!(c)) bfs_fail(__VA_ARGS__); } while (0)
static int bfs_push(void) {
    uint64_t h = 0; size_t i; unsigned k;
    for (i = 0; i + 8 <= bfs_size; i += 8) { uint64_t v; memcpy(&v, (char *)bfs_mem + i, 8); h = (h ^ v) * 0x9e3779b97f4a7c15ull; h ^= h >> 29; }
    for (; i < bfs_size; i++) h = (h ^ ((unsigned char *)bfs_mem)[i]) * 0x100000001b3ull;
    for (k = (unsigned)(h >> 20) & bfs_mask; bfs_tab[k]; k = (k + 1) & bfs_mask)
        if (!memcmp(bfs_store + (size_t)(bfs_tab[k] - 1) * bfs_size, bfs_mem, bfs_size)) return 0;
    if (bfs_n >= bfs_max) { bfs_cut++; return 0; }
    bfs_tab[k] = bfs_n + 1;
    memcpy(bfs_store + (size_t)bfs_n * bfs_size, bfs_mem, bfs_size);
    bfs_pred[bfs_n] = bfs_cur; bfs_by[bfs_n] = bfs_doing;
    mc_state(h ^ (uint64_t)(uintptr_t)bfs_mem);
    bfs_n++;
    return 1;
}
/* From the state in memory on, up to max states (bfs_cut counts what was left out); returns their number. */
static unsigned bfs_run(void *mem, size_t size, int ops, unsigned max) {
    int op; unsigned long steps = 0;
    bfs_mem = mem; bfs_size = size; bfs_max = max; bfs_n = bfs_cut = 0; bfs_cur = 0; bfs_doing = -1;
    for (bfs_mask = 1024; bfs_mask < max * 2; bfs_mask *= 2) ;
    bfs_store = malloc((size_t)max * size); bfs_pred = malloc(max * sizeof *bfs_pred); bfs_by = malloc(max * sizeof *bfs_by);
    bfs_tab = calloc(bfs_mask, sizeof *bfs_tab); bfs_mask--;
    mc_where = bfs_trace;
    bfs_push();
    for (; bfs_cur < bfs_n; bfs_cur++) {
        memcpy(mem, bfs_store + (size_t)bfs_cur * size, size);
        bfs_doing = -1;
        bfs_look();
        for (op = 0; op < ops; op++) {
            bfs_doing = op;
            if (!bfs_op(op)) continue;
            steps++;
            bfs_push();
            memcpy(mem, bfs_store + (size_t)bfs_cur * size, size);
        }
    }
    mc_where = NULL;
    mc_steps(steps); mc_extra_traces(steps);
    free(bfs_store); free(bfs_pred); free(bfs_by); free(bfs_tab);
    return bfs_n;
}
#endif

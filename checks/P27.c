/* Trees of compat/sys/tree.h: every state a tree over a few elements can be in, every operation in each. */
#include "raii.h"
#include "mc.h"
#include "bfs.h"
#define M 17
typedef struct node node;
static void resize(node *x);
#define RB_AUGMENT(x) resize(x)
#ifndef __unused
#define __unused __attribute__((unused))
#endif
#include "compat/sys/tree.h"
struct node { long key; long before; union { RB_ENTRY(node) r; SPLAY_ENTRY(node) s; } u; long size; };
RB_HEAD(rbtree, node); SPLAY_HEAD(sptree, node);
static struct { node e[M]; union { struct rbtree r; struct sptree s; } h; unsigned in; int pad; } W;
static int cmp(node *a, node *b) { return a->key < b->key ? -7 : a->key > b->key ? 9 : 0; }
RB_PROTOTYPE(rbtree, node, u.r, cmp)
RB_GENERATE(rbtree, node, u.r, cmp)
SPLAY_PROTOTYPE(sptree, node, u.s, cmp)
SPLAY_GENERATE(sptree, node, u.s, cmp)
static int kind, n, dups, stat_init;

/* the number of elements below, kept by RB_AUGMENT as the macro's users do: up to the root */
static void resize(node *x) {
    int guard_ = 0;
    for (; x && guard_ < 4 * M; x = RB_PARENT(x, u.r), guard_++)
        x->size = 1 + (RB_LEFT(x, u.r) ? RB_LEFT(x, u.r)->size : 0) + (RB_RIGHT(x, u.r) ? RB_RIGHT(x, u.r)->size : 0);
}
static long key_of(int i) { return dups ? 2 * (i / 2) + 1 : 2 * i + 1; }
static void forget(int i) { memset(&W.e[i], 0xA7, sizeof(node)); W.e[i].key = key_of(i); W.e[i].before = 0x1dea0 + i; W.e[i].size = 1; }
static node *asks(long key) { static node k; memset(&k, 0xA7, sizeof k); k.key = key; return &k; }
/* the model: which elements are in */
static node *member(long key) { int i; for (i = 0; i < n; i++) if ((W.in >> i & 1) && W.e[i].key == key) return &W.e[i]; return NULL; }
static node *at_least(long key) { int i; for (i = 0; i < n; i++) if ((W.in >> i & 1) && W.e[i].key >= key) return &W.e[i]; return NULL; }
static node *before(long key) { int i; for (i = n - 1; i >= 0; i--) if ((W.in >> i & 1) && W.e[i].key < key) return &W.e[i]; return NULL; }

static int count, blacks; static long last;
#define RID(v) ((v) ? (int)((v) - W.e) : -1)
static int red_black(node *v, node *up, int depth, int b) {
    int l, r;
    if (!v) { if (blacks < 0) blacks = b; bfs_check(blacks == b, "the tree has paths with %d and with %d black nodes", blacks, b); return 0; }
    bfs_check(depth < M + 2, "the tree has a cycle");
    bfs_check(v >= W.e && v < W.e + n && (W.in >> (v - W.e) & 1), "the tree holds an element that is not in it");
    bfs_check(RB_PARENT(v, u.r) == up, "element %d has the wrong parent", RID(v));
    bfs_check(RB_COLOR(v, u.r) == RB_RED || RB_COLOR(v, u.r) == RB_BLACK, "element %d has no colour", RID(v));
    bfs_check(up || RB_COLOR(v, u.r) == RB_BLACK, "the root is red");
    bfs_check(RB_COLOR(v, u.r) != RB_RED || RB_COLOR(up, u.r) == RB_BLACK, "element %d and its parent are red", RID(v));
    b += RB_COLOR(v, u.r) == RB_BLACK;
    l = red_black(RB_LEFT(v, u.r), v, depth + 1, b);
    bfs_check(v->key > last, "the tree is out of order at element %d", RID(v));
    last = v->key; count++;
    r = red_black(RB_RIGHT(v, u.r), v, depth + 1, b);
    bfs_check(v->size == l + r + 1, "RB_AUGMENT was not told: element %d has %d below it, not %ld", RID(v), l + r + 1, v->size);
    return l + r + 1;
}
static void splay(node *v, int depth) {
    if (!v) return;
    bfs_check(depth < M + 2, "the tree has a cycle");
    bfs_check(v >= W.e && v < W.e + n && (W.in >> (v - W.e) & 1), "the tree holds an element that is not in it");
    splay(SPLAY_LEFT(v, u.s), depth + 1);
    bfs_check(v->key > last, "the tree is out of order at element %d", RID(v));
    last = v->key; count++;
    splay(SPLAY_RIGHT(v, u.s), depth + 1);
}
static void same(void) {
    int i;
    last = -1; count = 0; blacks = -1;
    if (kind == 0) { red_black(RB_ROOT(&W.h.r), NULL, 0, 0); bfs_check(!RB_EMPTY(&W.h.r) == !!W.in, "RB_EMPTY is wrong"); }
    else { splay(SPLAY_ROOT(&W.h.s), 0); bfs_check(!SPLAY_EMPTY(&W.h.s) == !!W.in, "SPLAY_EMPTY is wrong"); }
    bfs_check(count == __builtin_popcount(W.in), "the tree holds %d elements of %d", count, __builtin_popcount(W.in));
    for (i = 0; i < M; i++) bfs_check(W.e[i].key == key_of(i) && W.e[i].before == 0x1dea0 + i, "element %d is written over", i);
}
static void bfs_look(void) {
    int c; long k; node *v, *w, *x;
    same();
    if (kind) return;
    for (k = 0; k <= 2 * n + 1; k++) {
        v = RB_FIND(rbtree, &W.h.r, asks(k)); bfs_check(v == member(k), "RB_FIND of %ld gives %d", k, RID(v));
        v = RB_NFIND(rbtree, &W.h.r, asks(k)); bfs_check(v == at_least(k), "RB_NFIND of %ld gives %d", k, RID(v));
    }
    for (c = 0; c < n; c++) if (W.in >> c & 1) {
        v = RB_NEXT(rbtree, &W.h.r, &W.e[c]); bfs_check(v == at_least(W.e[c].key + 1), "RB_NEXT of %d gives %d", c, RID(v));
        v = RB_PREV(rbtree, &W.h.r, &W.e[c]); bfs_check(v == before(W.e[c].key), "RB_PREV of %d gives %d", c, RID(v));
    }
    v = RB_MIN(rbtree, &W.h.r); bfs_check(v == at_least(0), "RB_MIN gives %d", RID(v));
    v = RB_MAX(rbtree, &W.h.r); bfs_check(v == before(1000), "RB_MAX gives %d", RID(v));
    c = __builtin_popcount(W.in); x = at_least(0);
    RB_FOREACH(v, rbtree, &W.h.r) { bfs_check(c-- > 0 && v == x, "RB_FOREACH meets %d", RID(v)); x = at_least(v->key + 1); }
    bfs_check(!c, "RB_FOREACH leaves out %d", c);
    c = __builtin_popcount(W.in); x = before(1000);
    RB_FOREACH_REVERSE(v, rbtree, &W.h.r) { bfs_check(c-- > 0 && v == x, "RB_FOREACH_REVERSE meets %d", RID(v)); x = before(v->key); }
    bfs_check(!c, "RB_FOREACH_REVERSE leaves out %d", c);
    (void)w;
}
enum { INSERT, REMOVE, SAFE, REVSAFE, FIND, NEXT, MINI, MAXI, EACH, INIT, NOP };
static const char *opn[] = {"insert", "remove", "foreach_safe removing", "foreach_reverse_safe removing", "find", "next", "min", "max", "foreach", "init"};
#define A 256
static const char *bfs_name(int op) { static char b[60]; snprintf(b, sizeof b, "%s(%d)", opn[op / A], op % A); return b; }
static int bfs_op(int op) {
    int a = op % A, o = op / A, c; node *v, *w, *x; unsigned in = W.in;
    switch (o) {
        case INSERT:
            if (a >= n || (W.in >> a & 1)) return 0;
            x = member(W.e[a].key);
            v = kind == 0 ? RB_INSERT(rbtree, &W.h.r, &W.e[a]) : SPLAY_INSERT(sptree, &W.h.s, &W.e[a]);
            bfs_check(v == x, "inserting %d gives %d, not %d", a, RID(v), RID(x));
            if (!x) W.in |= 1u << a;
            break;
        case REMOVE:
            if (a >= n) return 0;
            if (kind == 0 && !(W.in >> a & 1)) return 0;
            x = member(W.e[a].key);
            if (x && x != &W.e[a]) return 0; /* which of the two comes back is left open */
            v = kind == 0 ? RB_REMOVE(rbtree, &W.h.r, &W.e[a]) : SPLAY_REMOVE(sptree, &W.h.s, &W.e[a]);
            bfs_check(v == x, "removing %d gives %d", a, RID(v));
            W.in &= ~(1u << a); forget(a);
            break;
        case SAFE: case REVSAFE:
            if (kind || n > 8 || (a & ~W.in)) return 0;
            c = __builtin_popcount(W.in); x = o == SAFE ? at_least(0) : before(1000);
            #define BODY { bfs_check(c-- > 0 && v == x, "the walk meets %d", RID(v)); x = o == SAFE ? at_least(v->key + 1) : before(v->key); \
                if (a >> (v - W.e) & 1) { RB_REMOVE(rbtree, &W.h.r, v); W.in &= ~(1u << (v - W.e)); forget((int)(v - W.e)); } }
            if (o == SAFE) { RB_FOREACH_SAFE(v, rbtree, &W.h.r, w) BODY }
            else { RB_FOREACH_REVERSE_SAFE(v, rbtree, &W.h.r, w) BODY }
            bfs_check(!c, "the walk leaves out %d of %d", c, __builtin_popcount(in));
            break;
        case FIND:
            if (!kind || a > 2 * n + 1) return 0;
            v = SPLAY_FIND(sptree, &W.h.s, asks(a));
            bfs_check(v == member(a), "SPLAY_FIND of %d gives %d", a, RID(v));
            bfs_check(!v || SPLAY_ROOT(&W.h.s) == v, "the element found is not at the root");
            break;
        case NEXT:
            if (!kind || a >= n || !(W.in >> a & 1)) return 0;
            v = SPLAY_NEXT(sptree, &W.h.s, &W.e[a]);
            bfs_check(v == at_least(W.e[a].key + 1), "SPLAY_NEXT of %d gives %d", a, RID(v));
            break;
        case MINI: if (!kind || a) return 0; v = SPLAY_MIN(sptree, &W.h.s); bfs_check(v == at_least(0), "SPLAY_MIN gives %d", RID(v)); break;
        case MAXI: if (!kind || a) return 0; v = SPLAY_MAX(sptree, &W.h.s); bfs_check(v == before(1000), "SPLAY_MAX gives %d", RID(v)); break;
        case EACH:
            if (!kind || a) return 0;
            c = __builtin_popcount(W.in); x = at_least(0);
            SPLAY_FOREACH(v, sptree, &W.h.s) { bfs_check(c-- > 0 && v == x, "SPLAY_FOREACH meets %d", RID(v)); x = at_least(v->key + 1); }
            bfs_check(!c, "SPLAY_FOREACH leaves out %d", c);
            break;
        case INIT:
            if (a) return 0;
            if (kind == 0) RB_INIT(&W.h.r); else SPLAY_INIT(&W.h.s);
            for (c = 0; c < n; c++) if (W.in >> c & 1) forget(c);
            W.in = 0;
            break;
    }
    same();
    return 1;
}
static void gen(void) { kind = mc_choose(2); n = 1 + mc_choose(kind ? (mc_thorough ? 10 : 9) : (mc_thorough ? 14 : 12)); dups = mc_choose(2); stat_init = mc_choose(2); }
static void run(void) {
    int i; unsigned c, least = dups ? 1u << n / 2 : 1u << n;
    memset(&W, 0, sizeof W);
    for (i = 0; i < M; i++) forget(i);
    memset(&W.h, 0xA7, sizeof W.h);
    if (stat_init) { struct rbtree r = RB_INITIALIZER(&r); struct sptree s = SPLAY_INITIALIZER(&s); if (kind == 0) W.h.r = r; else W.h.s = s; }
    else if (kind == 0) RB_INIT(&W.h.r); else SPLAY_INIT(&W.h.s);
    c = bfs_run(&W, sizeof W, NOP * A, 1000000);
    mc_outcome(c);
    mc_check(c >= least, "%u states reached, there are %u sets of elements", c, least);
}
static void show(FILE *f) { fprintf(f, "%s, %d elements%s\n", kind ? "SPLAY" : "RB", n, dups ? ", two of each key" : ""); }
mc_suite mc_suites[] = {{"states", 0, gen, run, show, 0}, {0}};

/* Lists and queues of compat/sys/queue.h: every state two of them over a few elements can be in, every operation in each. */
#include "raii.h"
#include "compat/sys/queue.h"
#include "mc.h"
#include "bfs.h"
static unsigned long cookie_now;
static void give_cookie(void *p, size_t n) { memcpy(p, &cookie_now, n); }
#define arc4random_buf give_cookie

#define M 6
typedef struct node node;
struct node {
    long id;
    SLIST_ENTRY(node) s; LIST_ENTRY(node) l; SIMPLEQ_ENTRY(node) q; XSIMPLEQ_ENTRY(node) x; TAILQ_ENTRY(node) t;
    long tail;
};
SLIST_HEAD(slist, node); LIST_HEAD(list, node); SIMPLEQ_HEAD(simpleq, node); XSIMPLEQ_HEAD(xsimpleq, node); TAILQ_HEAD(tailq, node);
typedef struct { long before; union { struct slist s; struct list l; struct simpleq q; struct xsimpleq x; struct tailq t; } u; long after; } head;
static struct { node e[M]; head h[2]; signed char seq[2][M]; signed char len[2]; signed char in[M]; } W, saved;
enum { SL, LI, SQ, XQ, TQ };
static const char *kinds[] = {"SLIST", "LIST", "SIMPLEQ", "XSIMPLEQ", "TAILQ"};
static int kind, n, way, stat_init;

#define S(i) (&W.h[i].u.s)
#define L(i) (&W.h[i].u.l)
#define Q(i) (&W.h[i].u.q)
#define X(i) (&W.h[i].u.x)
#define T(i) (&W.h[i].u.t)

static void forget(int i) { memset(&W.e[i], 0xA7, sizeof(node)); W.e[i].id = 0x1dea0 + i; W.e[i].tail = 0x7a11 - i; }
static void clear(int k) {
    switch (kind) { case SL: SLIST_INIT(S(k)) break; case LI: LIST_INIT(L(k)); break; case SQ: SIMPLEQ_INIT(Q(k)); break; case XQ: XSIMPLEQ_INIT(X(k)); break; case TQ: TAILQ_INIT(T(k)); }
}
static void start(void) {
    int i;
    memset(&W, 0, sizeof W);
    for (i = 0; i < M; i++) { forget(i); W.in[i] = -1; }
    for (i = 0; i < 2; i++) {
        memset(&W.h[i], 0xA7, sizeof(head)); W.h[i].before = 5; W.h[i].after = 6;
        cookie_now = way == 0 ? 0 : way == 1 ? 0x5a5a1234f00dul : ~0ul;
        if (i) cookie_now *= 3;
        if (stat_init) switch (kind) {
            case SL: { struct slist x = SLIST_HEAD_INITIALIZER(x); *S(i) = x; break; }
            case LI: { struct list x = LIST_HEAD_INITIALIZER(x); *L(i) = x; break; }
            case SQ: { struct simpleq x = SIMPLEQ_HEAD_INITIALIZER(*Q(i)); *Q(i) = x; break; }
            case XQ: clear(i); break;
            case TQ: { struct tailq x = TAILQ_HEAD_INITIALIZER(*T(i)); *T(i) = x; break; }
        } else clear(i);
        W.len[i] = 0;
    }
    memset(W.seq, -1, sizeof W.seq);
}

/* ---- the model ---- */
static int place(int k, int e) { int i; for (i = 0; i < W.len[k]; i++) if (W.seq[k][i] == e) return i; return -1; }
static void put(int k, int at, int e) { memmove(W.seq[k] + at + 1, W.seq[k] + at, (size_t)(W.len[k] - at)); W.seq[k][at] = (signed char)e; W.len[k]++; W.in[e] = (signed char)k; }
static void take(int k, int at) { int e = W.seq[k][at]; W.len[k]--; memmove(W.seq[k] + at, W.seq[k] + at + 1, (size_t)(W.len[k] - at)); W.seq[k][(int)W.len[k]] = -1; W.in[e] = -1; }

/* ---- comparison ---- */
static node *first(int k) { switch (kind) { case SL: return SLIST_FIRST(S(k)); case LI: return LIST_FIRST(L(k)); case SQ: return SIMPLEQ_FIRST(Q(k)); case XQ: return XSIMPLEQ_FIRST(X(k)); } return TAILQ_FIRST(T(k)); }
static node *next(int k, node *v) { switch (kind) { case SL: return SLIST_NEXT(v, s); case LI: return LIST_NEXT(v, l); case SQ: return SIMPLEQ_NEXT(v, q); case XQ: return XSIMPLEQ_NEXT(X(k), v, x); } return TAILQ_NEXT(v, t); }
static int empty(int k) { switch (kind) { case SL: return SLIST_EMPTY(S(k)); case LI: return LIST_EMPTY(L(k)); case SQ: return SIMPLEQ_EMPTY(Q(k)); case XQ: return XSIMPLEQ_EMPTY(X(k)); } return TAILQ_EMPTY(T(k)); }
static void seen(int k, const char *what, node *v, int *c) {
    bfs_check(*c < W.len[k], "%s walks over more than the %d elements", what, W.len[k]);
    bfs_check(v == &W.e[(int)W.seq[k][*c]], "%s meets element %d where element %d should be", what, (int)(v - W.e), W.seq[k][*c]);
    ++*c;
}
static void same(void) {
    int i, k, c; node *v, *w;
    for (i = 0; i < M; i++) bfs_check(W.e[i].id == 0x1dea0 + i && W.e[i].tail == 0x7a11 - i, "element %d is written over", i);
    for (k = 0; k < 2; k++) {
        bfs_check(W.h[k].before == 5 && W.h[k].after == 6, "memory beside a head is written");
        bfs_check(!empty(k) == !!W.len[k], "EMPTY is wrong for %d elements", W.len[k]);
        v = first(k);
        for (i = 0; i < W.len[k]; i++, v = next(k, v)) bfs_check(v == &W.e[(int)W.seq[k][i]], "element %d of list %d is not the one it should be", i, k);
        bfs_check(v == NULL, "list %d goes on after its last element", k);
        c = 0;
        switch (kind) {
            case SL: SLIST_FOREACH(v, S(k), s) seen(k, "FOREACH", v, &c); break;
            case LI: LIST_FOREACH(v, L(k), l) seen(k, "FOREACH", v, &c); break;
            case SQ: SIMPLEQ_FOREACH(v, Q(k), q) seen(k, "FOREACH", v, &c); break;
            case XQ: XSIMPLEQ_FOREACH(v, X(k), x) seen(k, "FOREACH", v, &c); break;
            case TQ: TAILQ_FOREACH(v, T(k), t) seen(k, "FOREACH", v, &c); break;
        }
        bfs_check(c == W.len[k] && v == NULL, "FOREACH stops after %d of %d elements", c, W.len[k]);
        if (kind == TQ) {
            v = TAILQ_LAST(T(k), tailq);
            for (i = W.len[k] - 1; i >= 0; i--, v = TAILQ_PREV(v, tailq, t)) bfs_check(v == &W.e[(int)W.seq[k][i]], "backwards, element %d is not the one it should be", i);
            bfs_check(v == NULL, "backwards, the queue goes on before its first element");
            c = W.len[k];
            TAILQ_FOREACH_REVERSE(v, T(k), tailq, t) { c--; bfs_check(c >= 0 && v == &W.e[(int)W.seq[k][c]], "FOREACH_REVERSE is wrong"); }
            bfs_check(c == 0, "FOREACH_REVERSE leaves out %d", c);
            c = W.len[k];
            TAILQ_FOREACH_REVERSE_SAFE(v, T(k), tailq, t, w) { c--; bfs_check(c >= 0 && v == &W.e[(int)W.seq[k][c]], "FOREACH_REVERSE_SAFE is wrong"); }
            bfs_check(c == 0, "FOREACH_REVERSE_SAFE leaves out %d", c);
        }
    }
}
static void remove_any(int k, node *v) {
    switch (kind) {
        case SL: SLIST_REMOVE(S(k), v, node, s); break;
        case LI: LIST_REMOVE(v, l); break;
        case TQ: TAILQ_REMOVE(T(k), v, t); break;
        case SQ: SIMPLEQ_REMOVE_HEAD(Q(k), q); break;
        case XQ: XSIMPLEQ_REMOVE_HEAD(X(k), x); break;
    }
}
static void bfs_look(void) { same(); }

/* ---- operations ---- */
enum { INS_HEAD, INS_TAIL, INS_AFTER, INS_BEFORE, REM_HEAD, REM_AFTER, REM, REPLACE, CONCAT, SAFE, REVSAFE, INIT, NOP };
static const char *opn[] = {"INSERT_HEAD", "INSERT_TAIL", "INSERT_AFTER", "INSERT_BEFORE", "REMOVE_HEAD", "REMOVE_AFTER", "REMOVE", "REPLACE", "CONCAT", "FOREACH_SAFE removing", "FOREACH_REVERSE_SAFE removing", "INIT"};
/* op = ((what * 2 + list) * 2^M-or-M + a) * M + b ; a doubles as the set of places removed in a walk */
#define OPS (NOP * 2 * 64 * M)
static const char *bfs_name(int op) {
    static char b[80]; int y = op % M, a = op / M % 64, k = op / M / 64 % 2, o = op / M / 64 / 2;
    if (o >= SAFE) snprintf(b, sizeof b, "%s(%d, 0x%x)", opn[o], k, a); else snprintf(b, sizeof b, "%s(%d, %d, %d)", opn[o], k, a, y);
    return b;
}
static int bfs_op(int op) {
    int b = op % M, a = op / M % 64, k = op / M / 64 % 2, o = op / M / 64 / 2, at, c, i; node *v, *w, *A = &W.e[a < M ? a : 0], *B = &W.e[b];
    int two = o == INS_AFTER || o == INS_BEFORE || o == REPLACE; /* a: the new element, b: the one in the list */
    if (o < SAFE && a >= n) return 0;
    if (!two && b) return 0;
    if (two && (b >= n || W.in[b] != k)) return 0;
    if ((o <= INS_BEFORE || o == REPLACE) && W.in[a] >= 0) return 0;
    if ((o == REM || o == REM_AFTER) && W.in[a] != k) return 0;
    if ((o == REM_HEAD || o == CONCAT || o == INIT) && a) return 0;
    if (o == REM_HEAD && !W.len[k]) return 0;
    if (o >= SAFE && o != INIT && a >= 1 << W.len[k]) return 0;
    at = two ? place(k, b) : W.in[a < M ? a : 0] == k ? place(k, a < M ? a : 0) : -1;
    switch (o) {
        case INS_HEAD:
            switch (kind) { case SL: SLIST_INSERT_HEAD(S(k), A, s); break; case LI: LIST_INSERT_HEAD(L(k), A, l); break; case SQ: SIMPLEQ_INSERT_HEAD(Q(k), A, q); break; case XQ: XSIMPLEQ_INSERT_HEAD(X(k), A, x); break; case TQ: TAILQ_INSERT_HEAD(T(k), A, t); break; }
            put(k, 0, a); break;
        case INS_TAIL:
            switch (kind) { case SQ: SIMPLEQ_INSERT_TAIL(Q(k), A, q); break; case XQ: XSIMPLEQ_INSERT_TAIL(X(k), A, x); break; case TQ: TAILQ_INSERT_TAIL(T(k), A, t); break; default: return 0; }
            put(k, W.len[k], a); break;
        case INS_AFTER:
            switch (kind) { case SL: SLIST_INSERT_AFTER(B, A, s); break; case LI: LIST_INSERT_AFTER(B, A, l); break; case SQ: SIMPLEQ_INSERT_AFTER(Q(k), B, A, q); break; case XQ: XSIMPLEQ_INSERT_AFTER(X(k), B, A, x); break; case TQ: TAILQ_INSERT_AFTER(T(k), B, A, t); break; }
            put(k, at + 1, a); break;
        case INS_BEFORE:
            switch (kind) { case LI: LIST_INSERT_BEFORE(B, A, l); break; case TQ: TAILQ_INSERT_BEFORE(B, A, t); break; default: return 0; }
            put(k, at, a); break;
        case REM_HEAD:
            i = W.seq[k][0];
            switch (kind) { case SL: SLIST_REMOVE_HEAD(S(k), s); break; case SQ: SIMPLEQ_REMOVE_HEAD(Q(k), q); break; case XQ: XSIMPLEQ_REMOVE_HEAD(X(k), x); break; default: return 0; }
            take(k, 0); forget(i); break;
        case REM_AFTER:
            if (at + 1 >= W.len[k]) return 0;
            i = W.seq[k][at + 1];
            switch (kind) { case SL: SLIST_REMOVE_AFTER(A, s); break; case SQ: SIMPLEQ_REMOVE_AFTER(Q(k), A, q); break; case XQ: XSIMPLEQ_REMOVE_AFTER(X(k), A, x); break; default: return 0; }
            take(k, at + 1); forget(i); break;
        case REM:
            if (kind == SQ || kind == XQ) return 0;
            remove_any(k, A); take(k, at); forget(a); break;
        case REPLACE:
            switch (kind) { case LI: LIST_REPLACE(B, A, l); break; case TQ: TAILQ_REPLACE(T(k), B, A, t); break; default: return 0; }
            take(k, at); put(k, at, a); forget(b); break;
        case CONCAT:
            switch (kind) { case SQ: SIMPLEQ_CONCAT(Q(k), Q(!k)); break; case TQ: TAILQ_CONCAT(T(k), T(!k), t); break; default: return 0; }
            while (W.len[!k]) { i = W.seq[!k][0]; take(!k, 0); put(k, W.len[k], i); }
            break;
        case SAFE: {
            signed char was[M]; int len = W.len[k];
            /* from simple queues only the elements at the head can go */
            if ((kind == SQ || kind == XQ) && (a & (a + 1))) return 0;
            memcpy(was, W.seq[k], sizeof was); c = 0;
            #define BODY { bfs_check(c < len && v == &W.e[(int)was[c]], "FOREACH_SAFE meets the wrong element at place %d", c); \
                if (a >> c & 1) { remove_any(k, v); take(k, place(k, (int)(v - W.e))); forget((int)(v - W.e)); } c++; }
            switch (kind) {
                case SL: SLIST_FOREACH_SAFE(v, S(k), s, w) BODY break;
                case LI: LIST_FOREACH_SAFE(v, L(k), l, w) BODY break;
                case SQ: SIMPLEQ_FOREACH_SAFE(v, Q(k), q, w) BODY break;
                case XQ: XSIMPLEQ_FOREACH_SAFE(v, X(k), x, w) BODY break;
                case TQ: TAILQ_FOREACH_SAFE(v, T(k), t, w) BODY break;
            }
            bfs_check(c == len, "FOREACH_SAFE stops after %d of %d elements", c, len);
            break;
        }
        case REVSAFE: {
            signed char was[M]; int len = W.len[k];
            if (kind != TQ) return 0;
            memcpy(was, W.seq[k], sizeof was); c = len;
            TAILQ_FOREACH_REVERSE_SAFE(v, T(k), tailq, t, w) {
                c--;
                bfs_check(c >= 0 && v == &W.e[(int)was[c]], "FOREACH_REVERSE_SAFE meets the wrong element at place %d", c);
                if (a >> c & 1) { remove_any(k, v); take(k, place(k, (int)(v - W.e))); forget((int)(v - W.e)); }
            }
            bfs_check(c == 0, "FOREACH_REVERSE_SAFE leaves out %d", c);
            break;
        }
        case INIT:
            if (kind == XQ) cookie_now = (k ? 3 : 1) * (way == 0 ? 0 : way == 1 ? 0x5a5a1234f00dul : ~0ul);
            clear(k);
            while (W.len[k]) { i = W.seq[k][0]; take(k, 0); forget(i); }
            break;
    }
    same();
    return 1;
}
static void gen(void) {
    kind = mc_choose(5); n = 1 + mc_choose(mc_thorough ? 6 : 5); way = mc_choose(kind == XQ ? 3 : 1); stat_init = mc_choose(2);
    if (kind == XQ && stat_init) mc_skip();
}
static void run(void) {
    /* arrangements of n elements in two lists and outside */
    static const unsigned all[] = {0, 3, 11, 49, 261, 1631, 11743}; unsigned c;
    start();
    c = bfs_run(&W, sizeof W, OPS, 4 * all[n] + 100);
    mc_outcome(c);
    mc_check(c >= all[n], "%u states reached, %u are possible", c, all[n]);
}
static void show(FILE *f) { fprintf(f, "%s, %d elements, %s%s\n", kinds[kind], n, stat_init ? "initializer" : "INIT", kind == XQ ? way == 0 ? ", cookie 0" : way == 1 ? ", some cookie" : ", all bits" : ""); }
mc_suite mc_suites[] = {{"states", 0, gen, run, show, 0}, {0}};

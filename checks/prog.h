/*
 * Programs of nested try, guard, throw, defer, recover and protect, generated exhaustively up to a
 * number of statements, run with the real macros, and compared event by event with an interpreter
 * that knows nothing but the language rules.
 */
#include "raii.h"
#include "mc.h"
#include <signal.h>

/* no symbol lookup for the backtraces of millions of throws */
int backtrace(void **buffer, int size) { (void)buffer; (void)size; return 0; }

EX_EXCEPTION(A);
EX_EXCEPTION(B);

enum { S_THROW, S_RETHROW, S_TRY, S_GUARD, S_DEFER, S_ALLOC, S_BREAK, S_RETURN, S_PROTECT, S_UNPROTECT, S_NULLIFY, S_REASSIGN, S_PROT, S_CALL };
/* what is thrown */
enum { X_A, X_B, X_PANIC, X_PANIC_A, NX };
/* clauses of a try */
enum { T_A, T_ANY, T_A_F, T_ANY_F, T_F, T_NONE, T_A_B, T_A_ANY_F, T_PANIC, T_IF, T_IF_F, T_A_B_ANY, T_FINALITY, T_IF_IF, T_IF_ANY_F, T_A_IF, NT };
/* deferred functions */
enum { D_LOG, D_THROW, D_PANIC, D_RECOVER, D_RECOVER_A, D_CAUGHT_A, D_ISCAUGHT_A, D_RECOVER_WRONG, D_TRY, D_NEST, D_GUARD, ND };

#define MAXN 160
#define MAXK 40
typedef struct { int n; int k[MAXK]; } block;
typedef struct { int kind, arg, id; block b[4]; } node;
static node nodes[MAXN];
static int nnodes;
static block root;

/* ---- generation ---- */
static struct {
    int budget;                     /* statements */
    int depth;
    int nx; const int *xs;          /* throws */
    int nt; const int *ts;          /* tries */
    int nd; const int *ds;          /* deferred functions */
    int guards, allocs, exits, rethrow, protects, calls, prot_blocks;
} G;
static int budget;
enum { IN_CATCH = 1, IN_GUARD = 2, IN_GUARD_DIRECT = 4, IN_TRY = 8, IN_FINALLY = 16 };
static int n_protected;

static int nclauses(int shape) {
    switch (shape) {
        case T_A: case T_ANY: case T_PANIC: case T_IF: return 1;
        case T_A_F: case T_ANY_F: case T_IF_F: return 2;
        case T_F: case T_FINALITY: return 1;
        case T_NONE: return 0;
        case T_A_B: case T_IF_IF: case T_A_IF: return 2;
        case T_A_ANY_F: case T_A_B_ANY: case T_IF_ANY_F: return 3;
    }
    return 0;
}
static int has_finally(int s) { return s == T_A_F || s == T_ANY_F || s == T_F || s == T_IF_F || s == T_A_ANY_F || s == T_FINALITY || s == T_IF_ANY_F; }

static void gen_block(block *b, int flags, int depth);
static int new_node(int kind, int arg) {
    node *n = &nodes[nnodes];
    n->b[0].n = n->b[1].n = n->b[2].n = n->b[3].n = 0;
    n->kind = kind; n->arg = arg; n->id = nnodes;
    budget--;
    return nnodes++;
}
static void gen_block(block *b, int flags, int depth) {
    b->n = 0;
    while (budget > 0 && b->n < MAXK) {
        int opts[64][2], no = 0, c, i, id;
#define OPT(k, a) do { opts[no][0] = k; opts[no][1] = a; no++; } while (0)
        for (i = 0; i < G.nx; i++) OPT(S_THROW, G.xs[i]);
        if (G.rethrow && (flags & IN_CATCH)) OPT(S_RETHROW, 0);
        if (depth < G.depth) {
            for (i = 0; i < G.nt; i++) OPT(S_TRY, G.ts[i]);
            if (G.guards) { OPT(S_GUARD, 0); OPT(S_GUARD, 1); }
            if (G.prot_blocks && !(flags & IN_FINALLY)) for (i = 0; i < G.prot_blocks; i++) OPT(S_PROT, i);
        }
        if (flags & IN_GUARD) {
            for (i = 0; i < G.nd; i++) OPT(S_DEFER, G.ds[i]);
            if (G.allocs) OPT(S_ALLOC, 0);
        }
        if (G.exits && (flags & IN_GUARD_DIRECT)) { OPT(S_BREAK, 0); OPT(S_RETURN, 0); }
        if (G.protects && !(flags & IN_FINALLY)) {
            for (i = 0; i < G.protects; i++) OPT(S_PROTECT, i);
            OPT(S_UNPROTECT, 0); OPT(S_NULLIFY, 0); OPT(S_REASSIGN, 0);
        }
        c = mc_choose(no + 1);
        if (c == 0) break;
        c--;
        id = new_node(opts[c][0], opts[c][1]);
        b->k[b->n++] = id;
        if (opts[c][0] == S_TRY) {
            int shape = opts[c][1], nc = nclauses(shape), f = has_finally(shape);
            gen_block(&nodes[id].b[0], (flags & IN_GUARD) | IN_TRY, depth + 1);
            for (i = 0; i < nc; i++)
                gen_block(&nodes[id].b[1 + i], f && i == nc - 1 ? (flags & ~(IN_GUARD_DIRECT | IN_CATCH)) | IN_FINALLY : (flags & IN_GUARD) | IN_CATCH | IN_TRY, depth + 1);
        } else if (opts[c][0] == S_GUARD) {
            gen_block(&nodes[id].b[0], IN_GUARD | IN_GUARD_DIRECT, depth + 1);
        } else if (opts[c][0] == S_PROT)
            gen_block(&nodes[id].b[0], flags & ~(IN_GUARD_DIRECT | IN_CATCH), depth + 1);
        if (opts[c][0] == S_THROW || opts[c][0] == S_RETHROW || opts[c][0] == S_BREAK || opts[c][0] == S_RETURN) break;
    }
}

/* ---- events ---- */
enum { E_AFTER = 1, E_CATCH, E_CATCH_MSG, E_CATCH_LINE, E_CAUGHT, E_FINALLY, E_DEFER, E_DEFER_MSG, E_RECOVERED, E_RELEASE, E_FREE, E_VALUE, E_TOP, E_INNER, E_ALLOC, E_SETUP, E_SETUP_MSG, E_SETUP_DATA, E_UNWIND, E_CATCH_DATA };
static const char *ev_name[] = {"?", "after statement", "catch", "message in catch", "line in catch", "caught() in catch", "finally", "deferred", "message in deferred", "recover says", "release of protected", "free of guard memory", "value of guard", "outermost catch", "inside deferred", "memory intact", "setup hook", "message in setup hook", "data in setup hook", "unwind hook", "data in catch"};
#define MAXEV 1024
typedef struct { int what, id, val; } evt;
static evt rev[MAXEV], mev[MAXEV];
static int nrev, nmev;
static void rlog(int w, int id, int v) {
    int during = w == E_RELEASE || w == E_UNWIND;
    if (w == E_RELEASE || (w != E_FREE && w != E_INNER)) mc_check(!!ex_uncaught_exception() == during, during ? "ex_uncaught_exception says no during unwinding" : "ex_uncaught_exception says yes though nothing unwinds");
    if (nrev < MAXEV) { rev[nrev].what = w; rev[nrev].id = id; rev[nrev].val = v; } if (++nrev > 4 * MAXEV) mc_fail("the program never ends"); }

/* ---- interpreter ---- */
typedef struct { int x, line, msg; } exc;      /* msg: index into messages, -1 none */
enum { M_A, M_B, M_PANIC, M_NAME_PANIC, M_NONE };
enum { R_NORMAL, R_EXC, R_BREAK, R_RETURN, R_RETHROW };
static int line_A, line_B, line_P, line_PA, line_D, line_DP;
static uint64_t mhash;
static int reached[MAXN];
static unsigned long msteps;
static int model_bad;                           /* the program leaves the domain */
static void mlog(int w, int id, int v) {
    if (nmev < MAXEV) { mev[nmev].what = w; mev[nmev].id = id; mev[nmev].val = v; }
    else model_bad = 1;
    nmev++;
    mhash = mc_mix(mc_mix(mhash, w * 256 + id), v + 7);
}
static int name_of(exc *e) { return e->x == X_A ? M_A : e->x == X_B ? M_B : M_NAME_PANIC; }
static int msg_of(exc *e) { return e->x == X_A ? M_A : e->x == X_B ? M_B : e->x == X_PANIC ? M_PANIC : M_A; }

/* handlers: what is protected in each */
typedef struct mh { struct mh *up; int np, prot[MAXN]; int guarded_, data, prev; } mh;
static mh *mtop;
/* protected variables */
typedef struct { int state; int null, serial, freed; } mv;   /* state 0 unused, 1 protected, 2 not any more */
static mv mvars[MAXN + 2];
static int mlast[MAXN], nmlast, mserial;

typedef struct ms { struct ms *up; int n, kind[MAXN * 4], id[MAXN * 4], err; exc e; } mscope;
static mscope *mguard;

/* the application's hooks: what its setup function does, and whether it has an unwind function */
enum { H_OFF, H_LOOK, H_DATA, H_UNWIND, H_SWAP, H_ONLY_UNWIND, H_NO_UNWIND, H_SOME, NH };
static int hmode, mhooked;

static int m_block(block *b, exc *e, int flags);
/* an exception arrives at the handler */
static void m_arrive(exc *e) {
    int want = 0;
    if (hmode == H_OFF || mtop->guarded_) return;
    if (hmode != H_ONLY_UNWIND) {
        mhooked++;
        mlog(E_SETUP, 0, name_of(e));
        mlog(E_SETUP_MSG, 0, e->x == X_PANIC ? M_PANIC : e->x == X_PANIC_A ? M_A : M_NONE);
        mlog(E_SETUP_DATA, mhooked, mtop->data);
        if (hmode == H_SWAP) mtop->prev = mtop->data;
        if (hmode != H_LOOK) mtop->data = mhooked;
        want = hmode == H_UNWIND || hmode == H_SWAP || (hmode == H_SOME && e->x == X_A);
    }
    if (want) mlog(E_UNWIND, 0, mtop->data);
}
static void m_unwind(exc *e) {
    m_arrive(e);
    while (mtop->np) {
        int v = mtop->prot[--mtop->np];
        mvars[v].state = 2;
        if (!mvars[v].null) mlog(E_RELEASE, v, mvars[v].serial);
    }
}
static int m_throw(exc *e, int x, int line) { e->x = x; e->line = line; m_unwind(e); return R_EXC; }

static int m_deferred(int kind, int id, mscope *s, int *recovered, exc *e) {
    int msg = s->err ? msg_of(&s->e) : M_NONE;
    msteps++;
    if (kind == -1) { mlog(E_FREE, id, 0); return R_NORMAL; }
    mlog(E_DEFER, id, 0);
    mlog(E_DEFER_MSG, id, msg);
    switch (kind) {
        case D_THROW: if (*recovered) { model_bad = 1; return R_NORMAL; } return m_throw(e, X_B, line_D);
        case D_PANIC: if (*recovered) { model_bad = 1; return R_NORMAL; } return m_throw(e, X_PANIC, line_DP);
        case D_RECOVER: mlog(E_RECOVERED, id, s->err); if (s->err) *recovered = 1; break;
        case D_RECOVER_A: case D_ISCAUGHT_A: mlog(E_RECOVERED, id, msg == M_A); if (msg == M_A) *recovered = 1; break;
        case D_CAUGHT_A: mlog(E_RECOVERED, id, msg == M_A || (s->err && name_of(&s->e) == M_A)); if (msg == M_A) *recovered = 1; break;
        case D_RECOVER_WRONG: mlog(E_RECOVERED, id, 0); break;
        case D_TRY: { mh h = {mtop, 0}; exc in = {X_A, 0, 0}; mtop = &h; m_arrive(&in); mtop = h.up; mlog(E_INNER, id, M_A); mlog(E_INNER, id, 99); break; }
        case D_NEST: s->kind[s->n] = D_LOG; s->id[s->n] = id + 1000; s->n++; break;
        case D_GUARD: mlog(E_INNER, id, 1); mlog(E_INNER, id, 2); break;
    }
    return R_NORMAL;
}
static int m_try(node *n, exc *e, int flags) {
    mh h = {mtop, 0};
    int r, shape = n->arg, c = -1, f = has_finally(shape) ? nclauses(shape) : 0, r2, thrown = 0;
    exc e1 = {0};
    mtop = &h;
    r = m_block(&n->b[0], &e1, flags);
    if (r == R_EXC) {
        thrown = 1;
        switch (shape) {
            case T_A: case T_A_F: if (e1.x == X_A) c = 1; break;
            case T_ANY: case T_ANY_F: c = 1; break;
            case T_A_B: c = e1.x == X_A ? 1 : e1.x == X_B ? 2 : -1; break;
            case T_A_ANY_F: c = e1.x == X_A ? 1 : 2; break;
            case T_A_B_ANY: c = e1.x == X_A ? 1 : e1.x == X_B ? 2 : 3; break;
            case T_PANIC: if (e1.x == X_PANIC || e1.x == X_PANIC_A) c = 1; break;
            case T_IF: case T_IF_F:
                if (msg_of(&e1) == M_A) c = 1;
                mlog(E_CAUGHT, n->id, c == 1);
                break;
            case T_FINALITY: c = 0; break;
            case T_IF_IF: case T_A_IF:
                if (msg_of(&e1) == M_A || name_of(&e1) == M_A) c = 1;
                if (shape == T_A_IF) c = e1.x == X_A ? 1 : -1;
                else mlog(E_CAUGHT, n->id, c == 1);
                if (c != 1) { if (name_of(&e1) == M_B) c = 2; mlog(E_CAUGHT, n->id, c == 2); }
                break;
            case T_IF_ANY_F:
                c = msg_of(&e1) == M_A ? 1 : 2;
                mlog(E_CAUGHT, n->id, c == 1);
                break;
        }
        if (c > 0) {
            mlog(E_CATCH, n->id * 4 + c, name_of(&e1));
            mlog(E_CATCH_MSG, n->id, msg_of(&e1));
            mlog(E_CATCH_LINE, n->id, e1.line);
            if (hmode) {
                mlog(E_CATCH_DATA, n->id, h.data);
                if (hmode == H_SWAP) { h.data = h.prev; mlog(E_CATCH_DATA, n->id, h.data); }
            }
            r = m_block(&n->b[c], &e1, flags);
            if (r == R_RETHROW) r = m_throw(&e1, e1.x, e1.line);
        } else if (c == 0) r = R_NORMAL;
    }
    mtop = h.up;
    if (f) {
        mlog(E_FINALLY, n->id, thrown ? name_of(&e1) : M_NONE);
        r2 = m_block(&n->b[f], e, flags);
        if (r2 != R_NORMAL) return r2;
    }
    if (r == R_EXC) { *e = e1; m_unwind(e); }
    return r;
}
static int m_guard(node *n, exc *e) {
    mh h = {mtop, 0, {0}, 1};
    mscope s = {mguard, 0};
    exc e1 = {0};
    int r, recovered = 0, rr, value = 1;
    mtop = &h; mguard = &s;
    r = m_block(&n->b[0], &e1, 0);
    if (r == R_RETURN) value = 2;
    for (;;) {
        if (r == R_EXC) { s.err = 1; s.e = e1; value = 1; }
        rr = R_NORMAL;
        while (s.n) {
            s.n--;
            rr = m_deferred(s.kind[s.n], s.id[s.n], &s, &recovered, &e1);
            if (rr == R_EXC) break;
        }
        if (rr != R_EXC) break;
        r = R_EXC;
    }
    if (r == R_EXC && recovered) r = R_NORMAL;
    mtop = h.up; mguard = s.up;
    if (r == R_EXC) { *e = e1; m_unwind(e); return R_EXC; }
    mlog(E_VALUE, n->id, n->arg ? value : value == 2 ? 2 : 1);
    return R_NORMAL;
}
static int m_block(block *b, exc *e, int flags) {
    int i, r;
    for (i = 0; i < b->n; i++) {
        node *n = &nodes[b->k[i]];
        reached[b->k[i]] = 1;
        msteps++;
        mc_state(mhash);
        switch (n->kind) {
            case S_THROW: return m_throw(e, n->arg, n->arg == X_A ? line_A : n->arg == X_B ? 1000 + n->id : n->arg == X_PANIC ? line_P : line_PA);
            case S_RETHROW: return R_RETHROW;
            case S_TRY: r = m_try(n, e, flags); if (r != R_NORMAL) return r; break;
            case S_GUARD: r = m_guard(n, e); if (r != R_NORMAL) return r; break;
            case S_DEFER: mguard->kind[mguard->n] = n->arg; mguard->id[mguard->n] = n->id; mguard->n++; break;
            case S_ALLOC: mguard->kind[mguard->n] = -1; mguard->id[mguard->n] = n->id; mguard->n++; mlog(E_ALLOC, n->id, 0); break;
            case S_BREAK: return R_BREAK;
            case S_RETURN: return R_RETURN;
            case S_PROTECT: {
                mv *v = &mvars[n->id];
                v->state = 1; v->null = n->arg == 1; v->serial = ++mserial;
                mtop->prot[mtop->np++] = n->id;
                break;
            }
            case S_UNPROTECT: case S_NULLIFY: case S_REASSIGN: {
                int v;
                if (!mtop->np) { model_bad = 1; break; }
                v = mtop->prot[mtop->np - 1];
                if (n->kind == S_UNPROTECT) { mtop->np--; mvars[v].state = 2; }
                else if (n->kind == S_NULLIFY) { if (mvars[v].null) model_bad = 1; mvars[v].null = 1; }
                else { mvars[v].null = 0; mvars[v].serial = ++mserial; }
                break;
            }
            case S_PROT: {
                mv *v = &mvars[n->id];
                mh *h = mtop;
                int at = h->np;
                v->state = 1; v->null = 0; v->serial = ++mserial;
                h->prot[h->np++] = n->id;
                r = m_block(&n->b[0], e, flags);
                if (r != R_NORMAL) { if (r != R_EXC) model_bad = 1; return r; }
                if (h->np != at + 1) { model_bad = 1; return R_NORMAL; }
                h->np--; v->state = 2;
                break;
            }
        }
        mlog(E_AFTER, n->id, 0);
    }
    return R_NORMAL;
}

/* ---- the real thing ---- */
static int msg_index(const char *m) {
    if (!m) return M_NONE;
    if (!strcmp(m, "A")) return M_A;
    if (!strcmp(m, "B")) return M_B;
    if (!strcmp(m, "oops")) return M_PANIC;
    if (!strcmp(m, "panic")) return M_NAME_PANIC;
    return 1000;
}
typedef struct { int id, kind; memory_t *scope; } rdef;
static rdef rdefs[MAXN * 2];
static int nrdefs;
static void *rvars[MAXN + 2], *rptrs[MAXN + 2];
static ex_ptr_t rslots[MAXN + 2];
static int rserial;
static struct { int serial, owner; char pad[24]; } robj[4 * MAXN];
static struct { void *p; long n; int id; } rblocks[MAXN * 4];
static int nrblocks;
static int rtopvar[MAXN], nrtop;

static void release(void *p) {
    size_t off = (size_t)((char *)p - (char *)robj);
    if (off >= sizeof robj || off % sizeof *robj) rlog(E_RELEASE, 999, 0);
    else rlog(E_RELEASE, ((int *)p)[1], *(int *)p);
}
static void *object(int id) { int s = ++rserial; robj[s].serial = s; robj[s].owner = id; return &robj[s]; }

static char cells[4 * MAXN + 4];
static int rhooked;
static int cell(void *p) { return p == NULL ? 0 : (char *)p > cells && (char *)p < cells + sizeof cells ? (int)((char *)p - cells) : 1000; }
static void setup_hook(ex_context_t *ctx, const char *ex, const char *message) {
    ++rhooked;
    if (rhooked >= (int)sizeof cells) mc_fail("the setup hook is called without end");
    mc_check(ctx == ex_local(), "the setup hook gets another handler");
    rlog(E_SETUP, 0, msg_index(ex));
    rlog(E_SETUP_MSG, 0, msg_index(message));
    rlog(E_SETUP_DATA, rhooked, cell(ex_data_get(ctx, NULL)));
    if (hmode == H_SWAP) ex_swap_set(ctx, cells + rhooked);
    else if (hmode != H_LOOK) ex_data_set(ctx, cells + rhooked);
    if (hmode == H_SOME) { if (msg_index(ex) == M_A) ex_unwind_set(ctx, true); }
    else if (hmode == H_UNWIND || hmode == H_SWAP || hmode == H_NO_UNWIND) ex_unwind_set(ctx, true);
}
static void unwind_hook(void *data) { rlog(E_UNWIND, 0, cell(data)); }
static void set_hooks(int on) {
    exception_setup_func = on && hmode && hmode != H_ONLY_UNWIND ? setup_hook : NULL;
    exception_unwind_func = on && hmode && hmode != H_NO_UNWIND ? unwind_hook : NULL;
}
static void in_catch(int id) {
    if (!hmode) return;
    rlog(E_CATCH_DATA, id, cell(ex_data_get(ex_local(), NULL)));
    if (hmode == H_SWAP) { ex_swap_reset(ex_local()); rlog(E_CATCH_DATA, id, cell(ex_data_get(ex_local(), NULL))); }
}

static int exec_block(block *b);
static void deferred(void *p);
static void inner_guard(int id)
guard {
    raii_recover_by(_$__FUNCTION__, (func_t)0 == NULL ? (func_t)deferred : NULL, &rdefs[MAXN * 2 - 1]);
    rlog(E_INNER, id, 1);
} guarded
static void deferred(void *p) {
    rdef *d = (rdef *)p;
    int ok;
    if (d == &rdefs[MAXN * 2 - 1]) { rlog(E_INNER, d->id, 2); return; }
    rlog(E_DEFER, d->id, 0);
    rlog(E_DEFER_MSG, d->id, msg_index(_get_message()));
    switch (d->kind) {
        case D_THROW: line_D = __LINE__; throw(B); break;
        case D_PANIC: line_DP = __LINE__; _panic("oops"); break;
        case D_RECOVER: ok = _get_message() ? _recover(_get_message()) : _recover("nothing"); rlog(E_RECOVERED, d->id, !!ok); break;
        case D_RECOVER_A: ok = _recover("A"); rlog(E_RECOVERED, d->id, !!ok); break;
        case D_ISCAUGHT_A: ok = _is_caught(A); rlog(E_RECOVERED, d->id, !!ok); break;
        case D_CAUGHT_A: ok = caught(A); rlog(E_RECOVERED, d->id, !!ok); break;
        case D_RECOVER_WRONG: ok = _recover("another"); rlog(E_RECOVERED, d->id, !!ok); break;
        case D_TRY: { volatile int id = d->id; try { throw(A); } catch(A) { rlog(E_INNER, id, msg_index(err)); } end_try; rlog(E_INNER, id, 99); break; }
        case D_NEST: { rdef *e = &rdefs[nrdefs++]; e->id = d->id + 1000; e->kind = D_LOG; e->scope = d->scope; raii_recover_by(d->scope, deferred, e); break; }
        case D_GUARD: rdefs[MAXN * 2 - 1].id = d->id; inner_guard(d->id); break;
    }
}
static void on_free(void *p, long size) {
    int i, k;
    (void)size;
    for (i = nrblocks - 1; i >= 0; i--) if (rblocks[i].p == p) {
        for (k = 0; k < rblocks[i].n; k++) if (((unsigned char *)p)[k] != (unsigned char)(rblocks[i].id + 3)) mc_fail("memory of a guard changed before its release");
        rlog(E_FREE, rblocks[i].id, 0);
        rblocks[i].p = NULL;
        return;
    }
}
static memory_t *cur_scope(void) { return (memory_t *)raii_local()->arena; }

#define CATCH(i) do { int code; rlog(E_CATCH, n->id * 4 + i, msg_index(err)); rlog(E_CATCH_MSG, n->id, msg_index(raii_message())); rlog(E_CATCH_LINE, n->id, err_line); in_catch(n->id); \
    code = exec_block(&n->b[i]); if (code == R_RETHROW) rethrow(); } while (0)
#define FINALLY(i) do { rlog(E_FINALLY, n->id, msg_index(err)); (void)exec_block(&n->b[i]); } while (0)
#define CATCH_IF do { int ok = caught(A); rlog(E_CAUGHT, n->id, ok); if (ok) CATCH(1); } while (0)

static void exec_try(node *n) {
    switch (n->arg) {
        case T_A: try { exec_block(&n->b[0]); } catch(A) { CATCH(1); } end_try; break;
        case T_ANY: try { exec_block(&n->b[0]); } catch_any { CATCH(1); } end_try; break;
        case T_A_F: try { exec_block(&n->b[0]); } catch(A) { CATCH(1); } finally { FINALLY(2); } end_try; break;
        case T_ANY_F: try { exec_block(&n->b[0]); } catch_any { CATCH(1); } finally { FINALLY(2); } end_trying; break;
        case T_F: try { exec_block(&n->b[0]); } finally { FINALLY(1); } end_try; break;
        case T_NONE: try { exec_block(&n->b[0]); } end_try; break;
        case T_A_B: try { exec_block(&n->b[0]); } catch(A) { CATCH(1); } catch(B) { CATCH(2); } end_try; break;
        case T_A_ANY_F: try { exec_block(&n->b[0]); } catch(A) { CATCH(1); } catch_any { CATCH(2); } finally { FINALLY(3); } end_try; break;
        case T_A_B_ANY: try { exec_block(&n->b[0]); } catch(A) { CATCH(1); } catch(B) { CATCH(2); } catch_any { CATCH(3); } end_try; break;
        case T_PANIC: try { exec_block(&n->b[0]); } catch(panic) { CATCH(1); } end_try; break;
        case T_IF: try { exec_block(&n->b[0]); } catch_if { CATCH_IF; } end_try; break;
        case T_IF_F: try { exec_block(&n->b[0]); } catch_if { CATCH_IF; } finally { FINALLY(2); } end_try; break;
        case T_FINALITY: try { exec_block(&n->b[0]); } finality { FINALLY(1); } end_trying; break;
        case T_IF_IF: try { exec_block(&n->b[0]); } catch_if {
            int ok = caught(A); rlog(E_CAUGHT, n->id, ok);
            if (ok) CATCH(1);
            else { ok = caught(B); rlog(E_CAUGHT, n->id, ok); if (ok) CATCH(2); }
        } end_try; break;
        case T_IF_ANY_F: try { exec_block(&n->b[0]); } catch_if { CATCH_IF; } catch_any { CATCH(2); } finally { FINALLY(3); } end_try; break;
        case T_A_IF: try { exec_block(&n->b[0]); } catch(A) { CATCH(1); } catch_if {
            int ok = caught(B); rlog(E_CAUGHT, n->id, ok); if (ok) CATCH(2);
        } end_try; break;
    }
}
static void exec_guarded(node *n, volatile int *value) {
    guard {
        int code = exec_block(&n->b[0]);
        if (code == R_BREAK) break;
        if (code == R_RETURN) { *value = 2; _return(NONE); }
    } guarded
    *value = 1;
}
static int exec_unguarded(node *n)
guard {
    int code = exec_block(&n->b[0]);
    if (code == R_BREAK) break;
    if (code == R_RETURN) { _return(2); }
} unguarded(1)

static void exec_prot(node *n) {
    void *p = object(n->id);
    int i;
    for (i = 0; i <= MAXN; i++) if (rvars[i] == (void *)&p) rvars[i] = NULL;
    rvars[n->id] = &p;
    {
        protected(p, release);
        exec_block(&n->b[0]);
        unprotected(p);
    }
}
static int exec_block(block *b) {
    int i;
    for (i = 0; i < b->n; i++) {
        node *n = &nodes[b->k[i]];
        switch (n->kind) {
            case S_THROW:
                switch (n->arg) {
                    case X_A: line_A = __LINE__; throw(A); break;
                    case X_B: ex_throw(EX_NAME(B), "elsewhere.c", 1000 + n->id, "somebody", NULL, NULL); break;
                    case X_PANIC: line_P = __LINE__; raii_panic("oops"); break;
                    case X_PANIC_A: line_PA = __LINE__; raii_panic("A"); break;
                }
                mc_fail("a throw returned");
                break;
            case S_RETHROW: return R_RETHROW;
            case S_TRY: exec_try(n); break;
            case S_GUARD: {
                int v;
                if (n->arg) v = exec_unguarded(n); else { volatile int w = 0; exec_guarded(n, &w); v = w; }
                rlog(E_VALUE, n->id, v);
                break;
            }
            case S_DEFER: {
                rdef *d = &rdefs[nrdefs++];
                unique_t *_$__FUNCTION__ = cur_scope();
                d->id = n->id; d->kind = n->arg; d->scope = cur_scope();
                _defer(deferred, d);
                break;
            }
            case S_ALLOC: {
                unique_t *_$__FUNCTION__ = cur_scope();
                long size = 8 + n->id % 3 * 20;
                unsigned char *p = (n->id & 1) ? _malloc(size) : _calloc(2, size / 2);
                memset(p, n->id + 3, size);
                rblocks[nrblocks].p = p; rblocks[nrblocks].n = size; rblocks[nrblocks].id = n->id; nrblocks++;
                rlog(E_ALLOC, n->id, mc_block_live(p) == 1 ? 0 : 1);
                break;
            }
            case S_BREAK: return R_BREAK;
            case S_RETURN: return R_RETURN;
            case S_PROTECT:
                rptrs[n->id] = n->arg == 1 ? NULL : object(n->id);
                if (n->arg == 1) rserial++;
                rvars[n->id] = &rptrs[n->id];
                ex_protect_ptr(&rslots[n->id], &rptrs[n->id], release);
                break;
            case S_UNPROTECT: case S_NULLIFY: case S_REASSIGN: {
                ex_ptr_t *p = ex_local()->stack;
                void **var = p->ptr;
                if (n->kind == S_UNPROTECT) { if (n->id & 1) ex_unprotected_ptr(p); else ex_local()->stack = p->next; }
                else if (n->kind == S_NULLIFY) *var = NULL;
                else { int i; for (i = 0; i <= MAXN && rvars[i] != (void *)var; i++) ; *var = object(i); }
                break;
            }
            case S_PROT: exec_prot(n); break;
        }
        rlog(E_AFTER, n->id, 0);
    }
    return R_NORMAL;
}

/* ---- one case ---- */
static void show_block(FILE *f, block *b, int ind);
static void prog_expect(void) {
    int i;
    exc e = {0};
    mh h = {NULL, 0};
    nmev = 0; mhash = 17; model_bad = 0; mserial = 0; mhooked = 0; mguard = NULL; msteps = 0;
    memset(reached, 0, sizeof reached);
    mtop = &h;
    { int r = m_block(&root, &e, 0);
      if (r == R_EXC) { mlog(E_TOP, name_of(&e), e.line); mlog(E_TOP, 50, msg_of(&e)); } else mlog(E_TOP, 100, r); }
    mtop = NULL;
    if (model_bad) mc_skip();
    for (i = 0; i < nnodes; i++) if (!reached[i]) mc_skip();  /* the same as a program without it */
}
static void prog_gen(void) {
    nnodes = 0;
    budget = G.budget;
    n_protected = 0;
    gen_block(&root, IN_TRY, 0);
    prog_expect();
}
/* Deep programs: levels of two kinds in turn, one level of another kind somewhere, and the end of the innermost. */
enum { IN_BODY, IN_CLAUSE, IN_LAST };
typedef struct { int kind, arg, where, defers, what; } level;
static int add(block *b, int kind, int arg) { int id = new_node(kind, arg); b->k[b->n++] = id; return id; }
static block *deeper(block *b, const level *l) {
    int i, id, other;
    block *in;
    if (l->kind == S_GUARD) {
        id = add(b, S_GUARD, l->arg);
        for (i = 0; i < l->defers; i++) add(&nodes[id].b[0], S_DEFER, i ? D_LOG : l->what);
        if (l->defers > 1) add(&nodes[id].b[0], S_ALLOC, 0);
        return &nodes[id].b[0];
    }
    id = add(b, l->kind, l->arg);
    in = &nodes[id].b[0];
    if (l->where == IN_CLAUSE) { add(in, S_THROW, X_A); in = &nodes[id].b[1]; }
    if (l->where == IN_LAST) { other = nclauses(l->arg); if (l->defers) add(in, S_THROW, X_A); in = &nodes[id].b[other]; }
    return in;
}
static void deep_gen(const level *kinds, int nk, const level *special, int nspecial, const int *ends, int nends, int maxdepth) {
    int depth, i, at, a, b, c, e;
    block *in = &root;
    static const int deeps[] = {1, 2, 3, 5, 8, 12, 20, 33};
    int nd = 0;
    while (nd < 8 && deeps[nd] <= maxdepth) nd++;
    nnodes = 0; root.n = 0;
    depth = deeps[mc_choose(nd)];
    a = mc_choose(nk); b = mc_choose(nk); c = mc_choose(nspecial + 1) - 1;
    if (depth == 1 && b) mc_skip();
    at = c < 0 ? -1 : mc_choose(depth);
    if (depth > 8 && at > 3 && at < depth - 4) mc_skip();
    e = ends[mc_choose(nends)];
    for (i = 0; i < depth; i++) in = deeper(in, i == at ? &special[c] : &kinds[i & 1 ? b : a]);
    if (e == S_BREAK || e == S_RETURN) {
        /* only straight in a guard */
        const level *l = at == depth - 1 ? &special[c] : &kinds[(depth - 1) & 1 ? b : a];
        if (l->kind != S_GUARD) mc_skip();
    }
    if (e == S_RETHROW) {
        const level *l = at == depth - 1 ? &special[c] : &kinds[(depth - 1) & 1 ? b : a];
        if (l->where != IN_CLAUSE) mc_skip();
    }
    if (e >= 100) add(in, S_THROW, e - 100);
    else if (e >= 0) add(in, e, 0);
    prog_expect();
}
/* One block with many statements of two kinds in turn. */
static void wide_gen(const level *outer, int nouter, const int (*kinds)[2], int nk, const int *ends, int nends, int most) {
    int i, n, a, b, e;
    block *in = &root;
    nnodes = 0; root.n = 0;
    in = deeper(in, &outer[mc_choose(nouter)]);
    n = mc_choose(most + 1); a = mc_choose(nk); b = mc_choose(nk);
    e = ends[mc_choose(nends)];
    for (i = 0; i < n; i++) add(in, kinds[i & 1 ? b : a][0], kinds[i & 1 ? b : a][1]);
    if (e >= 100) add(in, S_THROW, e - 100);
    else if (e >= 0) add(in, e, 0);
    prog_expect();
}
static void prog_warm(void) {
    /* the lines of the throw sites are known once each was executed */
    static int done;
    int i;
    if (done) return;
    done = 1;
    for (i = 0; i < NX; i++) {
        volatile int v = i;
        node save = nodes[0];
        block b = {1, {0}};
        memset(&nodes[0], 0, sizeof nodes[0]);
        nodes[0].kind = S_THROW; nodes[0].arg = i;
        try { exec_block(&b); } catch_any { v = 0; } end_try;
        nodes[0] = save;
        (void)v;
    }
    for (i = 0; i < 2; i++) {
        rdef d; d.id = 0; d.kind = i ? D_PANIC : D_THROW; d.scope = NULL;
        { memory_t tmp; memset(&tmp, 0, sizeof tmp); raii_local()->arena = (void *)&tmp;
          try { deferred(&d); } catch_any { (void)err; } end_try;
          raii_local()->arena = NULL; }
    }
    nrev = 0;
}
static void __attribute__((noinline)) scribble(int c) { volatile char junk[24576]; memset((void *)junk, c, sizeof junk); __asm__ volatile("" : : "r"(junk) : "memory"); }
static void run_top(void) {
    try {
        int r = exec_block(&root);
        rlog(E_TOP, 100, r);
    } catch_any {
        rlog(E_TOP, msg_index(err), err_line);
        rlog(E_TOP, 50, msg_index(raii_message()));
    } end_try;
}
static void prog_run(void) {
    int i;
    ex_context_t *before = ex_local();
    void *arena = raii_local()->arena;
    sigset_t m0, m1;
    uint64_t h = 1;
    static int flip;
    nrev = 0; nrdefs = 0; rhooked = 0; nrblocks = 0; rserial = 0;
    memset(rvars, 0, sizeof rvars);
    mc_alloc_reset();
    mc_on_free = on_free;
    sigprocmask(SIG_SETMASK, NULL, &m0);
    scribble(flip++ & 1 ? 0x01 : 0xff);
    set_hooks(1);
    run_top();
    set_hooks(0);
    for (i = 0; i < nrev || i < nmev; i++) {
        if (i >= nmev) mc_fail("extra event %d: %s %d (%d)", i, ev_name[rev[i].what], rev[i].id, rev[i].val);
        if (i >= nrev) mc_fail("missing event %d: %s %d (%d)", i, ev_name[mev[i].what], mev[i].id, mev[i].val);
        if (rev[i].what != mev[i].what || rev[i].id != mev[i].id || rev[i].val != mev[i].val)
            mc_fail("event %d is %s %d (%d), expected %s %d (%d)", i, ev_name[rev[i].what], rev[i].id, rev[i].val, ev_name[mev[i].what], mev[i].id, mev[i].val);
        h = mc_mix(h, rev[i].what * 1000 + rev[i].id * 7 + rev[i].val);
    }
    mc_check(ex_local() == before, "the handler before the program is not the one after it");
    mc_check(raii_local()->arena == arena, "the scope before the program is not the one after it");
    sigprocmask(SIG_SETMASK, NULL, &m1);
    for (i = 1; i < 32; i++) mc_check(sigismember(&m0, i) == sigismember(&m1, i), "signal %d is %sblocked after the program", i, sigismember(&m1, i) ? "" : "un");
    mc_on_free = NULL;
    mc_alloc_verify("at the end");
    mc_check(mc_alloc_live() == 0, "%ld blocks are never released", mc_alloc_live());
    mc_check(raii_deferred_count(raii_local()) == 0, "the thread's scope holds deferred functions");
    mc_outcome(h);
    mc_steps(msteps);
}
static const char *xname[] = {"throw(A)", "throw(B)", "panic(\"oops\")", "panic(\"A\")"};
static const char *dname[] = {"log", "throw(B)", "panic(\"oops\")", "recover(message)", "recover(\"A\")", "caught(A)", "is_caught(A)", "recover(\"another\")", "try { throw(A) } catch(A)", "defer another", "guard { defer }"};
static const char *tnames[][4] = {{"catch(A)"}, {"catch_any"}, {"catch(A)", "finally"}, {"catch_any", "finally"}, {"finally"}, {""}, {"catch(A)", "catch(B)"}, {"catch(A)", "catch_any", "finally"}, {"catch(panic)"}, {"catch_if(caught(A))"}, {"catch_if(caught(A))", "finally"}, {"catch(A)", "catch(B)", "catch_any"}, {"finality"}, {"catch_if(caught(A))", "or caught(B)"}, {"catch_if(caught(A))", "catch_any", "finally"}, {"catch(A)", "catch_if(caught(B))"}};
static void show_block(FILE *f, block *b, int ind) {
    int i, k;
    for (i = 0; i < b->n; i++) {
        node *n = &nodes[b->k[i]];
        fprintf(f, "%*s#%d ", ind * 2, "", n->id);
        switch (n->kind) {
            case S_THROW: fprintf(f, "%s\n", xname[n->arg]); break;
            case S_RETHROW: fprintf(f, "rethrow\n"); break;
            case S_TRY:
                fprintf(f, "try {\n"); show_block(f, &n->b[0], ind + 1);
                for (k = 0; k < nclauses(n->arg); k++) { fprintf(f, "%*s} %s {\n", ind * 2, "", tnames[n->arg][k]); show_block(f, &n->b[1 + k], ind + 1); }
                fprintf(f, "%*s} end_try\n", ind * 2, "");
                break;
            case S_GUARD: fprintf(f, "guard {\n"); show_block(f, &n->b[0], ind + 1); fprintf(f, "%*s} %s\n", ind * 2, "", n->arg ? "unguarded(1)" : "guarded"); break;
            case S_DEFER: fprintf(f, "defer(%s)\n", dname[n->arg]); break;
            case S_ALLOC: fprintf(f, "allocate\n"); break;
            case S_BREAK: fprintf(f, "break\n"); break;
            case S_RETURN: fprintf(f, "_return(2)\n"); break;
            case S_PROTECT: fprintf(f, "protect %s pointer\n", n->arg ? "a NULL" : "a"); break;
            case S_UNPROTECT: fprintf(f, "unprotect the newest\n"); break;
            case S_NULLIFY: fprintf(f, "set the newest protected to NULL\n"); break;
            case S_REASSIGN: fprintf(f, "point the newest protected elsewhere\n"); break;
            case S_PROT: fprintf(f, "protected {\n"); show_block(f, &n->b[0], ind + 1); fprintf(f, "%*s} unprotected\n", ind * 2, ""); break;
        }
    }
}
static const char *hname[] = {"", "setup looks", "setup sets data", "setup sets data and asks for unwinding", "setup swaps data and asks for unwinding", "no setup", "setup asks for unwinding, no unwind function", "setup asks for unwinding for A"};
static void prog_show(FILE *f) { int i; if (hmode) fprintf(f, "hooks: %s\n", hname[hmode]); show_block(f, &root, 0); fprintf(f, "expected:"); for (i = 0; i < nmev && i < MAXEV; i++) fprintf(f, " %s %d (%d);", ev_name[mev[i].what], mev[i].id, mev[i].val); fprintf(f, "\n"); }
static void prog_init(void) { ex_signal_setup(); raii_init(); mc_crash_handlers(); prog_warm(); }
#define SET(field, ...) do { static const int v_[] = {__VA_ARGS__}; G.field##s = v_; G.n##field = sizeof v_ / sizeof *v_; } while (0)

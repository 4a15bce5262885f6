/* Histories of one scope: deferring, allocating, cancelling, firing and releasing, also from
   inside deferred functions; compared with a list of armed entries. */
#include "raii.h"
#include "mc.h"

enum { K_PLAIN, K_REC, K_NEST, K_NEST2, K_CANCELS, K_FIRES, K_RELEASES, K_ALLOCS, NKIND };
static const char *kind_name[] = {"defer(log)", "recover(log)", "defer(log, defers another)", "defer(log, defers two, one of which defers again)",
    "defer(log, cancels the oldest armed)", "defer(log, fires the oldest armed)", "defer(log, releases the scope)", "defer(log, allocates)"};
enum { O_DEFER, O_CANCEL, O_FIRE, O_RELEASE, O_ALLOC, O_HALLOC };

typedef struct { int op, kind, arg; } op_t;
#define MAXOPS 16
static int scope_kind, end_kind, prefill, nops;
static op_t ops[MAXOPS];

/* ---- events ---- */
#define MAXEV 512
enum { E_RUN, E_FREED, E_STEP };
typedef struct { int what, id; } ev_t;
static ev_t real_ev[MAXEV], model_ev[MAXEV];
static int nreal, nmodel;
static void ev(ev_t *e, int *n, int what, int id) { if (*n < MAXEV) { e[*n].what = what; e[*n].id = id; } (*n)++; }

/* ---- the model: armed entries, oldest first ---- */
typedef struct { int id, kind; } ment;
static ment marmed[MAXEV];
static int mn, mnext;
static unsigned long mtrans;
static void m_push(int kind) { marmed[mn].id = mnext++; marmed[mn].kind = kind; mn++; mtrans++; }
static void m_del(int at) { memmove(marmed + at, marmed + at + 1, sizeof(ment) * (mn - at - 1)); mn--; }
static void m_release(void);
static void m_call(ment e) {
    mtrans++;
    if (e.kind == K_ALLOCS + 100) { ev(model_ev, &nmodel, E_FREED, e.id); return; }
    ev(model_ev, &nmodel, E_RUN, e.id);
    switch (e.kind) {
        case K_NEST: m_push(K_PLAIN); break;
        case K_NEST2: m_push(K_PLAIN); m_push(K_NEST); break;
        case K_CANCELS: if (mn) m_del(0); break;
        case K_FIRES: if (mn) { ment f = marmed[0]; m_del(0); m_call(f); } break;
        case K_RELEASES: m_release(); break;
        case K_ALLOCS: m_push(K_ALLOCS + 100); break;
    }
}
static void m_release(void) { while (mn) { ment e = marmed[--mn]; m_call(e); } }
static void m_state(int step) {
    uint64_t h = mc_mix(77, scope_kind * 4 + end_kind);
    int i;
    (void)step;
    for (i = 0; i < mn; i++) h = mc_mix(h, marmed[i].kind + 1);
    mc_state(h);
}

/* ---- the real thing ---- */
typedef struct { int id, kind, armed, alloc, arena; size_t index; void *block; long size; unsigned char fill; } rent;
static rent rents[MAXEV];
static int rn;
static memory_t *scope;
static int real_next;
static void r_log(void *p);
static void r_dtor(void *p);

static int r_new(int kind) {
    rent *r = &rents[rn];
    if (rn >= MAXEV - 4) mc_fail("deferred functions never stop running");
    memset(r, 0, sizeof *r);
    r->id = real_next++; r->kind = kind; r->armed = 1;
    return rn++;
}
static void r_defer(int kind) {
    int i = r_new(kind);
    rent *r = &rents[i];
    int rec = kind == K_REC;
    if (scope_kind == 0) {
        if (rec) { size_t before = raii_deferred_count(scope); raii_recover(r_log, r); (void)before; r->index = raii_deferred_count(scope) - 1; }
        else r->index = (i & 1) ? raii_defer(r_log, r) : raii_deferred(scope, r_log, r);
    } else {
        if (rec) { raii_recover_by(scope, r_log, r); r->index = raii_deferred_count(scope) - 1; }
        else r->index = raii_deferred(scope, r_log, r);
    }
    if (!rec) mc_check(r->index != (size_t)-1, "deferring was refused");
}
static const long sizes[] = {1, 24, 33, 4097, 2};
static void r_fill(rent *r) {
    r->fill = (unsigned char)(0x31 + r->id * 7);
    memset(r->block, r->fill, r->size);
}
/* how: 0 malloc_full with a destructor of our own, 1 malloc_full RAII_FREE, 2 calloc_full RAII_FREE, 3 malloc_by, 4 calloc_by, 5 raii_memdup/malloc_default, 6 calloc_default */
static void r_alloc(int how) {
    int i = r_new(K_ALLOCS + 100), k;
    rent *r = &rents[i];
    long size = sizes[i % 5];
    static unsigned char src[5000];
    r->alloc = 1; r->size = size;
    switch (how) {
        case 0: r->block = malloc_full(scope, size, r_dtor); break;
        case 1: r->block = malloc_full(scope, size, (func_t)RAII_FREE); break;
        case 2: r->block = calloc_full(scope, 3, size, (func_t)RAII_FREE); r->size = 3 * size; break;
        case 3: r->block = malloc_by(scope, size); break;
        case 4: r->block = calloc_by(scope, 3, size); r->size = 3 * size; break;
        case 5: case 6:
            if (scope_kind == 2) {
                if (how == 5) r->block = malloc_arena(scope, size);
                else { r->block = calloc_arena(scope, 3, size); r->size = 3 * size; }
                break;
            }
            if (how == 5) { if (scope_kind == 0) r->block = malloc_default(size); else r->block = malloc_by(scope, size); }
            else { if (scope_kind == 0) r->block = calloc_default(3, size); else r->block = calloc_by(scope, 3, size); r->size = 3 * size; }
            break;
        case 7:
            for (k = 0; k < size; k++) src[k] = (unsigned char)(k * 7 + 1);
            r->block = scope_kind == 0 ? raii_memdup(src, size) : str_memdup_ex(scope, src, size);
            mc_check(mc_block_live(r->block), "duplicated memory is not there");
            for (k = 0; k < size; k++) mc_check(((unsigned char *)r->block)[k] == (unsigned char)(k * 7 + 1), "duplicated memory differs at %d", k);
            r->size = size;
            break;
    }
    if (scope_kind == 2 && how >= 3 && how < 7) {
        int e;
        r->arena = 1; r->armed = 0;
        mc_check(r->block != NULL && mc_block_live(r->block) && mc_block_live((char *)r->block + r->size - 1), "the arena's allocation is not live memory");
        for (e = 0; e < i; e++) if (rents[e].block && (rents[e].armed || rents[e].arena))
            mc_check((char *)r->block + r->size <= (char *)rents[e].block || (char *)r->block >= (char *)rents[e].block + rents[e].size, "the allocation overlaps another of %ld bytes", rents[e].size);
    } else {
        r->index = raii_last_mid(scope);
        mc_check(r->block != NULL && mc_block_live(r->block), "the scope's allocation is not a live block");
        mc_check(mc_block_size(r->block) >= r->size, "asked for %ld bytes, got a block of %ld", r->size, mc_block_size(r->block));
    }
    if (how == 2 || how == 4 || how == 6)
        for (k = 0; k < r->size; k++) mc_check(((unsigned char *)r->block)[k] == 0, "calloc memory is not zero at %d", k);
    r_fill(r);
}
static rent *r_oldest(void) {
    int i;
    /* armed entries, in the order of their ids */
    for (i = 0; i < rn; i++) if (rents[i].armed) return &rents[i];
    return NULL;
}
static rent *r_nth(int n) {
    int i;
    for (i = 0; i < rn; i++) if (rents[i].armed && n-- == 0) return &rents[i];
    return NULL;
}
static void r_release(int how) {
    if (scope_kind == 0) {
        if (how == 0) raii_deferred_clean();
        else if (how == 1) raii_deferred_free(scope);
        else raii_destroy();
    } else raii_deferred_free(scope);
}
static void check_contents(rent *r, const char *when) {
    long k;
    mc_check(r->arena ? mc_block_live(r->block) : mc_block_live(r->block) == 1, "%s: memory of the scope is gone before its release", when);
    for (k = 0; k < r->size; k++) mc_check(((unsigned char *)r->block)[k] == r->fill, "%s: memory of the scope changed at byte %ld", when, k);
}
static void arena_contents(const char *when) {
    int i;
    for (i = 0; i < rn; i++) if (rents[i].arena) check_contents(&rents[i], when);
}
static void r_log(void *p) {
    rent *r = (rent *)p;
    if (p < (void *)rents || p >= (void *)(rents + rn)) mc_fail("a deferred function was given another argument");
    ev(real_ev, &nreal, E_RUN, r->id);
    arena_contents("in a deferred function");
    if (nreal > MAXEV - 8) mc_fail("deferred functions never stop running");
    r->armed = 0;
    switch (r->kind) {
        case K_NEST: r_defer(K_PLAIN); break;
        case K_NEST2: r_defer(K_PLAIN); r_defer(K_NEST); break;
        case K_CANCELS: { rent *o = r_oldest(); if (o) { o->armed = 0; raii_deferred_cancel(scope, o->index); } } break;
        case K_FIRES: { rent *o = r_oldest(); if (o) { o->armed = 0; raii_deferred_fire(scope, o->index); } } break;
        case K_RELEASES: r_release(1); break;
        case K_ALLOCS: r_alloc(0); break;
    }
}
static rent *r_block(void *p) {
    int i;
    for (i = rn - 1; i >= 0; i--) if (rents[i].alloc && !rents[i].arena && rents[i].block == p) return &rents[i];
    return NULL;
}
static void freed(void *p, long size) {
    rent *r = r_block(p);
    (void)size;
    if (!r) return;
    check_contents(r, "at its release");
    r->armed = 0;
    ev(real_ev, &nreal, E_FREED, r->id);
}
static void r_dtor(void *p) {
    rent *r = r_block(p);
    if (!r) mc_fail("a destructor was given another address");
    mc_free(p);
}

static void compare(const char *when) {
    int i;
    static const char *w[] = {"run", "free"};
    for (i = 0; i < nmodel || i < nreal; i++) {
        if (i >= nmodel) mc_fail("%s: extra event %d: %s #%d", when, i, w[real_ev[i].what], real_ev[i].id);
        if (i >= nreal) mc_fail("%s: missing event %d: %s #%d", when, i, w[model_ev[i].what], model_ev[i].id);
        if (model_ev[i].what != real_ev[i].what || model_ev[i].id != real_ev[i].id)
            mc_fail("%s: event %d is %s #%d, expected %s #%d", when, i, w[real_ev[i].what], real_ev[i].id, w[model_ev[i].what], model_ev[i].id);
    }
}
static void case_reset(void) {
    mn = mnext = 0; nmodel = nreal = 0; rn = real_next = 0; mtrans = 0;
    mc_alloc_reset();
    mc_on_free = freed;
}

static void scope_run(void) {
    int i;
    uint64_t h = 5;
    case_reset();
    if (scope_kind == 0) { raii_init(); scope = raii_local(); }
    else scope = scope_kind == 2 ? unique_init_arena() : unique_init();
    for (i = 0; i < prefill; i++) { m_push(K_PLAIN); r_defer(K_PLAIN); }
    for (i = 0; i < nops; i++) {
        op_t *o = &ops[i];
        int n;
        switch (o->op) {
            case O_DEFER: m_push(o->kind); r_defer(o->kind); break;
            case O_CANCEL: case O_FIRE:
                if (!mn) break;
                n = o->arg == 0 ? mn - 1 : o->arg == 1 ? 0 : o->arg == 2 ? mn / 2 : o->arg - 3 < mn ? o->arg - 3 : mn - 1;
                { rent *r; ment e = marmed[n];
                  /* the n-th armed entry, by id */
                  int k; r = NULL;
                  for (k = 0; k < rn; k++) if (rents[k].id == e.id) r = &rents[k];
                  m_del(n);
                  mtrans++;
                  if (o->op == O_FIRE) m_call(e);
                  if (!r) mc_fail("harness");
                  r->armed = 0;
                  if (o->op == O_CANCEL) {
                      if (scope_kind == 0 && (i & 1)) raii_defer_cancel(r->index); else raii_deferred_cancel(scope, r->index);
                      if (r->alloc) { mc_on_free = NULL; mc_free(r->block); mc_on_free = freed; r->alloc = 0; }
                  } else {
                      if (scope_kind == 0 && (i & 1)) raii_defer_fire(r->index); else raii_deferred_fire(scope, r->index);
                  }
                }
                break;
            case O_RELEASE: m_release(); r_release(o->arg); mc_check(raii_deferred_count(scope) == 0, "deferred functions left after a release"); break;
            case O_ALLOC: if (scope_kind == 2 && o->kind >= 3 && o->kind < 7) mnext++; else m_push(K_ALLOCS + 100); r_alloc(o->kind); break;
        }
        arena_contents("after a step");
        compare("after a step");
        m_state(i);
    }
    for (i = 0; i < rn; i++) if (rents[i].alloc && rents[i].armed) check_contents(&rents[i], "before the release");
    m_release();
    if (scope_kind == 0) {
        r_release(end_kind);
        compare("after the release");
        mc_check(raii_deferred_count(scope) == 0, "deferred functions left after the release");
        r_release(0);
    } else {
        if (end_kind == 0) { raii_deferred_free(scope); compare("after the release"); mc_check(raii_deferred_count(scope) == 0, "deferred functions left after the release"); }
        if (scope_kind == 2) free_arena(scope); else raii_delete(scope);
    }
    compare("at the end");
    mc_alloc_verify("at the end");
    if (scope_kind == 2) {
        /* what arenas keep for later goes to the next arena */
        arena_t d;
        mc_on_free = NULL;
        mc_check(mc_alloc_live() <= 32, "%ld blocks are left when all arenas are gone", mc_alloc_live());
        if (mc_alloc_live()) { d = arena_init(1); arena_alloc(d, 3 << 20); arena_free(d); }
    }
    mc_check(mc_alloc_live() == 0, "%ld blocks are never released", mc_alloc_live());
    for (i = 0; i < nreal && i < MAXEV; i++) h = mc_mix(h, real_ev[i].what * 1000 + real_ev[i].id);
    mc_outcome(h);
    mc_steps(mtrans);
}

static void which(FILE *f, const char *what, int arg) {
    static const char *whichs[] = {"newest armed", "oldest armed", "middle armed"};
    if (arg < 3) fprintf(f, "%s the %s\n", what, whichs[arg]); else fprintf(f, "%s number %d of the armed\n", what, arg - 3);
}
static void scope_show(FILE *f) {
    int i;
    static const char *rel[] = {"raii_deferred_clean", "raii_deferred_free", "raii_destroy"};
    static const char *al2[] = {"malloc_arena", "calloc_arena"};
    static const char *al[] = {"malloc_full(own destructor)", "malloc_full", "calloc_full", "malloc_by", "calloc_by", "malloc_default", "calloc_default", "memdup"};
    fprintf(f, "scope: %s\n", scope_kind ? (scope_kind == 2 ? "unique_init_arena()" : "unique_init()") : "the thread's");
    if (prefill) fprintf(f, "%d x defer(log)\n", prefill);
    for (i = 0; i < nops; i++) {
        op_t *o = &ops[i];
        switch (o->op) {
            case O_DEFER: fprintf(f, "%s\n", kind_name[o->kind]); break;
            case O_CANCEL: which(f, "cancel", o->arg); break;
            case O_FIRE: which(f, "fire", o->arg); break;
            case O_RELEASE: fprintf(f, "release (%s)\n", scope_kind ? rel[1] : rel[o->arg]); break;
            case O_ALLOC: fprintf(f, "%s\n", scope_kind == 2 && (o->kind == 5 || o->kind == 6) ? al2[o->kind - 5] : al[o->kind]); break;
        }
    }
    fprintf(f, "end: %s\n", scope_kind == 2 ? (end_kind ? "free_arena" : "raii_deferred_free, free_arena") : scope_kind ? (end_kind ? "raii_delete" : "raii_deferred_free, raii_delete") : rel[end_kind]);
}
static void scope_init(void) { raii_init(); ex_signal_setup(); mc_crash_handlers(); }
static void scope_gen_ends(void) {
    scope_kind = mc_choose(3);
    end_kind = scope_kind ? mc_choose(2) : mc_choose(3);
}

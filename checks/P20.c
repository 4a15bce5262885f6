/* Threads do not meet: whatever scopes, guards, handlers, protected pointers and exceptions threads use
   at the same time, each sees what it sees when it runs alone. */
#include "raii.h"
#include "mc_sched.h"

enum { A_SCOPE, A_CLEAN, A_UNIQUE, A_ARENA, A_GUARD, A_GUARD_THROW, A_GUARD_RECOVER, A_GUARD_PANIC, A_TRY, A_PANIC, A_OTHER,
    A_RETHROW, A_FINALLY, A_PROTECT, A_UNPROTECT, A_HANDLER, A_ASK, A_CANCEL, A_FIRE, A_STRING, A_ARGS, A_NESTED, A_CAUGHT, A_RECOVER_SCOPE, NA };
static const char *aname[] = {"scope", "clean", "unique", "arena", "guard", "guard-throw", "guard-recover", "guard-panic", "try", "panic", "other",
    "rethrow", "finally", "protect", "unprotect", "handler", "ask", "cancel", "fire", "string", "args", "nested", "caught", "recover-scope"};
#define MT 12
#define MO 3
#define ML 120
static int nt, nop[MT], op[MT][MO];
typedef struct { int n; long v[ML]; int id; } lg;
static lg alone[MT], with[MT];
static void show(FILE *f) {
    int i, j;
    for (i = 0; i < nt; i++) { fprintf(f, i ? " ||" : "threads:"); for (j = 0; j < nop[i]; j++) fprintf(f, " %s", aname[op[i][j]]); }
    fprintf(f, "\n");
}
static void gen(int threads, int ops) {
    int i, j;
    nt = threads;
    for (i = 0; i < nt; i++) {
        nop[i] = ops;
        for (j = 0; j < ops; j++) op[i][j] = mc_choose(NA);
    }
}
static void gen_one(void) { gen(2, 1); }
static void gen_two(void) {
    gen(2, 2);
    if (op[0][0] == op[1][0] && op[0][1] == op[1][1]) return;
    if (op[0][0] == op[1][1] && op[0][1] == op[1][0]) return;
    if (!mc_thorough || (op[0][1] != op[1][0] && op[0][0] != op[1][1])) mc_skip();
}
static void gen_three(void) { gen(3, 1); if (op[1][0] < op[0][0] || op[2][0] < op[1][0]) mc_skip(); }

/* many threads, of one kind or all kinds in turn, in step with each other */
static void gen_many(void) {
    static const int ns[] = {4, 7, 12}, ks[] = {1, 2, 3, 7}, ss[] = {0, 1, 5};
    int i, a = mc_choose(NA), s = ss[mc_choose(3)];
    nt = ns[mc_choose(3)];
    mc_rotate(ks[mc_choose(4)]);
    for (i = 0; i < nt; i++) { nop[i] = 2; op[i][0] = (a + i * s) % NA; op[i][1] = (a + 1 + i * (s + 1)) % NA; }
}
static void say(lg *l, long v) { mc_check(l->n < ML, "too much said"); l->v[l->n++] = v; }
static void text(lg *l, const char *s) { long h = 17; if (!s) h = -1; else while (*s) h = h * 31 + *s++; say(l, h); }
typedef struct { lg *l; int k; int go; } note;
static note *mk(lg *l, int k, note *n) { n->l = l; n->k = k; n->go = 0; return n; }
static void dropped(void *p) { note *n = p; say(n->l, 1000 + n->k); mc_point(); say(n->l, 2000 + n->k); }
static void rec_deferred(void *p) {
    note *n = p;
    mc_point();
    text(n->l, _get_message());
    say(n->l, _recover("range_error"));
}
static void not_rec(void *p) {
    note *n = p;
    text(n->l, raii_message());
    say(n->l, _recover("nothing_like_it"));
}
static void rec_scope(void *p) {
    note *n = p;
    mc_point();
    text(n->l, raii_message());
    say(n->l, raii_caught("range_error"));
}
static void guard_plain(lg *l, note *n)
guard {
    char *p = _malloc(24);
    _defer(dropped, mk(l, 1, n));
    _defer(dropped, mk(l, 2, n + 1));
    mc_point();
    memset(p, l->id, 24);
    mc_point();
    say(l, raii_deferred_count((memory_t *)raii_local()->arena));
    say(l, p[20] == l->id);
} guarded
static void guard_throw(lg *l, note *n, int how)
guard {
    char *p = _malloc(16);
    _defer(dropped, mk(l, 3, n));
    if (how == 1) _defer(rec_deferred, mk(l, 4, n + 1));
    if (how == 2) _defer(not_rec, mk(l, 5, n + 1));
    memset(p, 1, 16);
    mc_point();
    if (how == 2) raii_panic(l->id & 1 ? "odd" : "even");
    throw(range_error);
} guarded
static void guard_nested(lg *l, note *n)
guard {
    _defer(dropped, mk(l, 6, n));
    mc_point();
    try {
        guard_throw(l, n + 1, 0);
        say(l, -5);
    } catch (range_error) {
        mc_point();
        text(l, err);
        say(l, is_guard(raii_local()->arena));
    } end_try;
    guard_throw(l, n + 3, 1);
    say(l, raii_deferred_count((memory_t *)raii_local()->arena));
} guarded
static void act(lg *l, int a, note *n) {
    volatile int done = 0, line = 0;
    ex_context_t *before = ex_init();
    say(l, 100000 + a);
    switch (a) {
        case A_SCOPE: {
            char *p = calloc_default(3, 8);
            raii_defer(dropped, mk(l, 11, n));
            mc_point();
            p[5] = l->id;
            say(l, p[5] == l->id && !p[6]);
            say(l, raii_deferred_count(raii_local()));
            say(l, raii_mid());
            break; }
        case A_CLEAN:
            raii_defer(dropped, mk(l, 12, n));
            raii_defer(dropped, mk(l, 13, n + 1));
            mc_point();
            raii_deferred_clean();
            say(l, raii_deferred_count(raii_local()));
            break;
        case A_UNIQUE: {
            unique_t *u = unique_init();
            char *p = malloc_by(u, 40);
            raii_deferred(u, dropped, mk(l, 14, n));
            mc_point();
            memset(p, 3, 40);
            say(l, raii_last_mid(u));
            raii_delete(u);
            break; }
        case A_ARENA: {
            unique_t *u = unique_init_arena();
            char *p = malloc_by(u, 40), *q;
            mc_point();
            memset(p, l->id, 40);
            q = calloc_by(u, 2, 20);
            mc_point();
            say(l, q[39] == 0 && p[0] == l->id && p[39] == l->id);
            say(l, arena_total((arena_t)u->arena) >= 80);
            free_arena(u);
            break; }
        case A_GUARD: guard_plain(l, n); break;
        case A_GUARD_THROW:
            try { guard_throw(l, n, 0); say(l, -4); } catch (range_error) { mc_point(); text(l, err); say(l, err_line); text(l, err_file); done = 1; } end_try;
            mc_check(done, "the exception of the guard does not arrive");
            break;
        case A_GUARD_RECOVER: guard_throw(l, n, 1); mc_point(); say(l, 71); break;
        case A_GUARD_PANIC:
            try { guard_throw(l, n, 2); say(l, -4); } catch_any { mc_point(); text(l, err); text(l, raii_message()); say(l, !strcmp(raii_message(), l->id & 1 ? "odd" : "even")); done = 1; } end_try;
            mc_check(done, "the panic of the guard does not arrive");
            break;
        case A_TRY:
            try { mc_point(); line = __LINE__; throw(range_error); } catch (range_error) {
                mc_point();
                mc_check(!strcmp(err, "range_error") && err_line == line, "another exception: %s of line %d", err, err_line);
                text(l, err); say(l, ex_local() == &ex_err); done = 1;
            } end_try;
            mc_check(done, "the exception does not arrive");
            break;
        case A_PANIC:
            try { mc_point(); raii_panic("help"); } catch_if {
                mc_point();
                text(l, raii_message());
                if (raii_caught("help")) { say(l, 72); done = 1; }
            } end_try;
            mc_check(done, "the panic does not arrive");
            break;
        case A_OTHER:
            try {
                try { mc_point(); throw(division_by_zero); } catch (range_error) { say(l, -1); } finally { mc_point(); say(l, 73); text(l, err); } end_try;
                say(l, -2);
            } catch (division_by_zero) { mc_point(); text(l, err); done = 1; } end_try;
            mc_check(done, "the exception does not get out");
            break;
        case A_RETHROW:
            try {
                try { throw(logic_error); } catch_any { mc_point(); text(l, err); rethrow(); } end_try;
                say(l, -3);
            } catch (logic_error) { mc_point(); text(l, err); say(l, err_line); done = 1; } end_try;
            mc_check(done, "what is thrown again does not arrive");
            break;
        case A_FINALLY:
            try { mc_point(); say(l, 74); } catch_any { say(l, -6); } finally { mc_point(); say(l, 75); text(l, err); } end_try;
            break;
        case A_PROTECT: {
            void *p = mk(l, 21, n), *q = mk(l, 22, n + 1);
            try {
                protected(p, dropped);
                protected(q, dropped);
                mc_point();
                throw(range_error);
                unprotected(q); unprotected(p);
            } catch_any { mc_point(); text(l, err); done = 1; } end_try;
            mc_check(done, "the exception does not arrive");
            break; }
        case A_UNPROTECT: {
            void *p = mk(l, 23, n), *q = mk(l, 24, n + 1);
            try {
                protected(p, dropped);
                { protected(q, dropped); mc_point(); unprotected(q); }
                mc_point();
                throw(range_error);
                unprotected(p);
            } catch_any { text(l, err); done = 1; } end_try;
            mc_check(done, "the exception does not arrive");
            break; }
        case A_HANDLER:
            try { say(l, ex_local() == &ex_err && ex_err.next == before); mc_point(); say(l, ex_local() == &ex_err); } catch_any { say(l, -7); } end_try;
            say(l, ex_local() == before);
            break;
        case A_ASK:
            text(l, raii_message());
            mc_point();
            say(l, ex_uncaught_exception());
            say(l, raii_local() == raii_init());
            say(l, ex_local() == ex_init());
            say(l, raii_deferred_count(raii_local()));
            say(l, is_guard(raii_local()->arena));
            break;
        case A_CANCEL: {
            size_t i = raii_defer(dropped, mk(l, 31, n)), j;
            mc_point();
            j = raii_defer(dropped, mk(l, 32, n + 1));
            raii_defer_cancel(i);
            mc_point();
            say(l, i); say(l, j); say(l, raii_deferred_count(raii_local()));
            break; }
        case A_FIRE: {
            size_t i = raii_defer(dropped, mk(l, 33, n));
            raii_defer(dropped, mk(l, 34, n + 1));
            mc_point();
            raii_defer_fire(i);
            say(l, raii_deferred_count(raii_local()));
            break; }
        case A_STRING: {
            int c = 0;
            char b[8], **v;
            u_string e;
            strcpy(b, "a.bb.c"); b[0] = 'a' + l->id;
            v = raii_split(b, ".", &c);
            mc_point();
            say(l, c); say(l, v[0][0] - l->id); text(l, v[1]);
            e = raii_encode64((u_string_t)b);
            mc_point();
            text(l, (char *)raii_decode64(e) + 1);
            text(l, raii_replace("xyx", "x", "long"));
            text(l, raii_concat(2, "one", "two"));
            break; }
        case A_ARGS: {
            args_t g = args_for("ds", 40 + a, "word");
            mc_point();
            say(l, get_args(g, 0).integer);
            text(l, get_args(g, 1).char_ptr);
            break; }
        case A_NESTED: guard_nested(l, n); break;
        case A_CAUGHT:
            try { mc_point(); throw(division_by_zero); } catch_if {
                mc_point();
                say(l, caught(range_error));
                if (caught(division_by_zero)) { mc_point(); text(l, raii_message()); done = 1; }
            } end_try;
            mc_check(done, "the exception does not arrive");
            break;
        case A_RECOVER_SCOPE:
            raii_recover(rec_scope, mk(l, 41, n));
            try { mc_point(); throw(range_error); } catch_if { text(l, raii_message()); raii_deferred_clean(); if (caught(range_error)) done = 1; } end_try;
            mc_check(done, "the exception does not arrive");
            break;
    }
    say(l, ex_local() == before);
    say(l, ex_uncaught_exception());
}
static note notes[2][MT][MO][8];
static void whole(int i, lg *l, int phase) {
    int j;
    raii_init();
    for (j = 0; j < nop[i]; j++) {
        act(l, op[i][j], notes[phase][i][j]);
        if (j + 1 < nop[i]) mc_point();
    }
    say(l, raii_deferred_count(raii_init()));
    raii_destroy();
    say(l, 99);
}
static int t_alone(void *p) { int i = (int)(intptr_t)p; whole(i, &alone[i], 0); return 0; }
static int t_with(void *p) { int i = (int)(intptr_t)p; whole(i, &with[i], 1); return 0; }
static void run(void) {
    thrd_t id[MT];
    int i, j;
    raii_init();
    ex_signal_setup();
    for (i = 0; i < nt; i++) { alone[i].id = with[i].id = i + 1; alone[i].n = with[i].n = 0; }
    for (i = 0; i < nt; i++) {
        mc_check(thrd_create(&id[i], t_alone, (void *)(intptr_t)i) == thrd_success, "no thread");
        thrd_join(id[i], NULL);
    }
    /* the last program is the first thread's */
    for (i = 0; i < nt - 1; i++) mc_check(thrd_create(&id[i], t_with, (void *)(intptr_t)i) == thrd_success, "no thread");
    t_with((void *)(intptr_t)(nt - 1));
    for (i = 0; i < nt - 1; i++) thrd_join(id[i], NULL);
    for (i = 0; i < nt; i++) {
        for (j = 0; j < alone[i].n && j < with[i].n; j++) {
            int k = j;
            while (k > 0 && alone[i].v[k] < 100000) k--;
            mc_check(alone[i].v[j] == with[i].v[j], "thread %d, step %d (%s) sees %ld where it sees %ld alone", i, j, alone[i].v[k] >= 100000 && alone[i].v[k] < 100000 + NA ? aname[alone[i].v[k] - 100000] : "?", with[i].v[j], alone[i].v[j]);
        }
        mc_check(alone[i].n == with[i].n, "thread %d says %d things, %d alone", i, with[i].n, alone[i].n);
    }
    mc_outcome(with[0].n * 1000 + with[1].n);
}
mc_suite mc_suites[] = {
    {"one", NULL, gen_one, run, show, 0, 100, 100},
    {"two", NULL, gen_two, run, show, 0, 3, 4},
    {"three", NULL, gen_three, run, show, 0, 1, 3},
    {"many", NULL, gen_many, run, show, 0, DELAYS(0), DELAYS(1)},
    {NULL}
};

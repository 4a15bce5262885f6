/* Thread-local variables: several threads take turns in every order; each sees its own values only. */
#include "raii.h"
#include "mc.h"
#include <pthread.h>
typedef struct { int a; char pad[40]; int b; } thing;
thrd_local_extern(thing, tlv_thing)
thrd_local(thing, tlv_thing, NULL)
thrd_static(int, tlv_int, 0)
#define NT 3
enum { O_READ, O_WRITE, O_UPDATE, O_EMPTY, O_END, NO, O_INC };
typedef struct { int t, op, var; } op_t;
static op_t ops[9]; static int nops, nvars, first_at;
static void gen(void) {
    int i, ended[NT] = {0}, started = 1;
    nvars = 2;
    nops = mc_thorough ? 5 : 4;
    for (i = 0; i < nops; i++) {
        /* threads are alike: the next new one is the lowest */
        int n = started < NT ? started + 1 : NT;
        ops[i].t = mc_choose(n);
        if (ops[i].t == started) started++;
        if (ended[ops[i].t]) mc_skip();
        ops[i].op = mc_choose(ops[i].t ? NO : NO - 1);
        ops[i].var = ops[i].op == O_END ? 0 : mc_choose(nvars);
        if (ops[i].op == O_END) ended[ops[i].t] = 1;
    }
}
/* one turn at a time */
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
static int turn = -1, command, cvar, over[NT];
static int val[NT][3], set[NT][3], upd[NT][3];
static void *addr[NT][3];
static int serial;
static thing thing_buf[NT]; static int int_buf[NT]; static long long_buf[NT];
static char msg[300];
#define bad(...) do { if (!msg[0]) snprintf(msg, sizeof msg, __VA_ARGS__); return; } while (0)
static void one(int t, int op, int v) {
    int got;
    void *p = NULL;
    if (op == O_EMPTY) {
        bool e = v ? is_tlv_int_empty() : is_tlv_thing_empty();
        if (e != (addr[t][v] == NULL && !upd[t][v])) bad("variable %d of thread %d is %s", v, t, e ? "said to be empty after its use" : "not empty before its use");
        return;
    }
    if (op == O_UPDATE) {
        int k = ++serial;
        if (v) { int_buf[t] = k; tlv_int_update(&int_buf[t]); } else { thing_buf[t].a = k; thing_buf[t].b = ~k; tlv_thing_update(&thing_buf[t]); }
        val[t][v] = k; set[t][v] = 1; upd[t][v] = 1; addr[t][v] = NULL;
    }
    p = v ? (void *)tlv_int() : (void *)tlv_thing();
    if (!p) bad("variable %d of thread %d is nowhere", v, t);
    if (addr[t][v] && addr[t][v] != p) bad("variable %d of thread %d moved", v, t);
    addr[t][v] = p;
    for (got = 0; got < NT; got++) if (got != t && !over[got] && addr[got][v] == p) bad("threads %d and %d share variable %d", t, got, v);
#ifndef emulate_tls
    if (!set[t][v]) { set[t][v] = 1; val[t][v] = 0; if (v == 0 && (tlv_thing()->a || tlv_thing()->b)) bad("a new variable is not zero"); if (v == 0) tlv_thing()->b = ~0; }
#endif
    got = v ? *tlv_int() : tlv_thing()->a;
    if (set[t][v] && got != val[t][v]) bad("variable %d of thread %d is %d instead of %d", v, t, got, val[t][v]);
    if (set[t][v] && v == 0 && tlv_thing()->b != ~val[t][v]) bad("variable %d of thread %d changed at its end", v, t);
    if (op == O_WRITE || op == O_INC || !set[t][v]) {
        int k = op == O_INC && set[t][v] ? val[t][v] + 1 : ++serial * 100;
        if (v) { if (op == O_INC && set[t][v]) ++*tlv_int(); else *tlv_int() = k; } else { if (op == O_INC && set[t][v]) tlv_thing()->a++; else tlv_thing()->a = k; tlv_thing()->b = ~k; }
        val[t][v] = k; set[t][v] = 1;
    }
}
static void *worker(void *a) {
    int t = (int)(intptr_t)a, op;
    pthread_mutex_lock(&mu);
    for (;;) {
        while (turn != t) pthread_cond_wait(&cv, &mu);
        op = command;
        if (op != O_END) one(t, op, cvar);
        turn = -1;
        pthread_cond_broadcast(&cv);
        if (op == O_END) break;
    }
    pthread_mutex_unlock(&mu);
    return NULL;
}
static pthread_t th[NT]; static int up[NT];
static void tell(int t, int op, int v) {
    if (t == 0) { one(0, op, v); return; }
    if (!up[t]) { up[t] = 1; if (pthread_create(&th[t], NULL, worker, (void *)(intptr_t)t)) mc_fail("no thread"); }
    pthread_mutex_lock(&mu);
    command = op; cvar = v; turn = t;
    pthread_cond_broadcast(&cv);
    while (turn != -1) pthread_cond_wait(&cv, &mu);
    pthread_mutex_unlock(&mu);
    if (op == O_END) { pthread_join(th[t], NULL); up[t] = 0; over[t] = 1; }
}
static void run(void) {
    int i, v;
    memset(val, 0, sizeof val); memset(set, 0, sizeof set); memset(upd, 0, sizeof upd); memset(addr, 0, sizeof addr); memset(over, 0, sizeof over);
    serial = 0; msg[0] = 0;
    for (i = 0; i < nops; i++) {
        tell(ops[i].t, ops[i].op, ops[i].var);
        mc_check(!msg[0], "step %d: %s", i, msg);
        mc_state(mc_mix(mc_mix(ops[i].t * 8 + ops[i].op, i), mc_hash_mem(1, val, sizeof val)));
    }
    for (i = 0; i < NT; i++) for (v = 0; v < nvars; v++) if (!over[i] && (i == 0 || up[i])) { tell(i, O_READ, v); mc_check(!msg[0], "at the end: %s", msg); }
    for (i = 1; i < NT; i++) if (up[i]) tell(i, O_END, 0);
    mc_steps(nops + 6);
    mc_outcome(mc_hash_mem(2, val, sizeof val));
}
static const char *on[] = {"read", "write", "update", "is empty", "end"};
static void show(FILE *f) { int i; for (i = 0; i < nops; i++) fprintf(f, "thread %d: %s %s; ", ops[i].t, on[ops[i].op], ops[i].op == O_END ? "" : ops[i].var ? "int" : "struct"); }
mc_suite mc_suites[] = {{"turns", NULL, gen, run, show, 1}, {0}};

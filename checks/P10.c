/* Signals as exceptions: every handled signal, raised or by a fault, in every place, again and again. */
#include "raii.h"
#include "mc.h"
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#include <pthread.h>
int backtrace(void **buffer, int size) { (void)buffer; (void)size; return 0; }
EX_EXCEPTION(Quagga);
static const struct { int sig; const char *name; } S[] = {{SIGSEGV, "sig_segv"}, {SIGABRT, "sig_abrt"}, {SIGFPE, "sig_fpe"}, {SIGILL, "sig_ill"},
    {SIGTERM, "sig_term"}, {SIGHUP, "sig_hup"}, {SIGALRM, "sig_alrm"}, {SIGINT, "sig_int"}, {SIGBUS, "sig_bus"}, {SIGQUIT, "sig_quit"}, {SIGTRAP, "sig_trap"}, {SIGWINCH, "sig_winch"}};
#define NS 12
enum { W_RAISE, W_KILL, W_FAULT, W_THROW, W_ABORT, NW };          /* how */
enum { H_CATCH, H_ANY, H_IF, H_GUARD, H_FINALLY, H_WRONG, NH };   /* handled by */
enum { P_PLAIN, P_IN_CATCH, P_IN_FINALLY, P_IN_GUARD, P_IN_DEFER, P_PROT, NP };
typedef struct { int s, how, by, place; } step;
static step st[3];
static int nst, masked, in_thread, late;
static int can_fault(int s) { s = S[s].sig; return s == SIGSEGV || s == SIGFPE || s == SIGILL || s == SIGBUS || s == SIGTRAP; }
static void gen_one(step *x, int signals, int places) {
    x->s = mc_choose(signals); x->how = mc_choose(NW); x->by = mc_choose(NH); x->place = mc_choose(places);
    if (x->how == W_FAULT && !can_fault(x->s)) mc_skip();
    if (x->how == W_ABORT && S[x->s].sig != SIGABRT) mc_skip();
}
static void gen_all(void) { nst = 1 + mc_choose(2); masked = mc_choose(2); in_thread = mc_choose(2); late = mc_choose(2); gen_one(&st[0], NS, NP); if (nst == 2) { st[1] = st[0]; } }
static void gen_pairs(void) {
    int i;
    static const int few[] = {0, 4, 2};
    nst = mc_thorough ? 3 : 2; masked = 0; in_thread = 0; late = 0;
    for (i = 0; i < nst; i++) { gen_one(&st[i], nst == 3 && i == 2 ? 2 : 3, i == 2 ? 2 : NP); st[i].s = few[st[i].s]; if (st[i].how == W_ABORT || (st[i].how == W_FAULT && !can_fault(st[i].s))) mc_skip(); }
}
static unsigned long long cnt;
static char tlog[512];
static void tr(const char *s) { strcat(tlog, s); strcat(tlog, " "); cnt++; }
static void __attribute__((noinline)) fire(step *x) {
    int s = S[x->s].sig;
    switch (x->how) {
        case W_RAISE: raise(s); break;
        case W_KILL: if (in_thread) pthread_kill(pthread_self(), s); else kill(getpid(), s); break;
        case W_FAULT:
            if (s == SIGSEGV) *(volatile int *)16 = 1;
            else if (s == SIGFPE) { volatile int a = 7, z = 0; a = a / z; }
            else if (s == SIGILL) __asm__ volatile("ud2");
            else if (s == SIGTRAP) __asm__ volatile("int3");
            else {
                static char name[] = "/tmp/P10.XXXXXX"; char t[20]; int fd; volatile char *m;
                strcpy(t, name); fd = mkstemp(t); unlink(t);
                m = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd);
                m[0] = 1;
            }
            break;
        case W_THROW: throw(Quagga); break;
        case W_ABORT: abort(); break;
    }
    tr("NOT-RAISED");
}
static const char *namex(step *x) { return x->how == W_THROW ? "Quagga" : S[x->s].name; }
static void same_mask(sigset_t *m0, const char *when) {
    sigset_t m1; int i;
    pthread_sigmask(SIG_SETMASK, NULL, &m1);
    for (i = 1; i < 32; i++) mc_check(sigismember(m0, i) == sigismember(&m1, i), "%s signal %d is %sblocked; events: %s", when, i, sigismember(&m1, i) ? "" : "un", tlog);
}
static sigset_t mask0;
static int freed;
static void on_prot(void *p) { freed += *(int *)p; }
static void def_fire(void *p) { tr("deferred"); if (p) { volatile int k = 0; try { fire((step *)p); } catch_any { k = 1; tr(err); } end_try; tr(k ? "k" : "-"); } }
static void placed(step *x) {
    switch (x->place) {
        case P_PLAIN: fire(x); break;
        case P_IN_CATCH: try { throw(Quagga); } catch(Quagga) { tr("first"); fire(x); } end_try; break;
        case P_IN_FINALLY: try { tr("body"); } finally { tr("finally"); fire(x); } end_try; break;
        case P_IN_GUARD: guard { _defer(def_fire, NULL); fire(x); } guarded break;
        case P_IN_DEFER: guard { _defer(def_fire, x); tr("in"); } guarded fire(x); break;
        case P_PROT: { int v = 5, *p = &v; protected(p, on_prot); fire(x); unprotected(p); break; }
    }
    tr("AFTER");
}
static step *gstep;
static void recoverer(void *p) { const char *m = raii_message(); tr("r"); tr(m ? m : "null"); if (raii_caught(namex((step *)p))) tr("recovered"); }
static void in_guard(step *x)
guard {
    raii_recover_by(_$__FUNCTION__, recoverer, x);
    placed(x);
} guarded
static void expect_place(step *x, char *w) {
    switch (x->place) {
        case P_IN_CATCH: strcat(w, "first "); break;
        case P_IN_FINALLY: strcat(w, "body finally "); break;
        case P_IN_GUARD: strcat(w, "deferred "); break;
        case P_IN_DEFER: strcat(w, "in deferred "); strcat(w, namex(x)); strcat(w, " k "); break;
    }
}
static void one(step *x) {
    char want[256] = "", num[8];
    volatile unsigned long guardword = 0x5a5a5a5a;
    tlog[0] = 0; freed = 0; gstep = x;
    expect_place(x, want);
    switch (x->by) {
        case H_CATCH:
            if (x->how == W_THROW) { try { placed(x); } catch(Quagga) { tr(err); same_mask(&mask0, "in the catch"); } end_try; }
            else switch (S[x->s].sig) {
#define C(SIG, E) case SIG: try { placed(x); } catch(E) { tr(err); same_mask(&mask0, "in the catch"); } end_try; break;
                C(SIGSEGV, sig_segv) C(SIGABRT, sig_abrt) C(SIGFPE, sig_fpe) C(SIGILL, sig_ill) C(SIGTERM, sig_term) C(SIGHUP, sig_hup)
                C(SIGALRM, sig_alrm) C(SIGINT, sig_int) C(SIGBUS, sig_bus) C(SIGQUIT, sig_quit) C(SIGTRAP, sig_trap) C(SIGWINCH, sig_winch)
            }
            sprintf(want + strlen(want), "%s ", namex(x));
            break;
        case H_ANY: try { placed(x); } catch_any { tr(err); tr(raii_message()); } finally { tr("f"); } end_try;
            sprintf(want + strlen(want), "%s %s f ", namex(x), namex(x)); break;
        case H_IF: try { placed(x); } catch_if { if (raii_caught(namex(x))) tr("caught"); else tr("NOT"); } end_try;
            strcat(want, "caught "); break;
        case H_GUARD: in_guard(x); sprintf(want + strlen(want), "r %s recovered ", namex(x)); break;
        case H_FINALLY: try { try { placed(x); } finally { tr("f"); } end_try; } catch_any { tr(err); } end_try;
            sprintf(want + strlen(want), "f %s ", namex(x)); break;
        case H_WRONG: try { try { placed(x); } catch(bad_alloc) { tr("WRONG"); } end_try; } catch_any { tr(err); } end_try;
            sprintf(want + strlen(want), "%s ", namex(x)); break;
    }
    mc_check(!strcmp(tlog, want), "events: %s; expected: %s", tlog, want);
    mc_check(freed == (x->place == P_PROT ? 5 : 0), "the protected pointer is released %d times", freed / 5);
    mc_check(guardword == 0x5a5a5a5a, "a local variable changed");
    same_mask(&mask0, "afterwards");
    mc_steps(1);
    mc_state(mc_hash_mem(3, tlog, strlen(tlog)));
    (void)num;
}
static void all_steps(void) {
    int i;
    sigset_t m;
    if (masked) { sigemptyset(&m); sigaddset(&m, SIGUSR1); sigaddset(&m, SIGUSR2); sigaddset(&m, SIGPIPE); pthread_sigmask(SIG_BLOCK, &m, NULL); }
    pthread_sigmask(SIG_SETMASK, NULL, &mask0);
    for (i = 0; i < nst; i++) one(&st[i]);
    mc_check(raii_local() == NULL || raii_deferred_count(raii_local()) == 0, "the thread's scope holds deferred functions");
}
static void *thread_main(void *p) { all_steps(); return p; }
static void run(void) {
    int i;
    long before;
    mc_alloc_reset();
    if (late) raii_init();
    before = mc_alloc_live();
    if (in_thread) { pthread_t t; if (pthread_create(&t, NULL, thread_main, NULL)) mc_fail("no thread"); pthread_join(t, NULL); }
    else all_steps();
    (void)i;
    mc_alloc_verify("at the end");
    mc_check(mc_alloc_live() == before, "%ld blocks are never released", mc_alloc_live() - before);
    mc_outcome(mc_hash_mem(9, tlog, strlen(tlog)));
}
static const char *hn[] = {"catch by name", "catch_any, finally", "catch_if", "guard", "inner finally", "past a catch of another"};
static const char *pn[] = {"in the try", "in a catch", "in a finally", "in a guard", "in a deferred function and after it", "with a protected pointer"};
static const char *wn[] = {"raise", "kill", "fault", "throw", "abort"};
static void show(FILE *f) { int i; fprintf(f, "%s%s%s", in_thread ? "in a thread; " : "", masked ? "with other signals blocked; " : "", late ? "" : "before raii_init; "); for (i = 0; i < nst; i++) fprintf(f, "%s %s %s, %s; ", wn[st[i].how], st[i].how == W_THROW ? "Quagga" : S[st[i].s].name, pn[st[i].place], hn[st[i].by]); }
/* ---- signals in the functions of futures: thrown where the result is asked for ---- */
static int fut_spawn, fut_inner, fut_after;
static void gen_futures(void) {
    int i;
    nst = 1 + mc_choose(mc_thorough ? 3 : 2); masked = mc_choose(2); in_thread = 0; late = mc_choose(2);
    fut_spawn = mc_choose(2); fut_inner = mc_choose(2); fut_after = mc_choose(2);
    for (i = 0; i < nst; i++) {
        st[i].s = i == 0 ? mc_choose(NS) : i == 1 ? (st[0].s + mc_choose(2)) % NS : st[0].s;
        st[i].how = i == 2 ? st[0].how : mc_choose(NW); st[i].by = H_ANY; st[i].place = mc_choose(i == 0 ? NP : 2);
        if (st[i].how == W_FAULT && !can_fault(st[i].s)) mc_skip();
        if (st[i].how == W_ABORT && S[st[i].s].sig != SIGABRT) mc_skip();
        if (st[i].place == P_IN_DEFER && st[i].how == W_ABORT) mc_skip();
    }
}
static void_t fut_fn(args_t a) {
    step *x = (step *)get_arg(a).object;
    sigset_t m, *m0 = &m;
    pthread_sigmask(SIG_SETMASK, NULL, m0);
    in_thread = 1; tlog[0] = 0;
    if (fut_inner) { try { fire(x); } catch_any { tr(err); } end_try; same_mask(m0, "in the function"); }
    placed(x);
    return NULL;
}
static void run_futures(void) {
    int i, masks;
    long before;
    sigset_t m;
    raii_values_t v;
    char want[256], got[256];
    mc_alloc_reset();
    raii_init();
    if (late) ex_signal_setup();
    before = mc_alloc_live();
    if (masked) { sigemptyset(&m); sigaddset(&m, SIGUSR1); sigaddset(&m, SIGUSR2); pthread_sigmask(SIG_BLOCK, &m, NULL); }
    pthread_sigmask(SIG_SETMASK, NULL, &mask0);
    for (i = 0; i < nst; i++) {
        step *x = &st[i];
        volatile int n = 0;
        memset((void *)&v, 0, sizeof v);
        memcpy((void *)&v.value, &x, sizeof x);
        want[0] = got[0] = 0; freed = 0;
        if (fut_inner) { strcat(want, namex(x)); strcat(want, " "); }
        expect_place(x, want);
        try {
            if (fut_spawn) { future_t s = thrd_scope(); try { thrd_spawn(fut_fn, &v); thrd_sync(s); n += 10; } finally { thrd_destroy(s); } end_try; }
            else { future f = thrd_async(fut_fn, &v); thrd_get(f); n += 10; }
        } catch_any { n++; strcpy(got, err); same_mask(&mask0, "in the catch"); } end_try;
        in_thread = 0;
        mc_check(n == 1 && !strcmp(got, namex(x)), "%s gives %s (%d)", fut_spawn ? "thrd_sync" : "thrd_get", *got ? got : "nothing", n);
        mc_check(!strcmp(tlog, want), "events: %s; expected: %s", tlog, want);
        mc_check(freed == (x->place == P_PROT ? 5 : 0), "the protected pointer is released %d times", freed / 5);
        same_mask(&mask0, "afterwards");
        if (fut_after) { step y = *x; y.place = P_PLAIN; y.by = H_ANY; one(&y); }
        mc_steps(2);
    }
    raii_deferred_clean();
    mc_alloc_verify("at the end");
    mc_check(mc_alloc_live() <= before, "%ld blocks are never released", mc_alloc_live() - before);
    mc_outcome(mc_hash_mem(9, tlog, strlen(tlog)));
}
static void show_futures(FILE *f) { fprintf(f, "%s%s%s%s", fut_spawn ? "spawned; " : "a future; ", fut_inner ? "caught inside once before; " : "", fut_after ? "then the same in the main thread; " : "", ""); show(f); }
mc_suite mc_suites[] = {{"in futures", NULL, gen_futures, run_futures, show_futures, 1}, {"every signal", NULL, gen_all, run, show, 1}, {"one after another", NULL, gen_pairs, run, show, 1}, {0}};

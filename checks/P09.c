/* What ends the program: uncaught exceptions and signals, exit, and the end of main; each in a process of its own. */
#include "raii.h"
#include "mc.h"
#include <signal.h>
#include <unistd.h>
#include <sys/wait.h>
#ifndef HOOKED
int backtrace(void **buffer, int size) { (void)buffer; (void)size; return 0; }
#endif
EX_EXCEPTION(Zebra);
EX_EXCEPTION(Yak);
EX_EXCEPTION(Other);

enum { L_TRY_OTHER, L_FINALLY, L_RETHROW, L_GUARD, L_PROT, L_IF, NL };
enum { C_THROW, C_PANIC, C_SIG, C_FAULT, C_EXIT, C_END, C_FROM_DEFER, NC };
enum { D_LOG, D_NEST, D_MEM, D_THROW, ND };
static int nlay, lay[4], cause, sig, ndef, def[4], inner, term, setup, hook, bad;
static const int sigs[] = {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGTERM, SIGHUP, SIGALRM, SIGINT, SIGBUS, SIGQUIT, SIGTRAP, SIGWINCH};
static const char *signames[] = {"sig_segv", "sig_abrt", "sig_fpe", "sig_ill", "sig_term", "sig_hup", "sig_alrm", "sig_int", "sig_bus", "sig_quit", "sig_trap", "sig_winch"};

static void gen(void) {
    int i, has_guard = 0, has_prot = 0;
    nlay = mc_choose(mc_thorough ? 5 : 4);
    for (i = 0; i < nlay; i++) { lay[i] = mc_choose(NL); if (lay[i] == L_GUARD) has_guard = 1; if (lay[i] == L_PROT) has_prot = 1; }
    ndef = mc_choose(mc_thorough ? 4 : 3);
    for (i = 0; i < ndef; i++) def[i] = mc_choose(ND);
    inner = nlay ? mc_choose(2) : 0;
    cause = mc_choose(NC);
    sig = 0;
    if (cause == C_SIG) sig = nlay < 2 && ndef < 2 ? mc_choose(12) : mc_choose(2);
    term = mc_choose(2);
    setup = nlay < 2 ? mc_choose(2) : 0;
    if ((cause == C_EXIT || cause == C_END) && (term || has_guard)) mc_skip();
    if (cause == C_EXIT || cause == C_END) for (i = 0; i < ndef; i++) if (def[i] == D_THROW) mc_skip();
    /* a second exception while the first unwinds ends the program at once, as the message says */
    for (i = 0; i < ndef; i++) if (def[i] == D_THROW && has_prot) mc_skip();
    if (cause == C_FROM_DEFER && (!nlay || lay[nlay - 1] != L_GUARD)) mc_skip();
    for (i = 0; i < nlay; i++) if (cause == C_END && lay[i] == L_RETHROW) mc_skip();
    /* a release function that throws */
    bad = 0;
#ifndef HOOKED
    if (has_prot && cause != C_EXIT && cause != C_END && (cause != C_FROM_DEFER || lay[nlay - 1] == L_GUARD)) bad = mc_choose(2);
#endif
    if (bad) for (i = 0; i < ndef; i++) if (def[i] == D_THROW) mc_skip();
#ifdef HOOKED
    /* 1: setup looks, 2: and asks for unwinding, by the unwind function, 3: by the library, 4: only the unwind function is set */
    hook = 1 + mc_choose(4);
    for (i = 0; i < ndef; i++) if (def[i] == D_THROW) mc_skip();
    if (cause == C_EXIT || cause == C_END || (nlay > 2 && ndef)) mc_skip();
#endif
}
/* events: one letter and one number each, through a pipe */
static int ev_fd;
static void ev(char c, int n) { char b[2]; b[0] = c; b[1] = (char)('0' + n); if (write(ev_fd, b, 2) != 2) _exit(99); }
static struct dd { int id, kind; } dds[16];
static int ndds;
static void deferred(void *p) {
    struct dd *d = (struct dd *)p;
    ev('d', d->id);
    if (d->kind == D_NEST) { struct dd *e = &dds[ndds++]; e->id = d->id + 20; e->kind = D_LOG; raii_defer(deferred, e); }
    if (d->kind == D_THROW) throw(Yak);
}
static void *mem[8]; static int memid[8], nmem;
static void on_free(void *p, long n) { int i; (void)n; for (i = 0; i < nmem; i++) if (mem[i] == p) { ev('d', memid[i]); mem[i] = NULL; return; } }
static void add(int id, int kind) {
    if (kind == D_MEM) { mem[nmem] = malloc_default(40); memid[nmem++] = id; }
    else { dds[ndds].id = id; dds[ndds].kind = kind; raii_defer(deferred, &dds[ndds]); ndds++; }
}
static void on_guard(void *p) { ev('g', (int)(intptr_t)p); if (cause == C_FROM_DEFER && (int)(intptr_t)p == nlay - 1) throw(Zebra); }
static void on_prot(void *p) { ev('p', *(int *)p); if (bad) throw(Yak); }
static void setup_hook(ex_context_t *ctx, const char *ex, const char *message) {
    ev(ctx == ex_local() && ex && (cause != C_PANIC || !strcmp(message, "Zebra went away")) ? 's' : 'S', 0);
    if (hook == 2) ex_data_set(ctx, &hook);
    if (hook == 2 || hook == 3) ex_unwind_set(ctx, true);
}
static void unwind_hook(void *data) { ev(data == (hook == 4 ? (void *)raii_local() : (void *)&hook) ? 'u' : 'U', 0); }
static void on_term(void) { ev('t', 0); }
static void last(void) { ev('l', mc_alloc_live() > 9 ? 9 : (int)mc_alloc_live()); }
static void layer(int i);
static void fault(int s) {
    switch (s) {
        case SIGSEGV: *(volatile int *)16 = 1; break;
        case SIGFPE: { volatile int a = 7, z = 0; a = a / z; break; }
        default: __asm__ volatile("ud2"); break;
    }
}
static void innermost(void) {
    if (inner) add(9, D_LOG);
    switch (cause) {
        case C_THROW: throw(Zebra); break;
        case C_PANIC: raii_panic("Zebra went away"); break;
        case C_SIG: raise(sigs[sig]); break;
        case C_FAULT: fault(nlay == 0 ? SIGSEGV : nlay == 1 ? SIGFPE : SIGILL); break;
        case C_EXIT: exit(3);
        case C_END: case C_FROM_DEFER: return;
    }
    ev('!', 0);
}
static void l_guard(int i)
guard {
    raii_recover_by(_$__FUNCTION__, on_guard, (void *)(intptr_t)i);
    _malloc(30);
    layer(i + 1);
} guarded
static void l_prot(int i) {
    static int v[4];
    int *p = &v[i];
    v[i] = i;
    { protected(p, on_prot); layer(i + 1); unprotected(p); }
}
static void layer(int i) {
    if (i == nlay) { innermost(); return; }
    switch (lay[i]) {
        case L_TRY_OTHER: try { layer(i + 1); } catch(Other) { ev('!', 1); } end_try; break;
        case L_FINALLY: try { layer(i + 1); } finally { ev('f', i); } end_try; break;
        case L_RETHROW: try { layer(i + 1); } catch_any { ev('c', i); rethrow(); } end_try; break;
        case L_GUARD: l_guard(i); break;
        case L_PROT: l_prot(i); break;
        case L_IF: try { layer(i + 1); } catch_if { if (caught(Other)) ev('!', 2); } end_try; break;
    }
    ev('a', i);
}
/* Each of what is expected has happened, once, in this order; other kinds of events may come between them. */
static void project(const char *got, const char *kinds, char *out) { for (; *got; got += 2) if (strchr(kinds, *got)) { *out++ = got[0]; *out++ = got[1]; } *out = 0; }
static int lowest;
static void expect(char *p, int i, int end) {
    for (; i >= lowest; i--) switch (lay[i]) {
        case L_FINALLY: p += sprintf(p, "f%c", '0' + i); if (end) p += sprintf(p, "a%c", '0' + i); break;
        case L_RETHROW: if (!end) p += sprintf(p, "c%c", '0' + i); else p += sprintf(p, "a%c", '0' + i); break;
        case L_GUARD: p += sprintf(p, "g%c", '0' + i); if (end) p += sprintf(p, "a%c", '0' + i); break;
        default: if (end) p += sprintf(p, "a%c", '0' + i);
    }
    *p = 0;
}
static int nmem_of(void) { int i; for (i = 0; i < ndef; i++) if (def[i] == D_MEM) return 1; return 0; }
static void run(void) {
    int evp[2], errp[2], st, i, n, got_n = 0, err_n = 0, fails;
    static char got[4096], err[8192], part[4096], want[4096];
    char *p;
    pid_t pid;
    const char *name;
    if (pipe(evp) || pipe(errp)) mc_fail("no pipe");
    pid = fork();
    if (pid == 0) {
        ev_fd = evp[1]; close(evp[0]); close(errp[0]);
        dup2(errp[1], 2); dup2(errp[1], 1); close(errp[1]);
        alarm(20);
        mc_alloc_reset();
        atexit(last);
        mc_on_free = on_free;
        ndds = nmem = 0;
        if (setup) ex_signal_setup();
        raii_init();
        if (setup) alarm(20);
        if (hook && hook < 4) exception_setup_func = setup_hook;
        if (hook == 2 || hook == 4) exception_unwind_func = unwind_hook;
        if (term) exception_terminate_func = on_term;
        for (i = 0; i < ndef; i++) add(i, def[i]);
        layer(0);
        ev('.', 0);
        exit(0);
    }
    close(evp[1]); close(errp[1]);
    for (;;) { n = (int)read(evp[0], got + got_n, sizeof got - 1 - got_n); if (n <= 0) break; got_n += n; }
    for (;;) { n = (int)read(errp[0], err + err_n, sizeof err - 1 - err_n); if (n <= 0) break; err_n += n; }
    got[got_n] = err[err_n] = 0;
    close(evp[0]); close(errp[0]);
    if (waitpid(pid, &st, 0) != pid) mc_fail("lost the process");
    mc_steps(got_n / 2 + 1); mc_state(mc_hash_mem(1, got, got_n));
    /* the first release function that throws is the last thing on the way */
    lowest = 0;
    if (bad) for (i = nlay - 1; i >= 0; i--) if (lay[i] == L_PROT) { lowest = i; break; }
    fails = !(cause == C_EXIT || cause == C_END);
    mc_check(WIFEXITED(st), "the process is killed by signal %d; events %s", WTERMSIG(st), got);
    if (cause == C_EXIT) mc_check(WEXITSTATUS(st) == 3, "exit status %d instead of 3", WEXITSTATUS(st));
    else if (cause == C_END) mc_check(WEXITSTATUS(st) == 0, "exit status %d instead of 0", WEXITSTATUS(st));
    else mc_check(WEXITSTATUS(st) == EXIT_FAILURE, "exit status %d, events %s", WEXITSTATUS(st), got);
    /* the blocks on the way, from the inside out */
    project(got, "fcga!.", part);
    if (cause == C_END) { expect(want, nlay - 1, 1); strcat(want, ".0"); }
    else if (cause == C_EXIT) want[0] = 0;
    else expect(want, nlay - 1, 0);
    mc_check(!strcmp(part, want), "the blocks on the way out give %s, expected %s", part, want);
    project(got, "p", part);
    p = want;
    if (fails) for (i = nlay - 1; i >= lowest; i--) if (lay[i] == L_PROT) p += sprintf(p, "p%c", '0' + i);
    *p = 0;
    mc_check(!strcmp(part, want), "protected pointers released: %s, expected %s", part, want);
    project(got, "d", part);
    p = want;
    if (inner) p += sprintf(p, "d9");
    for (i = ndef - 1; i >= 0; i--) { p += sprintf(p, "d%c", '0' + i); if (def[i] == D_NEST) p += sprintf(p, "d%c", '0' + i + 20); }
    *p = 0;
    mc_check(!strcmp(part, want), "the thread's deferred functions: %s, expected %s (all events %s)", part, want, got);
    project(got, "suSU", part);
    p = want;
    if (hook && hook < 4) for (i = nlay; i >= (bad ? lowest : 0); i--) {
        /* the thread's own handler, those of the tries, and of a try that rethrows once more */
        for (n = i < nlay && (lay[i] == L_GUARD || lay[i] == L_PROT) ? 0 : i < nlay && lay[i] == L_RETHROW ? 2 : 1; n; n--)
            p += sprintf(p, hook == 2 ? "s0u0" : "s0");
    }
    *p = 0;
    if (hook == 4 && nmem_of()) strcpy(want, "u0");   /* the library asks for the release of what was allocated */
    mc_check(!strcmp(part, want), "the hooks are called %s, expected %s", part, want);
    project(got, "t", part);
    mc_check(!strcmp(part, term && fails ? "t0" : ""), "the termination function: %s", part);
    project(got, "l", part);
    if (cause != C_SIG && cause != C_FAULT && !bad) mc_check(!strcmp(part, "l0"), "at the end: %s (l0: exit handlers have run and no block is left)", part);
    if (fails) {
        int other = bad;
        for (i = 0; i < ndef; i++) if (def[i] == D_THROW) other = 1;
        name = cause == C_SIG ? signames[sig] : cause == C_FAULT ? (nlay == 0 ? "sig_segv" : nlay == 1 ? "sig_fpe" : "sig_ill") : cause == C_PANIC ? "Zebra went away" : "Zebra";
        mc_check(other ? strstr(err, "Yak") || strstr(err, name) : strstr(err, name) != NULL, "the message does not name %s: %.200s", name, err);
    } else mc_check(err_n == 0, "an orderly end prints %.200s", err);
    mc_outcome(mc_hash_mem(7, got, got_n));
}
static const char *ln[] = {"try/catch(Other)", "try/finally", "try/catch_any/rethrow", "guard", "protected", "try/catch_if"};
static const char *cn[] = {"throw", "panic", "raise", "fault", "exit(3)", "return", "throw from the guard's deferred function"};
static const char *dn[] = {"log", "nest", "memory", "throw"};
static void show(FILE *f) {
    int i;
    fprintf(f, "thread scope:");
    for (i = 0; i < ndef; i++) fprintf(f, " %s", dn[def[i]]);
    fprintf(f, "\nlayers:");
    for (i = 0; i < nlay; i++) fprintf(f, " %s", ln[lay[i]]);
    fprintf(f, "\n%sthen %s %s%s\n", inner ? "defer inside; " : "", cn[cause], cause == C_SIG ? signames[sig] : "", term ? "; with a termination function" : "");
    if (bad) fprintf(f, "release functions throw\n");
    if (hook) fprintf(f, "hooks: %d\n", hook);
}
#ifdef HOOKED
void hooked_gen(void) { gen(); }
void hooked_run(void) { run(); }
void hooked_show(FILE *f) { show(f); }
#else
mc_suite mc_suites[] = {{"endings", NULL, gen, run, show, 0}, {0}};
#endif

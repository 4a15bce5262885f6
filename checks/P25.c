/* Signals given names, other names, held back and given back; each history in a process of its own. */
#include "raii.h"
#include "mc.h"
#include <signal.h>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <pthread.h>
int backtrace(void **buffer, int size) { (void)buffer; (void)size; return 0; }
EX_EXCEPTION(Heron);
EX_EXCEPTION(Egret);
EX_EXCEPTION(Ibis);

static const struct { int sig; const char *std; } S[] = {{SIGUSR1, NULL}, {SIGSEGV, "sig_segv"}, {SIGTERM, "sig_term"}, {SIGINT, "sig_int"}, {SIGWINCH, "sig_winch"}, {SIGUSR2, NULL},
    {SIGABRT, "sig_abrt"}, {SIGFPE, "sig_fpe"}, {SIGILL, "sig_ill"}, {SIGHUP, "sig_hup"}, {SIGALRM, "sig_alrm"}, {SIGBUS, "sig_bus"}, {SIGQUIT, "sig_quit"}, {SIGTRAP, "sig_trap"}};
#define NS 14
enum { O_SETUP, O_DEFAULT, O_NAME, O_TRY, O_BARE, O_BLOCK, O_BLOCK2, O_BLOCK_THROW, O_FLAGS, O_GUARD, NO };
static const char *on[] = {"ex_signal_setup", "ex_signal_default", "name", "raise in a try", "raise", "raise while blocked", "raise while blocked twice", "raise, throw while blocked", "ex_flags_reset", "raise in a guard"};
typedef struct { int op, s, name; } step;
static step st[5];
static int nst, begin, in_thread, hooks;
static const char *names[] = {"Heron", "Egret"};

/* ---- what is expected ---- */
static const char *named[NS]; static int is_set, saw_int; static char want[512]; static int end_kind; static const char *end_name; /* 0 orderly, 1 uncaught, 2 killed */
static int end_sig, ctrl_open;
static void std_names(void) { int i; for (i = 0; i < NS; i++) if (S[i].std) named[i] = S[i].std; is_set = 1; }
static void arrives(int s) { if (S[s].sig == SIGINT && named[s]) saw_int = 1; }
static void w(const char *t) { strcat(want, t); strcat(want, " "); }
/* 0: ends the process */
static int bare(int s) {
    if (!named[s]) { if (S[s].sig == SIGWINCH) { w("on"); return 1; } end_kind = 2; end_sig = S[s].sig; return 0; }
    arrives(s);
    end_kind = 1; end_name = named[s];
    return 0;
}
/* steps that say nothing new or whose effect is left open are dropped */
static void model(void) {
    int i;
    memset(named, 0, sizeof named); is_set = saw_int = 0; want[0] = 0; end_kind = 0; end_name = NULL;
    if (begin == 0) std_names();
    else { std_names(); w("Ibis"); }
    for (i = 0; i < nst; i++) {
        step *x = &st[i];
        switch (x->op) {
            case O_SETUP: std_names(); break;
            case O_DEFAULT: { int k; for (k = 0; k < NS; k++) if (S[k].std) named[k] = NULL; is_set = 0; break; }
            case O_NAME: if (!is_set) mc_skip(); if (named[x->s] == names[x->name]) mc_skip(); named[x->s] = names[x->name]; break;
            case O_FLAGS: if (!saw_int) mc_skip(); saw_int = 0; break;
            case O_BARE:
                if (!bare(x->s)) { if (i != nst - 1) mc_skip(); return; }
                break;
            default:
                if (!is_set) std_names();
                if (!named[x->s]) {
                    if (x->op == O_BLOCK_THROW) { x->name = 0; w("in"); w("Ibis"); break; }
                    if (x->op == O_BLOCK || x->op == O_BLOCK2) { w("in"); if (x->op == O_BLOCK2) w("in2"); }
                    end_kind = 2; end_sig = S[x->s].sig;
                    if (i != nst - 1) mc_skip();
                    return;
                }
                if (x->op == O_BLOCK_THROW) { x->name = 1; arrives(x->s); w("in"); w("either"); break; }
                arrives(x->s);
                if (x->op == O_BLOCK || x->op == O_BLOCK2) w("in");
                if (x->op == O_BLOCK2) w("in2");
                if (x->op == O_GUARD) w("deferred");
                w(named[x->s]);
        }
        if (i == nst - 1 && (x->op == O_FLAGS || x->op == O_NAME || x->op == O_SETUP || x->op == O_DEFAULT)) mc_skip();
    }
}
static void one(step *x, int signals) {
    x->op = mc_choose(NO); x->s = x->name = 0;
    if (x->op == O_NAME) { x->s = mc_choose(signals); x->name = mc_choose(2); }
    else if (x->op >= O_TRY && x->op != O_FLAGS) x->s = mc_choose(signals);
}
static void gen(void) {
    int i;
    nst = 1 + mc_choose(mc_thorough ? 5 : 4);
    begin = mc_choose(2); in_thread = nst < 3 ? mc_choose(2) : 0; hooks = nst < 3 ? mc_choose(2) : 0;
    for (i = 0; i < nst; i++) one(&st[i], nst == 1 ? NS : nst == 2 ? 6 : nst == 3 ? 4 : nst == 4 ? 3 : 2);
    model();
    /* a SIGINT that was handled before leaves open whether an end for another reason is one by control-c */
    ctrl_open = end_kind == 1 && saw_int && S[st[nst - 1].s].sig != SIGINT;
}

/* ---- the process ---- */
static int ev_fd;
static void ev(const char *t) { char b[80]; int n = sprintf(b, "%s ", t); if (write(ev_fd, b, n) != n) _exit(99); }
static void ctrl(void) { ev("CTRL"); }
static void term(void) { ev("TERM"); }
static void on_guard(void *p) { (void)p; ev("deferred"); if (raii_caught(raii_message())) return; ev("NOT"); }
static const char *gname;
static void on_guard2(void *p) { (void)p; gname = raii_message(); }
static void guarded_raise(int sig)
guard {
    _defer(on_guard, NULL);
    _defer(on_guard2, NULL);
    raise(sig);
    ev("NOT-RAISED");
} guarded
static void mask_is(sigset_t *m0, const char *when) {
    sigset_t m; int i;
    pthread_sigmask(SIG_SETMASK, NULL, &m);
    for (i = 1; i < 32; i++) if (sigismember(&m, i) != sigismember(m0, i)) { char b[60]; sprintf(b, "%s:MASK%d", when, i); ev(b); }
}
static void perform(step *x) {
    int sig = S[x->s].sig;
    sigset_t m0;
    pthread_sigmask(SIG_SETMASK, NULL, &m0);
    switch (x->op) {
        case O_SETUP: ex_signal_setup(); break;
        case O_DEFAULT: ex_signal_default(); break;
        case O_NAME: if (x->name) ex_signal(sig, EX_NAME(Egret)); else ex_signal(sig, EX_NAME(Heron)); break;
        case O_FLAGS: ex_flags_reset(); break;
        case O_TRY:
            try { raise(sig); ev("NOT-RAISED"); }
            catch(Heron) { ev("Heron"); } catch(Egret) { ev("Egret"); } catch_any { ev(err); } end_try;
            break;
        case O_GUARD: gname = "none"; guarded_raise(sig); ev(gname ? gname : "null"); break;
        case O_BARE: raise(sig); ev("on"); break;
        case O_BLOCK:
            try { ex_signal_block(one); raise(sig); raise(sig); ev("in"); ex_signal_unblock(one); ev("NOT-RAISED"); } catch_any { ev(err); } end_try;
            break;
        case O_BLOCK2:
            try { ex_signal_block(one); { ex_signal_block(two); raise(sig); ev("in"); ex_signal_unblock(two); } ev("in2"); ex_signal_unblock(one); ev("NOT-RAISED"); } catch_any { ev(err); } end_try;
            break;
        case O_BLOCK_THROW:
            try { ex_signal_block(one); if (x->name) raise(sig); ev("in"); throw(Ibis); ex_signal_unblock(one); } catch_any { ev(x->name && (!strcmp(err, "Ibis") || strncmp(err, "sig_", 4) == 0 || !strcmp(err, "Heron") || !strcmp(err, "Egret")) ? "either" : err); } end_try;
            break;
    }
    mask_is(&m0, on[x->op]);
}
static void *body(void *p) {
    int i;
    if (begin) { try { throw(Ibis); } catch_any { ev(err); } end_try; }
    for (i = 0; i < nst; i++) perform(&st[i]);
    ev("END");
    return p;
}
static char got[4096], err_[8192];
static int child(void (*f)(void)) {
    int evp[2], errp[2], st_, n, a = 0, b = 0;
    pid_t pid;
    if (pipe(evp) || pipe(errp)) mc_fail("no pipe");
    pid = fork();
    if (pid == 0) {
        struct rlimit no = {0, 0};
        setrlimit(RLIMIT_CORE, &no);
        ev_fd = evp[1]; close(evp[0]); close(errp[0]);
        dup2(errp[1], 2); dup2(errp[1], 1); close(errp[1]);
        { int i; for (i = 1; i < 65; i++) if (i != SIGKILL && i != SIGSTOP) signal(i, SIG_DFL); }
        { sigset_t e; sigemptyset(&e); sigprocmask(SIG_SETMASK, &e, NULL); }
        mc_alloc_reset();
        f();
        exit(0);
    }
    close(evp[1]); close(errp[1]);
    for (;;) { n = (int)read(evp[0], got + a, sizeof got - 1 - a); if (n <= 0) break; a += n; }
    for (;;) { n = (int)read(errp[0], err_ + b, sizeof err_ - 1 - b); if (n <= 0) break; b += n; }
    got[a] = err_[b] = 0;
    close(evp[0]); close(errp[0]);
    if (waitpid(pid, &st_, 0) != pid) mc_fail("lost the process");
    return st_;
}
static void main_body(void) {
    if (!begin) ex_signal_setup();
    raii_init();
    if (hooks) { exception_ctrl_c_func = ctrl; exception_terminate_func = term; }
    if (in_thread) { pthread_t t; pthread_create(&t, NULL, body, NULL); pthread_join(t, NULL); }
    else body(NULL);
}
static void run(void) {
    char w2[600];
    int e;
    model();
    e = child(main_body);
    mc_steps(nst + 1);
    mc_state(mc_hash_mem(1, got, strlen(got)));
    if (end_kind == 2) {
        mc_check(WIFSIGNALED(e) && WTERMSIG(e) == end_sig, "events %s; signal %d should have had its default effect, the process ended with %s %d", got, end_sig, WIFSIGNALED(e) ? "signal" : "status", WIFSIGNALED(e) ? WTERMSIG(e) : WEXITSTATUS(e));
        mc_check(!strcmp(got, want), "events: %s; expected: %s", got, want);
    } else {
        mc_check(WIFEXITED(e), "killed by signal %d; events %s; expected %s", WTERMSIG(e), got, want);
        if (end_kind == 1) {
            mc_check(WEXITSTATUS(e) == EXIT_FAILURE, "an uncaught signal ends with status %d; events %s", WEXITSTATUS(e), got);
            mc_check(strstr(err_, end_name) != NULL, "the message does not name %s: %.200s", end_name, err_);
        } else mc_check(WEXITSTATUS(e) == 0, "exit status %d; events %s", WEXITSTATUS(e), got);
        strcpy(w2, want);
        if (end_kind == 0) strcat(w2, "END ");
        if (hooks && end_kind == 1) {
            if (ctrl_open) { char w3[600]; strcpy(w3, w2); strcat(w3, "CTRL TERM "); if (!strcmp(got, w3)) strcpy(w2, got); else strcat(w2, "TERM "); }
            else strcat(w2, S[st[nst - 1].s].sig == SIGINT ? "CTRL TERM " : "TERM ");
        }
        mc_check(!strcmp(got, w2), "events: %s; expected: %s", got, w2);
        if (end_kind == 0) mc_check(!err_[0], "messages: %.200s", err_);
    }
    mc_outcome(mc_hash_mem(7, got, strlen(got)) + e);
}
static void show(FILE *f) {
    int i;
    fprintf(f, "%s%s%s", begin ? "a try first; " : "", in_thread ? "in a thread; " : "", hooks ? "with hooks; " : "");
    for (i = 0; i < nst; i++) {
        fprintf(f, "%s", on[st[i].op]);
        if (st[i].op >= O_NAME && st[i].op != O_FLAGS) fprintf(f, " signal %d", S[st[i].s].sig);
        if (st[i].op == O_NAME) fprintf(f, " %s", names[st[i].name]);
        fprintf(f, "; ");
    }
}

/* ---- as many names as there are places, and more ---- */
static int more, probe, rename_, refuse_;
static void tgen(void) {
    static const int n[] = {0, 1, 2, 10, 19, 20, 21, 22, 26};
    more = n[mc_choose(9)];
    rename_ = mc_choose(3);                              /* then: nothing, give one of them another name, try what cannot be */
    probe = mc_choose(more + 12);
    refuse_ = mc_choose(4);                              /* names for what cannot be handled: none, one, 25 before the others, one among them */
}
static const int stdsig[] = {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGINT, SIGTERM, SIGQUIT, SIGHUP, SIGWINCH, SIGTRAP, SIGALRM, SIGBUS};
static const char *stdname[] = {"sig_segv", "sig_abrt", "sig_fpe", "sig_ill", "sig_int", "sig_term", "sig_quit", "sig_hup", "sig_winch", "sig_trap", "sig_alrm", "sig_bus"};
static char tn[40][12];
static void tbody(void) {
    int i, sig = probe < 12 ? stdsig[probe] : SIGRTMIN + 1 + probe - 12;
    ex_signal_setup();
    raii_init();
    for (i = 0; i < (refuse_ == 2 ? 25 : refuse_ == 1); i++) ex_signal(i & 1 ? SIGSTOP : SIGKILL, EX_NAME(Egret));
    for (i = 0; i < more; i++) { if (refuse_ == 3 && i == more / 2) ex_signal(SIGSTOP, EX_NAME(Egret)); sprintf(tn[i], "rt%d", i); ex_signal(SIGRTMIN + 1 + i, tn[i]); }
    if (rename_ == 1) ex_signal(SIGTERM, EX_NAME(Heron));
    if (rename_ == 2) ex_signal(SIGKILL, EX_NAME(Heron));
    try { raise(sig); ev("NOT-RAISED"); } catch_any { ev(err); } end_try;
    try { raise(SIGTERM); ev("NOT-RAISED"); } catch_any { ev(err); } end_try;
    ev("END");
}
static void trun(void) {
    char wt[200];
    int e = child(tbody), refused = probe >= 12 + 20;
    mc_steps(1); mc_state(mc_hash_mem(3, got, strlen(got)));
    if (refused) mc_check(WIFSIGNALED(e) && WTERMSIG(e) == SIGRTMIN + 1 + probe - 12, "a signal without a place: events %s, status %x", got, e);
    else {
        const char *tname = rename_ == 1 ? "Heron" : "sig_term";
        if (probe >= 12) sprintf(wt, "rt%d %s END ", probe - 12, tname);
        else sprintf(wt, "%s %s END ", probe == 5 ? tname : stdname[probe], tname);
        mc_check(WIFEXITED(e) && WEXITSTATUS(e) == 0, "events %s; status %x", got, e);
        mc_check(!strcmp(got, wt), "events: %s; expected: %s", got, wt);
    }
    mc_check(!!err_[0] == (more > 20 || rename_ == 2 || refuse_ == 1 || refuse_ == 2 || (refuse_ == 3 && more)), "%s: %.200s", err_[0] ? "unexpected message" : "refused without a message", err_);
    mc_outcome(mc_hash_mem(7, got, strlen(got)) + e);
}
static void tshow(FILE *f) { fprintf(f, "names refused: %s; %d more signals named%s; then signal %d", refuse_ == 0 ? "none" : refuse_ == 1 ? "one" : refuse_ == 2 ? "25" : "one, after half of the others", more, rename_ == 1 ? ", one of the setup named Heron" : rename_ == 2 ? ", SIGKILL named" : "", probe < 12 ? stdsig[probe] : SIGRTMIN + 1 + probe - 12); }
mc_suite mc_suites[] = {{"histories", NULL, gen, run, show, 0}, {"places", NULL, tgen, trun, tshow, 0}, {0}};

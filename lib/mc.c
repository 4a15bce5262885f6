#define _GNU_SOURCE
#include "mc.h"
#include <stdarg.h>
#include <errno.h>
#include <fcntl.h>
#include <setjmp.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>

#define MAXJ 16
#define MAXD 512
#define HSIZE (1u << 22)
#define HCAP (HSIZE - HSIZE / 8)
#define MSG 1024
#define MAXF 8

typedef struct {
    volatile uint64_t idx;             /* case being run */
    volatile uint64_t cases, skipped, transitions, extra;
    volatile int depth, done, failed, capped;
    volatile int choice[MAXD], arity[MAXD];
    char msg[MSG];
} slot;

typedef struct {
    slot s[MAXJ + 1];
    volatile uint32_t nstates, noutcomes;
    volatile int nfind;
    char fkey[MAXF][128], fmsg[MAXF][256];
    volatile int flock;
    volatile int stop;
    volatile uint64_t states[HSIZE], outcomes[1 << 16];
} shared;

int mc_thorough = 0;
static shared *sh;
static slot *me;
static int depth, confirming;
static int choice[MAXD], arity[MAXD], forced;
static jmp_buf skip_jb;
static const char *known_keys[64];
static int n_known;

int mc_confirming(void) { return confirming; }

static int sh_insert(volatile uint64_t *tab, uint32_t size, uint64_t h, volatile uint32_t *cnt, uint32_t cap) {
    uint32_t i = (uint32_t)(h >> 20) & (size - 1);
    if (!h) h = 1;
    if (*cnt >= cap) return 0;
    for (;;) {
        uint64_t cur = __atomic_load_n(&tab[i], __ATOMIC_RELAXED);
        if (cur == h) return 0;
        if (!cur) {
            uint64_t z = 0;
            if (__atomic_compare_exchange_n(&tab[i], &z, h, 0, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {
                __atomic_fetch_add(cnt, 1, __ATOMIC_RELAXED);
                return 1;
            }
            if (z == h) return 0;
        }
        i = (i + 1) & (size - 1);
    }
}
void mc_state(uint64_t h) { sh_insert(sh->states, HSIZE, h, &sh->nstates, HCAP); }
void mc_outcome(uint64_t h) { sh_insert(sh->outcomes, 1 << 16, h, &sh->noutcomes, 60000); }
void mc_steps(unsigned long n) { me->transitions += n; }
void mc_extra_traces(unsigned long n) { me->extra += n; }

int mc_choose(int n) {
    int v;
    if (n <= 0) { fprintf(stderr, "mc_choose(%d)\n", n); abort(); }
    if (depth >= MAXD) { fprintf(stderr, "mc_choose: too deep\n"); abort(); }
    if (depth < forced) {
        v = choice[depth];
        if (arity[depth] && arity[depth] != n) { fprintf(stderr, "mc_choose: the case differs when gone over again\n"); abort(); }
    } else {
        v = choice[depth] = 0;
    }
    arity[depth] = n;
    depth++;
    return v;
}
void mc_skip(void) { longjmp(skip_jb, 1); }

void mc_fail(const char *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(me->msg, MSG, fmt, ap);
    va_end(ap);
    me->failed = 1;
    _exit(3);
}

void mc_finding(const char *key, const char *fmt, ...) {
    char buf[256];
    va_list ap;
    int i;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    for (i = 0; i < n_known; i++) {
        if (strcmp(known_keys[i], key)) continue;
        while (__atomic_exchange_n(&sh->flock, 1, __ATOMIC_ACQUIRE)) ;
        for (i = 0; i < sh->nfind; i++) if (!strcmp(sh->fkey[i], key)) break;
        if (i == sh->nfind && i < MAXF) {
            snprintf(sh->fkey[i], 128, "%s", key);
            snprintf(sh->fmsg[i], 256, "%s", buf);
            sh->nfind++;
        }
        __atomic_store_n(&sh->flock, 0, __ATOMIC_RELEASE);
        return;
    }
    mc_fail("[%s] %s", key, buf);
}

const char *(*mc_where)(void);
static void crash(int sig) {
    /* the message must not depend on anything that may be broken */
    snprintf(me->msg, MSG, "the code under test crashed with signal %d (%s)", sig, strsignal(sig));
    me->failed = 1;
    if (mc_where) {
        size_t n = strlen(me->msg);
        snprintf(me->msg + n, MSG - n, "%s", mc_where());
    }
    _exit(3);
}
void mc_crash_handlers(void) {
    static char stack[65536];
    stack_t ss;
    struct sigaction sa;
    int sigs[] = {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, 0}, i;
    memset(&ss, 0, sizeof ss);
    ss.ss_sp = stack; ss.ss_size = sizeof stack;
    sigaltstack(&ss, NULL);
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = crash;
    sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (i = 0; sigs[i]; i++) sigaction(sigs[i], &sa, NULL);
}

static double now(void) {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec / 1e9;
}

static void child_setup(void) {
    int fd = open("/dev/null", O_RDWR);
    struct rlimit rl;
    dup2(fd, 0); dup2(fd, 1); dup2(fd, 2);
    close(fd);
    rl.rlim_cur = rl.rlim_max = (rlim_t)12 << 30;
    setrlimit(RLIMIT_AS, &rl);
    rl.rlim_cur = rl.rlim_max = 0;
    setrlimit(RLIMIT_CORE, &rl);
}

static void publish(void) {
    int i;
    for (i = 0; i < depth; i++) { me->choice[i] = choice[i]; me->arity[i] = arity[i]; }
    me->depth = depth;
}

static void run_case(mc_suite *s) {
    if (s->fork_each) {
        pid_t p = fork();
        int st;
        if (p == 0) {
            s->run();
            __atomic_thread_fence(__ATOMIC_SEQ_CST);
            _exit(42);
        }
        while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
        if (me->failed) _exit(3);
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 42) {
            if (WIFSIGNALED(st)) mc_fail("the code under test ended the process with signal %d", WTERMSIG(st));
            mc_fail("the code under test ended the process with status %d", WEXITSTATUS(st));
        }
    } else
        s->run();
}

static double deadline;

/* One worker: go over the whole tree, run every jobs-th case. */
static void worker(mc_suite *s, int w, int jobs, uint64_t upto) {
    uint64_t idx = 0;
    int i;
    me = &sh->s[w];
    child_setup();
    if (s->init) s->init();
    forced = 0;
    memset(arity, 0, sizeof arity);
    for (;;) {
        depth = 0;
        if (setjmp(skip_jb) == 0) {
            s->gen();
            if ((int)(idx % jobs) == w) {
                me->idx = idx + 1;
                publish();
                run_case(s);
                me->cases++;
                if (upto && idx + 1 >= upto) _exit(42);
                if (sh->stop) { me->done = 1; _exit(42); }
                if (now() > deadline) { me->capped = 1; me->done = 1; _exit(42); }
            }
            idx++;
        } else
            me->skipped++;
        for (i = depth - 1; i >= 0; i--) if (choice[i] + 1 < arity[i]) break;
        if (i < 0) break;
        choice[i]++;
        forced = i + 1;
        { int j; for (j = i + 1; j < MAXD && arity[j]; j++) arity[j] = 0; }
    }
    me->done = 1;
    _exit(42);
}

static void show_case(mc_suite *s, slot *sl, FILE *f) {
    pid_t p;
    int i, st;
    fprintf(f, "suite: %s\nchoices:", s->name);
    for (i = 0; i < sl->depth; i++) fprintf(f, " %d", sl->choice[i]);
    fprintf(f, "\n");
    fflush(f);
    p = fork();
    if (p == 0) {
        depth = 0;
        forced = sl->depth;
        memset(arity, 0, sizeof arity);
        for (i = 0; i < forced; i++) choice[i] = sl->choice[i];
        if (setjmp(skip_jb) == 0) {
            s->gen();
            if (s->show) s->show(f);
        }
        fflush(f);
        _exit(0);
    }
    waitpid(p, &st, 0);
}

/* Run the case of `from` alone; 1 if it fails again. */
static int confirm(mc_suite *s, slot *from, double limit, char *msg) {
    pid_t p;
    int i, st, n = from->depth, ch[MAXD];
    double t0 = now();
    for (i = 0; i < n; i++) ch[i] = from->choice[i];
    me = &sh->s[MAXJ];
    memset((void *)me, 0, sizeof *me);
    p = fork();
    if (p == 0) {
        setpgid(0, 0);
        child_setup();
        confirming = 1;
        if (s->init) s->init();
        depth = 0;
        forced = n;
        memset(arity, 0, sizeof arity);
        for (i = 0; i < n; i++) choice[i] = ch[i];
        if (setjmp(skip_jb) == 0) {
            s->gen();
            publish();
            run_case(s);
        }
        _exit(42);
    }
    setpgid(p, p);
    for (;;) {
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) break;
        if (now() - t0 > limit) {
            kill(-p, SIGKILL); kill(p, SIGKILL);
            waitpid(p, &st, 0);
            snprintf(msg, MSG, "the case does not end (%.0f s)", limit);
            return 1;
        }
        usleep(5000);
    }
    kill(-p, SIGKILL);
    if (me->failed) { snprintf(msg, MSG, "%s", me->msg); return 1; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 42) return 0;
    if (WIFSIGNALED(st)) snprintf(msg, MSG, "the code under test ended the process with signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
    else snprintf(msg, MSG, "the code under test ended the process with status %d", WEXITSTATUS(st));
    return 1;
}

static FILE *out;
static char *replay_path;

static void write_replay(mc_suite *s, slot *sl, const char *msg, const char *extra) {
    FILE *f = fopen(replay_path, "w");
    if (!f) return;
    fprintf(f, "%s%s\n", msg, extra);
    show_case(s, sl, f);
    fclose(f);
}

/* Returns 1 when a violation was confirmed. */
static int explore(mc_suite *s, int jobs, double budget, double hang) {
    pid_t pid[MAXJ];
    uint64_t last[MAXJ];
    double when[MAXJ], t0 = now();
    int i, left = jobs, bad = -1, hung = 0, violated = 0;
    uint64_t cases = 0, skipped = 0, trans = 0, extra = 0;
    int capped = 0;
    char msg[MSG] = "";
    memset((void *)sh->s, 0, sizeof sh->s);
    sh->stop = 0;
    sh->nstates = sh->noutcomes = 0;
    memset((void *)sh->states, 0, sizeof sh->states);
    memset((void *)sh->outcomes, 0, sizeof sh->outcomes);
    deadline = t0 + budget;
    for (i = 0; i < jobs; i++) {
        fflush(NULL);
        pid[i] = fork();
        if (pid[i] == 0) { setpgid(0, 0); worker(s, i, jobs, 0); }
        setpgid(pid[i], pid[i]);
        last[i] = 0; when[i] = now();
    }
    while (left > 0) {
        int progress = 0;
        for (i = 0; i < jobs; i++) {
            int st;
            slot *sl = &sh->s[i];
            if (!pid[i]) continue;
            if (waitpid(pid[i], &st, WNOHANG) == pid[i]) {
                kill(-pid[i], SIGKILL);
                pid[i] = 0;
                left--;
                progress = 1;
                if (!sl->done && bad < 0) {
                    bad = i;
                    if (!sl->failed) {
                        if (WIFSIGNALED(st)) snprintf(sl->msg, MSG, "the code under test ended the process with signal %d", WTERMSIG(st));
                        else snprintf(sl->msg, MSG, "the code under test ended the process with status %d", WEXITSTATUS(st));
                    }
                    sh->stop = 1;
                }
                continue;
            }
            if (sl->idx != last[i]) { last[i] = sl->idx; when[i] = now(); }
            else if (now() - when[i] > hang) {
                kill(-pid[i], SIGKILL); kill(pid[i], SIGKILL);
                waitpid(pid[i], &st, 0);
                pid[i] = 0;
                left--;
                if (bad < 0) { bad = i; hung = 1; snprintf(sl->msg, MSG, "the case does not end"); }
                sh->stop = 1;
            }
        }
        if (bad >= 0)
            for (i = 0; i < jobs; i++) if (pid[i]) { int st; kill(-pid[i], SIGKILL); kill(pid[i], SIGKILL); waitpid(pid[i], &st, 0); pid[i] = 0; left--; }
        if (!progress) usleep(2000);
    }
    for (i = 0; i < jobs; i++) {
        cases += sh->s[i].cases; trans += sh->s[i].transitions; extra += sh->s[i].extra;
        if (sh->s[i].skipped > skipped) skipped = sh->s[i].skipped;
        capped |= sh->s[i].capped;
    }
    if (bad >= 0) {
        slot save = sh->s[bad];
        if (confirm(s, &sh->s[bad], hung ? 3 * hang : hang, msg)) {
            violated = 1;
            write_replay(s, &save, msg, "");
        } else {
            /* Only with what ran before it in its process: repeat that process. */
            pid_t p;
            int st;
            uint64_t upto = save.idx;
            double t1 = now();
            memset((void *)&sh->s[bad], 0, sizeof(slot));
            sh->stop = 0;
            deadline = now() + 600;
            p = fork();
            if (p == 0) { setpgid(0, 0); worker(s, bad, jobs, upto); }
            for (;;) {
                if (waitpid(p, &st, WNOHANG) == p) break;
                if (now() - t1 > 300) { kill(-p, SIGKILL); kill(p, SIGKILL); waitpid(p, &st, 0); break; }
                usleep(5000);
            }
            if (sh->s[bad].failed || !(WIFEXITED(st) && WEXITSTATUS(st) == 42)) {
                violated = 1;
                snprintf(msg, MSG, "%s", sh->s[bad].failed ? sh->s[bad].msg : save.msg);
                write_replay(s, &save, msg, " (after the cases before it in the same process)");
            } else
                fprintf(out, "{\"suite\":\"%s\",\"unconfirmed\":true}\n", s->name);
        }
    }
    {
        char *c = NULL;
        size_t n = 0;
        FILE *m = open_memstream(&c, &n);
        /* a sample: the last case run by the first worker */
        if (sh->s[0].depth && !violated) {
            char path[64];
            FILE *t;
            snprintf(path, sizeof path, "/tmp/mcshow.%d", (int)getpid());
            t = fopen(path, "w+");
            if (t) {
                int ch;
                unlink(path);
                show_case(s, &sh->s[0], t);
                rewind(t);
                while ((ch = fgetc(t)) != EOF) {
                    if (ch == '\n') fputs("; ", m);
                    else if (ch == '"' || ch == '\\') fprintf(m, "\\%c", ch);
                    else if (ch < 32 || ch > 126) fprintf(m, "\\u%04x", ch & 255);
                    else fputc(ch, m);
                    if (ftell(m) > 1500) break;
                }
                fclose(t);
            }
        }
        fclose(m);
        fprintf(out, "{\"suite\":\"%s\",\"cases\":%llu,\"pruned\":%llu,\"transitions\":%llu,\"extra\":%llu,\"states\":%u,\"states_capped\":%s,\"outcomes\":%u,\"capped\":%s,\"wall\":%.2f,\"sample\":\"%s\"}\n",
                s->name, (unsigned long long)cases, (unsigned long long)skipped, (unsigned long long)trans, (unsigned long long)extra,
                sh->nstates, sh->nstates >= HCAP ? "true" : "false", sh->noutcomes, capped ? "true" : "false", now() - t0, c ? c : "");
        free(c);
        fflush(out);
    }
    if (violated) {
        char e[2 * MSG];
        int j = 0;
        for (i = 0; msg[i] && j < (int)sizeof e - 8; i++) {
            if (msg[i] == '"' || msg[i] == '\\') e[j++] = '\\';
            e[j++] = (unsigned char)msg[i] < 32 || (unsigned char)msg[i] > 126 ? '?' : msg[i];
        }
        e[j] = 0;
        fprintf(out, "{\"violation\":\"%s\",\"suite\":\"%s\"}\n", e, s->name);
        fflush(out);
    }
    return violated;
}

static void replay(const char *path, double hang) {
    FILE *f = fopen(path, "r");
    char line[65536], name[128] = "";
    mc_suite *s;
    slot sl;
    char msg[MSG];
    memset(&sl, 0, sizeof sl);
    if (!f) { perror(path); exit(2); }
    while (fgets(line, sizeof line, f)) {
        if (!strncmp(line, "suite: ", 7)) sscanf(line + 7, "%127[^\n]", name);
        if (!strncmp(line, "choices:", 8)) {
            char *p = line + 8, *e;
            for (;;) { long v = strtol(p, &e, 10); if (e == p) break; sl.choice[sl.depth++] = (int)v; p = e; }
        }
    }
    for (s = mc_suites; s->name; s++)
        if (!strcmp(s->name, name)) {
            show_case(s, &sl, stdout);
            if (confirm(s, &sl, hang, msg)) { printf("fails: %s\n", msg); exit(1); }
            printf("holds\n");
            exit(0);
        }
    printf("no suite %s\n", name);
    exit(2);
}

int main(int argc, char **argv) {
    int jobs = 8, i, violated = 0;
    double budget = 600, hang = 40;
    const char *outp = NULL, *only = NULL, *rep = NULL;
    mc_suite *s;
    for (i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "--thorough")) mc_thorough = 1;
        else if (!strcmp(argv[i], "--jobs")) jobs = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--budget")) budget = atof(argv[++i]);
        else if (!strcmp(argv[i], "--hang")) hang = atof(argv[++i]);
        else if (!strcmp(argv[i], "--out")) outp = argv[++i];
        else if (!strcmp(argv[i], "--only")) only = argv[++i];
        else if (!strcmp(argv[i], "--replay")) rep = argv[++i];
        else if (!strcmp(argv[i], "--replay-out")) replay_path = argv[++i];
        else if (!strcmp(argv[i], "--known")) known_keys[n_known++] = argv[++i];
    }
    if (jobs > MAXJ) jobs = MAXJ;
    if (!replay_path) replay_path = (char *)"replay.txt";
    sh = (shared *)mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (sh == MAP_FAILED) { perror("mmap"); return 2; }
    out = outp ? fopen(outp, "w") : stdout;
    if (rep) replay(rep, 3 * hang);
    {
        double t0 = now();
        for (s = mc_suites; s->name && !violated; s++) {
            double leftb = budget - (now() - t0);
            if (only && strcmp(only, s->name)) continue;
            if (leftb < 1) leftb = 1;
            violated = explore(s, jobs, leftb, hang);
        }
    }
    for (i = 0; i < sh->nfind; i++) fprintf(out, "{\"finding\":\"%s\",\"what\":\"%s\"}\n", sh->fkey[i], sh->fmsg[i]);
    fclose(out);
    return violated ? 1 : 0;
}

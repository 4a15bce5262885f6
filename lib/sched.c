/*
 * Schedule explorer.
 *
 * The code under test is compiled with -fsanitize=thread, but linked with this file in place of
 * libtsan: every memory access and every atomic operation of the real code arrives here.  Threads
 * are real ones, of which exactly one runs at a time; before every atomic operation, thread
 * creation, join, yield and end, the explorer decides which goes on.  One execution is one forked
 * process; the tree of decisions is visited in depth first order by all workers, up to a bound on
 * preemptions, leaving out what leads to a state already visited (equal happens-before histories).
 *
 * Seen in every execution: data races (vector clocks honouring the memory orders given), accesses
 * to freed memory or outside of blocks, frees of what is not allocated, deadlocks, and waiting
 * that nothing can end; besides whatever the check itself asserts.
 */
#define _GNU_SOURCE
#include "mc_sched.h"
#include "mc_fill.h"
#include <errno.h>
#include <execinfo.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <threads.h>
#include <time.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <sys/prctl.h>

#define MAXJ 16
#define MAXD 1000
#define MAXQ (1u << 17)
#define NTAB 5
static const uint32_t tabsize[NTAB] = {1u << 18, 1u << 20, 1u << 22, 1u << 24, 1u << 26};
#define TOTAL ((1u << 18) + (1u << 20) + (1u << 22) + (1u << 24) + (1u << 26))
#define MSG 1024
#define MAXF 8
#define NT 40
#define MAXSTEPS 60000
#define TRACE 3000

typedef struct { uint16_t len, gen; uint8_t c[MAXD]; } entry;
typedef struct { short tid; unsigned char kind, size; void *pc; uintptr_t addr; uint64_t val; } event;

typedef struct {
    volatile uint64_t cases, scheds, pruned, skipped, transitions, extra;
    volatile int depth, gdepth, status, failed, hung, capped, preempts;
    volatile int child;
    volatile double since;
    uint8_t choice[MAXD], arity[MAXD];
    char msg[MSG];
    volatile int nev;
    event ev[TRACE];
} slot;

typedef struct {
    slot s[MAXJ + 1];
    volatile int qlock, flock, stop, active, capped, failslot, maxdepth;
    volatile uint32_t qn;
    volatile uint32_t nstates, noutcomes;
    volatile int nfind;
    char fkey[MAXF][128], fmsg[MAXF][256];
    entry fail;
    volatile uint64_t outcomes[1 << 16];
    volatile uint32_t tabn[NTAB];
    volatile uint64_t states[TOTAL] __attribute__((aligned(4096)));
    entry q[MAXQ] __attribute__((aligned(4096)));
} shared;

enum { ST_RUN = 1, ST_OK, ST_PRUNED };

int mc_thorough = 0;
static shared *sh;
static slot *me;
static int depth, confirming, forced, ingen, in_child;
static uint8_t choice[MAXD], arity[MAXD];
static uint64_t proghash;
static int bound;
static jmp_buf skip_jb;
static const char *known_keys[64];
static int n_known;
static int ncpu = 2;

void *__real_memcpy(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
void *__real_memmove(void *, const void *, size_t);

int mc_confirming(void) { return confirming; }
static double now(void) {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec / 1e9;
}

/* ------------------------------------------------------------------ shared sets and choices -- */
static int sh_insert(volatile uint64_t *tab, uint32_t size, uint64_t h, volatile uint32_t *cnt, uint32_t cap) {
    uint32_t i = (uint32_t)(h >> 20) & (size - 1);
    if (!h) h = 1;
    for (;;) {
        uint64_t cur = __atomic_load_n(&tab[i], __ATOMIC_RELAXED);
        if (cur == h) return 0;
        if (!cur) {
            uint64_t z = 0;
            if (*cnt >= cap) return 2;
            if (__atomic_compare_exchange_n(&tab[i], &z, h, 0, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {
                __atomic_fetch_add(cnt, 1, __ATOMIC_RELAXED);
                return 1;
            }
            if (z == h) return 0;
        }
        i = (i + 1) & (size - 1);
    }
}
/* Tables of growing size: what an execution touches stays on few pages. */
static volatile uint64_t *table(int k) { uint32_t o = 0; int i; for (i = 0; i < k; i++) o += tabsize[i]; return sh->states + o; }
/* The low bits hold the fewest preemptions the state was reached with.  1: reached before, with no more. */
static int visited(uint64_t h, int used) {
    int k;
    h &= ~(uint64_t)127;
    if (!h) h = 128;
    if (used > 126) used = 126;
    for (k = 0; k < NTAB; k++) {
        volatile uint64_t *tab = table(k);
        uint32_t size = tabsize[k], i = (uint32_t)(h >> 20) & (size - 1);
        int full = sh->tabn[k] >= size - size / 4;
        for (;;) {
            uint64_t c = __atomic_load_n(&tab[i], __ATOMIC_RELAXED);
            if ((c & ~(uint64_t)127) == h) {
                while ((int)(c & 127) > used)
                    if (__atomic_compare_exchange_n(&tab[i], &c, h | used, 0, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) return 0;
                return 1;
            }
            if (!c) {
                uint64_t z = 0;
                if (full) break;
                if (__atomic_compare_exchange_n(&tab[i], &z, h | used, 0, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {
                    __atomic_fetch_add(&sh->tabn[k], 1, __ATOMIC_RELAXED);
                    __atomic_fetch_add(&sh->nstates, 1, __ATOMIC_RELAXED);
                    return 0;
                }
                continue;
            }
            i = (i + 1) & (size - 1);
        }
    }
    return 0;
}
void mc_state(uint64_t h) { (void)h; }
void mc_outcome(uint64_t h) { if (sh->noutcomes < 60000) sh_insert(sh->outcomes, 1 << 16, h, &sh->noutcomes, 60000); }
void mc_steps(unsigned long n) { (void)n; }
void mc_extra_traces(unsigned long n) { me->extra += n; }

static void stop_here(int status) {
    int i;
    for (i = 0; i < depth; i++) { me->choice[i] = choice[i]; me->arity[i] = arity[i]; }
    me->depth = depth;
    me->status = status;
    syscall(SYS_exit_group, 42);
}

void mc_fail(const char *fmt, ...) {
    va_list ap;
    char b[MSG - 40];
    if (me->failed) syscall(SYS_exit_group, 3);
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if (in_child) snprintf(me->msg, MSG, "thread %d: %s", mc_tid(), b);
    else snprintf(me->msg, MSG, "%s", b);
    me->failed = 1;
    stop_here(ST_RUN);
    for (;;) ;
}

void mc_finding(const char *key, const char *fmt, ...) {
    char buf[256];
    va_list ap;
    int i;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    for (i = 0; i < n_known; i++) {
        if (strcmp(known_keys[i], key)) continue;
        while (__atomic_exchange_n(&sh->flock, 1, __ATOMIC_ACQUIRE)) ;
        for (i = 0; i < sh->nfind; i++) if (!strcmp(sh->fkey[i], key)) break;
        if (i == sh->nfind && i < MAXF) {
            snprintf(sh->fkey[i], 128, "%s", key);
            snprintf(sh->fmsg[i], 256, "%s", buf);
            sh->nfind++;
        }
        __atomic_store_n(&sh->flock, 0, __ATOMIC_RELEASE);
        return;
    }
    mc_fail("[%s] %s", key, buf);
}

static int decide(int n) {
    int v;
    if (n <= 0 || n > 255) { fprintf(stderr, "choice of %d\n", n); abort(); }
    if (depth >= MAXD) {
        if (!in_child) { fprintf(stderr, "too deep\n"); abort(); }
        sh->capped = 1;
        stop_here(ST_PRUNED);
    }
    v = depth < forced ? choice[depth] : 0;
    if (v >= n) mc_fail("the explorer lost its way: choice %d of %d", v, n);
    choice[depth] = v;
    arity[depth] = n;
    depth++;
    return v;
}

void mc_skip(void) { longjmp(skip_jb, 1); }

/* ------------------------------------------------------------------------------- threads ----- */
typedef uint16_t vc_t[NT];
typedef struct {
    int used, done, joined, detached;
    int go;
    int join;                           /* waits for that one, or -1 */
    int asleep;
    uint64_t sleep_mods, resume_mods, mods;
    vc_t c, acq, rel;
    uint64_t hist;
    int (*func)(void *);
    void *arg;
    int ret;
    pthread_t os;
    /* spinning */
    void *last_pc; uintptr_t last_addr; uint64_t last_val; uint64_t last_mods; int repeats;
    void *tss[64];
    /* Where it has been: see arrival(). */
    uintptr_t top;                      /* of its stack */
    uint64_t writes;                    /* anything it changed besides atomics */
    struct { uint64_t sig, hist, mods; } was[8];
    unsigned nwas;
} thr;

static thr T[NT];
static int nthr, cur;
static uint64_t mods_total;
static int preempts, steps, idle, rotate;
void mc_rotate(int k) { rotate = k; }
static __thread int self_id = 0;
static char *stacks;
#define STK (512 * 1024)

int mc_tid(void) { return self_id; }
int mc_threads(void) { return nthr - 1; }
int mc_unjoined(void) {
    int i, n = 0;
    for (i = 1; i < nthr; i++) n += !T[i].joined && !T[i].detached;
    return n;
}
void mc_cpus(int n) { ncpu = n; }

static long notes[4096];
static int n_notes;
static long counters[256];
void mc_note(long v) { T[self_id].writes++; if (n_notes < 4096) notes[n_notes++] = v; }
int mc_notes(const long **v) { *v = notes; return n_notes; }
static int last_mo = -1;
void mc_progress(void) { T[self_id].writes++; T[self_id].last_pc = NULL; T[self_id].repeats = 0; }
int mc_last_order(void) { return last_mo; }
long mc_count(int which, long d) { if (d) T[self_id].writes++; return counters[which] += d; }

static uint64_t others_mods(int t) { return mods_total - T[t].mods; }
static void modified(void) { T[self_id].mods++; mods_total++; idle = 0; }

static void trace(int kind, void *pc, const volatile void *addr, int size, uint64_t val) {
    if (me->nev < TRACE) {
        event *e = &me->ev[me->nev++];
        e->tid = self_id; e->kind = kind; e->size = size; e->pc = pc; e->addr = (uintptr_t)addr; e->val = val;
    }
}

static void futex_wait(int *p) {
    while (!__atomic_load_n(p, __ATOMIC_ACQUIRE)) syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, 0, NULL, NULL, 0);
    __atomic_store_n(p, 0, __ATOMIC_RELAXED);
}
static void futex_go(int *p) {
    __atomic_store_n(p, 1, __ATOMIC_RELEASE);
    syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, NULL, NULL, 0);
}

static int enabled(int i) {
    if (!T[i].used || T[i].done) return 0;
    if (T[i].join >= 0) return T[T[i].join].done;
    if (T[i].asleep) return others_mods(i) != T[i].sleep_mods;
    return 1;
}

static uint64_t state_key(int kind) {
    uint64_t h = mc_mix(proghash, (uint64_t)kind * 1000 + cur * 100);
    int i;
    for (i = 0; i < nthr; i++) {
        h = mc_mix(h, T[i].hist);
        h = mc_mix(h, (uint64_t)T[i].done | (uint64_t)enabled(i) << 1 | (uint64_t)T[i].repeats << 2 |
                      (uint64_t)(others_mods(i) != T[i].resume_mods) << 20 | (uint64_t)T[i].asleep << 21 |
                      (uint64_t)(T[i].last_pc && T[i].last_mods == others_mods(i)) << 22);
    }
    return h;
}

static void pass_to(int n, int leave) {
    int old = cur;
    if (n == old) return;
    cur = n;
    futex_go(&T[n].go);
    if (leave) for (;;) pause();
    futex_wait(&T[old].go);
}

/* kind: 0 before an operation, 1 yield, 2 waiting, 3 ended. */
static void point(int kind) {
    int opt[NT], n = 0, i, v, t = self_id, en;
    if (!in_child) return;
    if (++steps > MAXSTEPS) mc_fail("the execution does not end (%d steps)", steps);
    en = kind != 3 && enabled(t);
    if (kind == 0 && en && !(rotate && bound < 0 && steps % rotate == 0)) {
        opt[n++] = t;
        if (preempts < (bound < 0 ? -1 - bound : bound)) for (i = 1; i < nthr; i++) { int o = (t + i) % nthr; if (enabled(o)) opt[n++] = o; }
    } else {
        for (i = 1; i < nthr; i++) { int o = (t + i) % nthr; if (enabled(o)) opt[n++] = o; }
        if (en) opt[n++] = t;
    }
    /* a negative bound: that many fewer one deviations of any kind from this order */
    if (bound < 0 && preempts >= -1 - bound && n > 1) n = 1;
    if (!n) {
        /* Only threads that wait for others to change something: let one look again. */
        static int rr;
        int best = -1;
        for (i = 1; i <= nthr; i++) {
            int o = (rr + i) % nthr;
            if (T[o].used && !T[o].done && T[o].join < 0 && T[o].asleep == 1 && !(kind == 3 && o == t)) { best = o; break; }
        }
        if (best < 0) {
            for (i = 0; i < nthr; i++) if (T[i].used && !T[i].done && T[i].asleep) mc_fail("thread %d waits for ever: no other thread can change what it waits for", i);
            for (i = 0; i < nthr; i++) if (T[i].used && !T[i].done) mc_fail("deadlock: thread %d waits for thread %d, which cannot go on", i, T[i].join);
            stop_here(ST_OK);
        }
        if (++idle > 3000) mc_fail("thread %d waits for ever: no other thread can change what it waits for", best);
        rr = best;
        T[best].asleep = 0;
        opt[n++] = best;
    }
    v = 0;
    if (n > 1) {
        if (depth >= forced && !confirming) {
            if (visited(state_key(kind), bound >= 100 ? 0 : preempts)) stop_here(ST_PRUNED);
        }
        v = decide(n);
        if (v > 0 && (kind == 0 || bound < 0)) preempts++;
    }
    if (opt[v] != t) trace(20, 0, 0, 0, opt[v]);
    {
        int o = opt[v];
        T[o].asleep = 0;
    }
    pass_to(opt[v], kind == 3);
}

/* A thread's history says where it is: passing a point counts. */
static void passed(int what) { T[self_id].hist = mc_mix(T[self_id].hist, 0x9A55 + what); }
void mc_point(void) { point(0); passed(1); }

int mc_choose(int n) {
    int v = decide(n);
    if (in_child) T[self_id].hist = mc_mix(T[self_id].hist, 77 + v);
    return v;
}

static void join_vc(vc_t a, const vc_t b) { int i; for (i = 0; i < NT; i++) if (b[i] > a[i]) a[i] = b[i]; }
static void tick(int t) {
    if (T[t].c[t] == 65535) mc_fail("the execution does not end (clock)");
    T[t].c[t]++;
}

static void ended(int t) {
    int round, i, again = 1;
    extern tss_dtor_t mc_tss_dtor[64];
    for (round = 0; round < 4 && again; round++) {
        again = 0;
        for (i = 0; i < 64; i++)
            if (T[t].tss[i] && mc_tss_dtor[i]) { void *p = T[t].tss[i]; T[t].tss[i] = NULL; again = 1; mc_tss_dtor[i](p); }
    }
}

static void finish(int res) {
    int t = self_id;
    ended(t);
    point(0);
    T[t].ret = res;
    T[t].done = 1;
    trace(13, __builtin_return_address(0), 0, 0, res);
    T[t].hist = mc_mix(T[t].hist, 0xE0D);
    modified();
    point(3);
    for (;;) pause();
}

static void *trampoline(void *a) {
    thr *x = (thr *)a;
    self_id = (int)(x - T);
    x->top = (uintptr_t)__builtin_frame_address(0);
    futex_wait(&x->go);
    passed(2);
    finish(x->func(x->arg));
    return NULL;
}

#define HANDLE(i) ((thrd_t)(0x7e0000000000ull + (unsigned long)(i) * 0x100000ull))
static int index_of(thrd_t t) {
    unsigned long d = (unsigned long)t - 0x7e0000000000ul;
    if (d % 0x100000 || d / 0x100000 >= (unsigned)nthr) return -1;
    return (int)(d / 0x100000);
}
static int thread_limit = NT, create_fail_at, creates;
void mc_create_fail(int k) { create_fail_at = k; creates = 0; }

int thrd_create(thrd_t *id, thrd_start_t f, void *arg) {
    pthread_attr_t at;
    int n, t = self_id;
    if (!in_child) { fprintf(stderr, "thread made outside of an execution\n"); abort(); }
    if (++creates == create_fail_at) return thrd_nomem;
    if (nthr >= thread_limit) mc_fail("too many threads for the explorer");
    n = nthr;
    __real_memset(&T[n], 0, sizeof T[n]);
    T[n].used = 1;
    T[n].join = -1;
    T[n].func = f;
    T[t].writes++;
    T[n].arg = arg;
    __real_memcpy(T[n].c, T[t].c, sizeof(vc_t));
    T[n].c[n] = 1;
    T[n].hist = mc_mix(T[t].hist, 0xC1);
    T[t].hist = mc_mix(T[t].hist, 0xC2);
    tick(t);
    *id = HANDLE(n);
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, stacks + (size_t)n * STK, STK);
    nthr++;
    if (pthread_create(&T[n].os, &at, trampoline, &T[n])) { perror("pthread_create"); abort(); }
    trace(10, __builtin_return_address(0), 0, 0, n);
    modified();
    T[n].resume_mods = others_mods(n);
    point(0);
    passed(3);
    return thrd_success;
}
int thrd_join(thrd_t id, int *res) {
    int i = index_of(id), t = self_id;
    if (i <= 0) mc_fail("joins what is not a thread");
    if (T[i].joined || T[i].detached) mc_fail("joins a thread that was joined or detached before");
    if (i == t) mc_fail("joins itself");
    T[t].join = i;
    if (!T[i].done) point(2); else point(0);
    T[t].join = -1;
    T[t].writes++;
    T[i].joined = 1;
    join_vc(T[t].c, T[i].c);
    T[t].hist = mc_mix(T[t].hist, T[i].hist);
    trace(11, __builtin_return_address(0), 0, 0, i);
    if (res) *res = T[i].ret;
    return thrd_success;
}
int thrd_detach(thrd_t id) {
    int i = index_of(id);
    if (i <= 0 || T[i].joined || T[i].detached) mc_fail("detaches a thread that was joined or detached before");
    T[i].detached = 1;
    return thrd_success;
}
void thrd_exit(int res) { if (self_id == 0) mc_fail("the first thread ends itself"); finish(res); for (;;) ; }
thrd_t thrd_current(void) { return HANDLE(self_id); }
int thrd_equal(thrd_t a, thrd_t b) { return a == b; }
static void scrub(void);
static __attribute__((noinline)) void do_yield(void *pc) {
    thr *x = &T[self_id];
    if (!in_child) return;
    trace(12, pc, 0, 0, 0);
    x->hist = mc_mix(x->hist, 0x1E1D);
    x->last_pc = NULL;
    x->repeats = 0;
    if (others_mods(self_id) == x->resume_mods) { x->asleep = 1; x->sleep_mods = x->resume_mods; }
    point(1);
    x->asleep = 0;
    x->resume_mods = others_mods(self_id);
    passed(4);
}
void thrd_yield(void) { do_yield(__builtin_return_address(0)); scrub(); }
int sched_yield(void) { do_yield(__builtin_return_address(0)); scrub(); return 0; }
int thrd_sleep(const struct timespec *a, struct timespec *b) { (void)a; (void)b; do_yield(__builtin_return_address(0)); scrub(); return 0; }

tss_dtor_t mc_tss_dtor[64];
static char tss_used[64];
int tss_create(tss_t *k, tss_dtor_t d) {
    int i;
    for (i = 1; i < 64; i++) if (!tss_used[i]) { tss_used[i] = 1; mc_tss_dtor[i] = d; *k = i; return thrd_success; }
    return thrd_error;
}
void tss_delete(tss_t k) { if (k < 64) { tss_used[k] = 0; mc_tss_dtor[k] = NULL; } }
void *tss_get(tss_t k) { return k < 64 && tss_used[k] ? T[self_id].tss[k] : NULL; }
int tss_set(tss_t k, void *v) { T[self_id].writes++; if (k >= 64 || !tss_used[k]) return thrd_error; T[self_id].tss[k] = v; return thrd_success; }

int sched_getaffinity(pid_t p, size_t n, cpu_set_t *s) {
    int i;
    (void)p;
    __real_memset(s, 0, n);
    for (i = 0; i < ncpu; i++) CPU_SET(i, s);
    return 0;
}

/* ---------------------------------------------------------------------------------- heap ----- */
#define HEAP ((size_t)256 << 20)
#define RZ 32
static unsigned char *heap, *hshadow;       /* one byte for 8: 0 not a block's, 1..8 bytes of a block, 0xFD freed */
static size_t hused;
#define MAXB 65536
typedef struct { size_t off, size; int live, tag; } blk;
static blk *blks;
static int nblk;
static long acount, afrees, alive, fail_at, fail_k, fail_seen;
static int fail_tid;
static int fail_onwards, failed_once;
int mc_alloc_pages, mc_alloc_tag, mc_fault_mode;
void (*mc_on_free)(void *, long);

static void access_range(const volatile void *a, size_t n, int write, void *pc);

static blk *find(const void *p) {
    size_t off = (unsigned char *)p - heap;
    int lo = 0, hi = nblk;
    if ((unsigned char *)p < heap || off >= hused) return NULL;
    while (lo < hi) { int m = (lo + hi) / 2; if (blks[m].off <= off) lo = m + 1; else hi = m; }
    return lo ? &blks[lo - 1] : NULL;
}
static void *get(size_t size, size_t align) {
    size_t off, i;
    acount++;
    T[self_id].writes++;
    if (fail_at && (acount == fail_at || (fail_onwards && acount >= fail_at))) { failed_once = 1; errno = ENOMEM; return NULL; }
    if (fail_k && self_id == fail_tid && (++fail_seen == fail_k || (fail_onwards && fail_seen > fail_k))) { failed_once = 1; errno = ENOMEM; return NULL; }
    if (align < 16) align = 16;
    off = (hused + RZ + align - 1) / align * align;
    if (size > HEAP || off + size + RZ > HEAP) { errno = ENOMEM; return NULL; }
    if (nblk == MAXB) mc_fail("never stops allocating");
    for (i = 0; i < size / 8; i++) hshadow[off / 8 + i] = 8;
    if (size % 8) hshadow[off / 8 + size / 8] = size % 8;
    hused = off + (size + 15) / 16 * 16;
    blks[nblk].off = off; blks[nblk].size = size; blks[nblk].live = 1; blks[nblk].tag = mc_alloc_tag;
    nblk++;
    alive++;
    return heap + off;
}
void *mc_malloc(size_t n) { void *p = get(n, 16); if (p) mc_fresh(p, n); return p; }
void *mc_calloc(size_t a, size_t b) {
    void *p;
    if (b && a > SIZE_MAX / b) { errno = ENOMEM; return NULL; }
    p = get(a * b, 16);
    if (p) { __real_memset(p, 0, a * b); access_range(p, a * b, 1, __builtin_return_address(0)); }
    return p;
}
void *mc_memalign(size_t al, size_t n) { void *p = get(n, al); if (p) mc_fresh(p, n); return p; }
static void release(void *p, void *pc) {
    blk *b = find(p);
    size_t i;
    if (!b || heap + b->off != (unsigned char *)p) mc_fail("frees %p, which is not a block", p);
    if (!b->live) mc_fail("frees %p a second time", p);
    if (mc_on_free) mc_on_free(p, (long)b->size);
    access_range(p, b->size, 2, pc);
    b->live = 0;
    T[self_id].writes++;
    alive--;
    for (i = 0; i < (b->size + 7) / 8; i++) hshadow[b->off / 8 + i] = 0xFD;
    __real_memset(p, 0xDD, b->size > 4096 ? 4096 : b->size);
}
void mc_free(void *p) {
    if (mc_on_free && !p) mc_on_free(NULL, 0);
    afrees++;
    if (p) release(p, __builtin_return_address(0));
}
void *mc_realloc(void *o, size_t n) {
    blk *b;
    void *p;
    size_t os;
    if (!o) return mc_malloc(n);
    b = find(o);
    if (!b || heap + b->off != (unsigned char *)o) mc_fail("reallocates %p, which is not a block", o);
    if (!b->live) mc_fail("reallocates %p, which was freed", o);
    os = b->size;
    p = get(n, 16);
    if (!p) return NULL;
    mc_fresh(p, n);
    __real_memcpy(p, o, os < n ? os : n);
    access_range(p, os < n ? os : n, 1, __builtin_return_address(0));
    release(o, __builtin_return_address(0));
    return p;
}
void mc_alloc_reset(void) { int i; for (i = 0; i < nblk; i++) if (blks[i].live) blks[i].tag = -1; alive = acount = afrees = 0; fail_at = fail_k = 0; failed_once = 0; }
long mc_alloc_live(void) { return alive; }
long mc_alloc_count(void) { return acount; }
long mc_free_count(void) { return afrees; }
void mc_alloc_fail(long k, int onwards) { fail_at = k ? acount + k : 0; fail_onwards = onwards; }
void mc_alloc_fail_in(int tid, long k, int onwards) { fail_tid = tid; fail_k = k; fail_seen = 0; fail_onwards = onwards; }
int mc_alloc_failed(void) { return failed_once; }
long mc_block_size(void *p) { blk *b = find(p); return b && b->live && heap + b->off == (unsigned char *)p ? (long)b->size : -1; }
int mc_block_live(void *p) {
    blk *b = find(p);
    if (!b || !b->live) return 0;
    if (heap + b->off == (unsigned char *)p) return 1;
    return (unsigned char *)p < heap + b->off + b->size ? 2 : 0;
}
long mc_alloc_live_tag(int tag) { long n = 0; int i; for (i = 0; i < nblk; i++) n += blks[i].live && blks[i].tag == tag; return n; }
void mc_alloc_verify(const char *w) { (void)w; }

/* --------------------------------------------------------------------------- memory accesses -- */
/* Of each byte: who wrote it last, and who read it last; `many` has the readers when they are several. */
typedef struct {
    uintptr_t g;
    uint16_t w[8], r[8];
    uint8_t wt[8];                      /* thread + 1, with 0x80 when atomic */
    uint8_t rt[8];                      /* thread + 1, or 0xff: see many */
    uint16_t many;
} gran;
#define GN 60000
static gran *G;
static uint16_t *GI;
static int ngran;
static uint16_t (*many)[8][NT];
static int nmany;

static gran *granule_if(uintptr_t g, int make) {
    uint32_t i = (uint32_t)((g >> 3) ^ (g >> 19) * 40503u) & 0xffff;
    for (;;) {
        gran *x;
        if (!GI[i]) {
            if (!make) return NULL;
            if (ngran + 1 >= GN) mc_fail("too much memory for the explorer");
            GI[i] = ++ngran;
            x = &G[ngran];
            x->g = g;
            return x;
        }
        x = &G[GI[i]];
        if (x->g == g) return x;
        i = (i + 1) & 0xffff;
    }
}
static gran *granule(uintptr_t g) { return granule_if(g, 1); }
static void add_read(gran *g, int i, int t, uint16_t c) {
    int o = g->rt[i] - 1;
    if (o == t || o < 0) { g->rt[i] = t + 1; g->r[i] = c; return; }
    if (o != 0xfe) {
        if (g->r[i] <= T[t].c[o]) { g->rt[i] = t + 1; g->r[i] = c; return; }    /* before this one */
        if (!g->many) { if (nmany + 1 >= 20000) mc_fail("too much memory for the explorer"); g->many = ++nmany; }
        __real_memset(many[g->many][i], 0, sizeof many[0][0]);
        many[g->many][i][o] = g->r[i];
        g->rt[i] = 0xff;
    }
    many[g->many][i][t] = c;
}
/* A reader of that byte whose read is not before what thread t does now, or -1. */
static int unordered_read(gran *g, int i, int t) {
    int o = g->rt[i] - 1, u;
    if (o < 0) return -1;
    if (o != 0xfe) return o != t && g->r[i] > T[t].c[o] ? o : -1;
    for (u = 0; u < nthr; u++) if (u != t && many[g->many][i][u] > T[t].c[u]) return u;
    return -1;
}

static void race(const char *a, const char *b, int other, uintptr_t at, void *pc) {
    trace(30, pc, (void *)at, 1, other);
    mc_fail("data race: %s of a byte that thread %d %s, neither before the other", a, other, b);
}
static void heap_check(uintptr_t a, size_t n, const char *what, void *pc) {
    size_t o = a - (uintptr_t)heap, i;
    for (i = o / 8; i <= (o + n - 1) / 8; i++) {
        unsigned char s = hshadow[i];
        size_t lo = i * 8 < o ? o - i * 8 : 0, hi = (i + 1) * 8 > o + n ? o + n - i * 8 : 8;
        (void)lo;
        if (s == 0xFD) { trace(31, pc, (void *)a, n, 0); mc_fail("%s of freed memory", what); }
        if (s == 0 || hi > s) { trace(32, pc, (void *)a, n, 0); mc_fail("%s outside of any block", what); }
    }
}

/* write 2: a block goes, who uses it later is told so by the heap */
static void access_range(const volatile void *p, size_t n, int write, void *pc) {
    uintptr_t a = (uintptr_t)p, e = a + n;
    int t = self_id;
    uint16_t *c = T[t].c;
    if (!in_child || !n) return;
    if (write && (a > T[t].top || a < (uintptr_t)&c)) T[t].writes++;     /* its own stack is looked at itself */
    if (a >= (uintptr_t)heap && a < (uintptr_t)heap + HEAP) heap_check(a, n, write ? "a write" : "a read", pc);
    if (nthr == 1) {
        /* before the first thread everything happened before everything */
        return;
    }
    while (a < e) {
        gran *g = granule_if(a & ~(uintptr_t)7, write != 2);
        int i, u, hi = (a | 7) >= e ? (int)(e - (a & ~(uintptr_t)7)) : 8;
        for (i = a & 7; g && i < hi; i++) {
            int wt = (g->wt[i] & 0x7f) - 1;
            if (wt >= 0 && wt != t && g->w[i] > c[wt]) race(write ? "a write" : "a read", "writes", wt, (a & ~(uintptr_t)7) + i, pc);
            if (write) {
                u = unordered_read(g, i, t);
                if (u >= 0) race("a write", "reads", u, (a & ~(uintptr_t)7) + i, pc);
                g->w[i] = c[t];
                g->wt[i] = t + 1;
            } else
                add_read(g, i, t, c[t]);
        }
        a = (a | 7) + 1;
    }
}

static void access_atomic(uintptr_t a, int n, int write, void *pc) {
    int t = self_id, i, u;
    uint16_t *c = T[t].c;
    if (a >= (uintptr_t)heap && a < (uintptr_t)heap + HEAP) heap_check(a, n, "an atomic access", pc);
    if (nthr == 1) return;
    for (; n; n--, a++) {
        gran *g = granule(a & ~(uintptr_t)7);
        i = a & 7;
        if (g->wt[i] && !(g->wt[i] & 0x80)) {
            int wt = g->wt[i] - 1;
            if (wt != t && g->w[i] > c[wt]) race("an atomic access", "writes", wt, a, pc);
        }
        if (write) {
            u = unordered_read(g, i, t);
            if (u >= 0) race("an atomic write", "reads", u, a, pc);
            g->w[i] = c[t];
            g->wt[i] = (t + 1) | 0x80;
        }
    }
}

/* A volatile global of the program is a flag that threads and handlers share: a relaxed atomic. */
extern char __data_start[], _end[];
static int global(void *a) { return (char *)a >= __data_start && (char *)a < _end; }
static void shared_flag(void *a, int n, int write, void *pc, uint64_t *fp);
#define FP (__builtin_unwind_init(), (uint64_t *)__builtin_frame_address(0))
#define PC __builtin_return_address(0)
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **a, void *b) { (void)a; (void)b; }
void __tsan_vptr_read(void **a) { (void)a; }
#define RW(n) \
    void __tsan_read##n(void *a) { access_range(a, n, 0, PC); } \
    void __tsan_write##n(void *a) { access_range(a, n, 1, PC); } \
    void __tsan_unaligned_read##n(void *a) { access_range(a, n, 0, PC); } \
    void __tsan_unaligned_write##n(void *a) { access_range(a, n, 1, PC); } \
    void __tsan_volatile_read##n(void *a) { if (global(a)) shared_flag(a, n, 0, PC, FP); else access_range(a, n, 0, PC); } \
    void __tsan_volatile_write##n(void *a) { if (global(a)) shared_flag(a, n, 1, PC, FP); else access_range(a, n, 1, PC); } \
    void __tsan_unaligned_volatile_read##n(void *a) { access_range(a, n, 0, PC); } \
    void __tsan_unaligned_volatile_write##n(void *a) { access_range(a, n, 1, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { access_range(a, n, 0, PC); }
void __tsan_write_range(void *a, size_t n) { access_range(a, n, 1, PC); }

void *__wrap_memcpy(void *d, const void *s, size_t n) {
    if (in_child) { access_range(s, n, 0, PC); access_range(d, n, 1, PC); }
    return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n) {
    if (in_child) { access_range(s, n, 0, PC); access_range(d, n, 1, PC); }
    return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, size_t n) {
    if (in_child) access_range(d, n, 1, PC);
    return __real_memset(d, c, n);
}

/* --------------------------------------------------------------------------------- atomics --- */
typedef struct { uintptr_t a; vc_t l; uint64_t W; } loc;
#define LN 4096
static loc *L;
static int nloc;
static loc *location(uintptr_t a) {
    static int lru;
    int i;
    if (nloc && L[lru].a == a) return &L[lru];
    for (i = 0; i < nloc; i++) if (L[i].a == a) { lru = i; return &L[i]; }
    if (nloc == LN) mc_fail("too many atomic objects for the explorer");
    L[nloc].a = a;
    return &L[nloc++];
}
#define ACQ(o) ((o) == 1 || (o) == 2 || (o) == 4 || (o) == 5)
#define REL(o) ((o) == 3 || (o) == 4 || (o) == 5)

enum { K_LOAD = 1, K_STORE, K_RMW };
/*
 * The local state of a thread at an atomic operation: its stack, the registers a call preserves, how
 * often it changed anything else, its clocks.  A thread that is back where it was, with nothing
 * changed by itself, has not taken a step: it gets the history it had then, and unless others changed
 * something meanwhile it does not run before they do.
 */
static __attribute__((noinline)) uint64_t local_state(thr *x, void *pc, const volatile void *a, uint64_t *fp) {
    uint64_t h, *p, *e = (uint64_t *)x->top;
    h = mc_mix(mc_mix((uint64_t)pc, (uint64_t)a), x->writes * 1000003 + x->mods);
    h = mc_hash_mem(h, x->c, sizeof x->c);
    h = mc_hash_mem(h, x->acq, sizeof x->acq);
    h = mc_hash_mem(h, x->rel, sizeof x->rel);
    /* the saved registers right below the frame of the operation, and all above it */
    for (p = fp - 5; p < e; p++) h = mc_mix(h, *p);
    return h;
}
/* What the explorer leaves below the program's frames must not be taken for the program's state. */
static __attribute__((noinline)) void scrub(void) {
    char b[768];
    __real_memset(b, 0, sizeof b);
    __asm__ volatile("" : : "r"(b) : "memory");
}
/* Before an atomic operation: spinning, and the choice of who goes on. */
static __attribute__((noinline)) void before_atomic(int kind, void *pc, const volatile void *a, uint64_t *fp) {
    thr *x = &T[self_id];
    uint64_t sig, hist = x->hist;
    int i, k;
    (void)kind;
    if (nthr > 1) {
        sig = local_state(x, pc, a, fp);
        for (i = 0; i < 8; i++) if (x->was[i].sig == sig) {
            x->hist = x->was[i].hist;
            x->last_pc = NULL;
            x->repeats = 0;
            if (x->was[i].mods == others_mods(self_id)) {
                x->asleep = 2;
                x->sleep_mods = x->was[i].mods;
                point(1);
                x->asleep = 0;
            } else
                point(0);
            x->was[i].mods = others_mods(self_id);
            return;
        }
    }
    if (x->last_pc == pc && x->last_addr == (uintptr_t)a && x->last_mods == others_mods(self_id)) {
        if (x->repeats < 20) x->repeats++;
    } else
        x->repeats = 0;
    if (x->repeats >= 20) {
        x->asleep = 1;
        x->sleep_mods = others_mods(self_id);
        x->last_pc = NULL;
        x->repeats = 0;
        point(1);
        x->asleep = 0;
        passed(5);
    } else
        point(0);
    if (nthr > 1) {
        k = x->nwas++ % 8;
        x->was[k].sig = sig;
        x->was[k].hist = hist;
        x->was[k].mods = others_mods(self_id);
    }
}
static void after_atomic(int kind, void *pc, const volatile void *a, int n, int mo, uint64_t seen, int wrote, int changed) {
    int t = self_id;
    thr *x = &T[t];
    loc *l = location((uintptr_t)a);
    vc_t before;
    __real_memcpy(before, l->l, sizeof before);
    mo &= 0xff;
    last_mo = mo;
    access_atomic((uintptr_t)a, n, wrote, pc);
    trace(kind, pc, a, n, seen);
    if (kind != K_STORE) {
        if (ACQ(mo)) join_vc(x->c, l->l); else join_vc(x->acq, l->l);
    }
    if (wrote) {
        if (kind == K_STORE) {
            if (REL(mo)) __real_memcpy(l->l, x->c, sizeof(vc_t)); else __real_memcpy(l->l, x->rel, sizeof(vc_t));
        } else {
            if (REL(mo)) join_vc(l->l, x->c); else join_vc(l->l, x->rel);
        }
    }
    /* A read is in its reader's history: what it saw tells which writes came before it, which after. */
    x->hist = mc_mix(x->hist, l->W);
    if (wrote && (changed || memcmp(before, l->l, sizeof before))) {
        x->hist = mc_mix(x->hist, 0x3B);
        l->W = mc_mix(x->hist, 0x3A);
        tick(t);
    } else
        x->hist = mc_mix(x->hist, 0x7EAD);
    if (changed) { modified(); x->last_pc = NULL; }
    else if (kind == K_STORE) x->last_pc = NULL;
    else { x->last_pc = pc; x->last_addr = (uintptr_t)a; x->last_mods = others_mods(t); }
}

static __attribute__((noinline)) void shared_flag(void *a, int n, int write, void *pc, uint64_t *fp) {
    int k = write ? K_STORE : K_LOAD;
    if (!in_child) return;
    before_atomic(k, pc, a, fp);
    after_atomic(k, pc, a, n, 0, 0, write, write);
}
#define ATOMIC(bits, T_) \
    T_ __tsan_atomic##bits##_load(const volatile T_ *a, int mo) { \
        T_ v; \
        if (!in_child) return *a; \
        before_atomic(K_LOAD, PC, a, FP); v = *a; after_atomic(K_LOAD, PC, a, bits / 8, mo, v, 0, 0); scrub(); return v; } \
    void __tsan_atomic##bits##_store(volatile T_ *a, T_ v, int mo) { \
        T_ o; \
        if (!in_child) { *a = v; return; } \
        before_atomic(K_STORE, PC, a, FP); o = *a; *a = v; after_atomic(K_STORE, PC, a, bits / 8, mo, v, 1, o != v); scrub(); } \
    RMW(bits, T_, exchange, v) RMW(bits, T_, fetch_add, o + v) RMW(bits, T_, fetch_sub, o - v) RMW(bits, T_, fetch_and, o & v) \
    RMW(bits, T_, fetch_or, o | v) RMW(bits, T_, fetch_xor, o ^ v) RMW(bits, T_, fetch_nand, ~(o & v)) \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T_ *a, T_ *e, T_ v, int mo, int fo) { return cas##bits(a, e, v, mo, fo, PC, FP); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T_ *a, T_ *e, T_ v, int mo, int fo) { return cas##bits(a, e, v, mo, fo, PC, FP); } \
    T_ __tsan_atomic##bits##_compare_exchange_val(volatile T_ *a, T_ e, T_ v, int mo, int fo) { cas##bits(a, &e, v, mo, fo, PC, FP); return e; }
#define RMW(bits, T_, op, expr) \
    T_ __tsan_atomic##bits##_##op(volatile T_ *a, T_ v, int mo) { \
        T_ o, n; \
        if (!in_child) { o = *a; *a = (expr); return o; } \
        before_atomic(K_RMW, PC, a, FP); o = *a; n = (expr); *a = n; after_atomic(K_RMW, PC, a, bits / 8, mo, o, 1, o != n); scrub(); return o; }
#define CAS(bits, T_) \
    static int cas##bits(volatile T_ *a, T_ *e, T_ v, int mo, int fo, void *pc, uint64_t *fp) { \
        T_ o; int ok; \
        if (!in_child) { o = *a; if (o == *e) { *a = v; return 1; } *e = o; return 0; } \
        before_atomic(K_RMW, pc, a, fp); o = *a; ok = o == *e; \
        if (ok) *a = v; else *e = o; \
        after_atomic(K_RMW, pc, a, bits / 8, ok ? mo : fo, o, ok, ok && o != v); scrub(); return ok; }
CAS(8, uint8_t) CAS(16, uint16_t) CAS(32, uint32_t) CAS(64, uint64_t)
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)

/* Mutexes: the first word is 1 while locked. */
static int lock_of(void *m, int wait) {
    while (__tsan_atomic32_exchange((volatile uint32_t *)m, 1, 4)) {
        if (!wait) return 1;
        do_yield(PC);
    }
    return 0;
}
int mtx_init(mtx_t *m, int type) { (void)type; *(uint32_t *)m = 0; return thrd_success; }
void mtx_destroy(mtx_t *m) { (void)m; }
int mtx_lock(mtx_t *m) { lock_of(m, 1); return thrd_success; }
int mtx_trylock(mtx_t *m) { return lock_of(m, 0) ? thrd_busy : thrd_success; }
int mtx_unlock(mtx_t *m) { __tsan_atomic32_store((volatile uint32_t *)m, 0, 3); return thrd_success; }
void call_once(once_flag *o, void (*f)(void)) {
    uint32_t z = 0;
    /* Done: it never changes again, so it does not matter when this is seen. */
    if (in_child && *(volatile uint32_t *)o == 2) {
        after_atomic(K_LOAD, PC, o, 4, 2, 2, 0, 0);
        return;
    }
    if (__tsan_atomic32_compare_exchange_strong((volatile uint32_t *)o, &z, 1, 2, 2)) {
        f();
        __tsan_atomic32_store((volatile uint32_t *)o, 2, 3);
    } else
        while (__tsan_atomic32_load((volatile uint32_t *)o, 2) != 2) do_yield(PC);
}
int pthread_once(pthread_once_t *o, void (*f)(void)) { call_once((once_flag *)o, f); return 0; }

void __tsan_atomic_thread_fence(int mo) {
    thr *x = &T[self_id];
    if (!in_child) return;
    last_mo = mo;
    if (ACQ(mo)) join_vc(x->c, x->acq);
    if (REL(mo)) { __real_memcpy(x->rel, x->c, sizeof(vc_t)); tick(self_id); }
    x->hist = mc_mix(x->hist, 0xFE + mo);
}
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

/* --------------------------------------------------------------------------- one execution --- */
static void crash(int sig) {
    snprintf(me->msg, MSG, "thread %d: the code under test crashed with signal %d (%s)", self_id, sig, strsignal(sig));
    me->failed = 1;
    stop_here(ST_RUN);
}
void mc_crash_handlers(void) {
    static char stack[65536];
    stack_t ss;
    struct sigaction sa;
    int sigs[] = {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, 0}, i;
    __real_memset(&ss, 0, sizeof ss);
    ss.ss_sp = stack; ss.ss_size = sizeof stack;
    sigaltstack(&ss, NULL);
    __real_memset(&sa, 0, sizeof sa);
    sa.sa_handler = crash;
    sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (i = 0; sigs[i]; i++) sigaction(sigs[i], &sa, NULL);
}

static void child(mc_suite *s) {
    signal(SIGPIPE, SIG_DFL);
    mc_crash_handlers();
    nthr = 1;
    T[0].top = (uintptr_t)__builtin_frame_address(0);
    T[0].used = 1; T[0].join = -1; T[0].c[0] = 1; T[0].os = pthread_self();
    cur = 0;
    self_id = 0;
    prctl(78, 1, 0, 0, 0);                  /* no futex table of its own, where the kernel would make one */
    in_child = 1;
    s->run();
    /* whoever still runs goes on to its end */
    T[0].done = 1;
    T[0].hist = mc_mix(T[0].hist, 0xE0D);
    modified();
    point(3);
    stop_here(ST_OK);
}

static void worker_setup(int w) {
    int fd = open("/dev/null", O_RDWR);
    struct rlimit rl;
    cpu_set_t cs;
    void *bt[4];
    dup2(fd, 0); dup2(fd, 1); dup2(fd, 2);
    close(fd);
    rl.rlim_cur = rl.rlim_max = 0;
    setrlimit(RLIMIT_CORE, &rl);
    CPU_ZERO(&cs);
    CPU_SET(w % (int)sysconf(_SC_NPROCESSORS_ONLN), &cs);
    syscall(SYS_sched_setaffinity, 0, sizeof cs, &cs);
    backtrace(bt, 4);                       /* loads what it needs */
}

static void tables(void) {
    int fl = MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE;
    heap = mmap((void *)0x600000000000ul, HEAP, PROT_READ | PROT_WRITE, fl, -1, 0);
    hshadow = mmap(NULL, HEAP / 8, PROT_READ | PROT_WRITE, fl, -1, 0);
    blks = mmap(NULL, sizeof(blk) * MAXB, PROT_READ | PROT_WRITE, fl, -1, 0);
    G = mmap(NULL, sizeof(gran) * GN, PROT_READ | PROT_WRITE, fl, -1, 0);
    GI = mmap(NULL, 2 << 16, PROT_READ | PROT_WRITE, fl, -1, 0);
    many = mmap(NULL, sizeof *many * 20000, PROT_READ | PROT_WRITE, fl, -1, 0);
    L = mmap(NULL, sizeof(loc) * LN, PROT_READ | PROT_WRITE, fl, -1, 0);
    stacks = mmap(NULL, (size_t)STK * NT, PROT_READ | PROT_WRITE, fl | MAP_STACK, -1, 0);
}

static int gen_program(mc_suite *s) {
    depth = 0;
    rotate = 0;
    if (setjmp(skip_jb)) return 0;
    s->gen();
    {
        int i;
        proghash = 0x5EED;
        for (i = 0; i < depth; i++) proghash = mc_mix(proghash, choice[i] + 1);
    }
    return 1;
}

/* Runs the execution of choice[0..forced) in a process of its own; 0: ended as it should. */
/*
 * The memory of ended processes comes back late; when executions are faster than that, wait for it.
 */
static void spare_memory(void) {
    static int every;
    int i;
    if (every++ % 64) return;
    for (i = 0; i < 200; i++) {
        char b[512], *q;
        long total = 0, avail = 0;
        int f = open("/proc/meminfo", O_RDONLY | O_CLOEXEC), n = f < 0 ? 0 : (int)read(f, b, sizeof b - 1);
        if (f >= 0) close(f);
        if (n <= 0) return;
        b[n] = 0;
        if ((q = strstr(b, "MemTotal:"))) total = atol(q + 9);
        if ((q = strstr(b, "MemAvailable:"))) avail = atol(q + 13);
        if (avail * 5 >= total * 2) return;
        usleep(50000);
    }
}

static int execute(mc_suite *s) {
    pid_t p;
    int st;
    spare_memory();
    me->status = ST_RUN; me->failed = 0; me->hung = 0; me->nev = 0; me->depth = 0;
    me->gdepth = depth;
    __atomic_thread_fence(__ATOMIC_SEQ_CST);
    p = fork();
    if (p == 0) child(s);
    me->since = now();
    me->child = p;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
    me->child = 0;
    if (me->failed) return 1;
    if (me->status == ST_OK || me->status == ST_PRUNED) return 0;
    if (me->hung) snprintf(me->msg, MSG, "the execution does not end");
    else if (WIFSIGNALED(st)) snprintf(me->msg, MSG, "the code under test ended the process with signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
    else snprintf(me->msg, MSG, "the code under test ended the process with status %d", WEXITSTATUS(st));
    me->depth = 0;
    return 1;
}

static double deadline;

static void qlock(void) { while (__atomic_exchange_n(&sh->qlock, 1, __ATOMIC_ACQUIRE)) sched_yield(); }
static void qunlock(void) { __atomic_store_n(&sh->qlock, 0, __ATOMIC_RELEASE); }

static void worker(mc_suite *s, int w) {
    static entry e;
    int i, c, busy = 0;
    me = &sh->s[w];
    worker_setup(w);
    if (s->init) s->init();
    for (;;) {
        int ok;
        qlock();
        if (busy) { sh->active--; busy = 0; }
        if (sh->stop) { qunlock(); break; }
        if (!sh->qn) {
            int fin = sh->active == 0;
            qunlock();
            if (fin) break;
            usleep(200);
            continue;
        }
        sh->qn--;
        __real_memcpy(&e, &sh->q[sh->qn], offsetof(entry, c) + sh->q[sh->qn].len);
        sh->active++;
        busy = 1;
        qunlock();
        if (now() > deadline) { sh->capped = 1; sh->stop = 1; continue; }
        __real_memcpy(choice, e.c, e.len);
        forced = e.len;
        ok = gen_program(s);
        if (!ok) {
            me->skipped++;
            me->depth = depth;
            for (i = 0; i < depth; i++) { me->choice[i] = choice[i]; me->arity[i] = arity[i]; }
        } else {
            int g = depth;
            if (e.len <= g) me->cases++;
            if (execute(s)) {
                qlock();
                if (sh->failslot < 0) {
                    sh->failslot = w;
                    if (me->depth) { sh->fail.len = me->depth; __real_memcpy(sh->fail.c, me->choice, me->depth); }
                    else { sh->fail.len = e.len > g ? e.len : g; __real_memcpy(sh->fail.c, choice, sh->fail.len); }
                    sh->stop = 1;
                }
                qunlock();
                continue;
            }
            me->scheds++;
            if (me->status == ST_PRUNED) me->pruned++;
            me->transitions += me->nev;
            if (me->depth > sh->maxdepth) sh->maxdepth = me->depth;
        }
        if (me->depth > e.len) {
            qlock();
            for (i = e.len; i < me->depth; i++)
                for (c = me->arity[i] - 1; c >= 1; c--) {
                    entry *q;
                    if (sh->qn >= MAXQ) { sh->capped = 1; break; }
                    q = &sh->q[sh->qn++];
                    q->len = i + 1;
                    __real_memcpy(q->c, me->choice, i);
                    q->c[i] = c;
                }
            qunlock();
        }
    }
    _exit(42);
}

static const char *kinds[] = {"", "load", "store", "read-modify-write", "", "", "", "", "", "", "makes thread", "joined thread", "yields", "ends", [20] = "switch to thread",
    [30] = "race", [31] = "freed memory", [32] = "outside"};

static void show_trace(slot *sl, FILE *f) {
    char cmd[65536];
    int i, n, from = sl->nev > 400 ? sl->nev - 400 : 0;
    char exe[512], line[512];
    ssize_t r = readlink("/proc/self/exe", exe, sizeof exe - 1);
    FILE *a;
    static char fn[TRACE][80];
    extern char __executable_start;
    if (r < 0) return;
    exe[r] = 0;
    n = snprintf(cmd, sizeof cmd, "addr2line -s -f -e %s", exe);
    for (i = from; i < sl->nev; i++) {
        fn[i][0] = 0;
        n += snprintf(cmd + n, sizeof cmd - n, " %lx", sl->ev[i].pc ? (unsigned long)((char *)sl->ev[i].pc - &__executable_start - 1) : 0ul);
        if (n > (int)sizeof cmd - 100) break;
    }
    a = popen(cmd, "r");
    if (a) {
        for (i = from; i < sl->nev; i++) {
            char name[200] = "", where[200] = "";
            if (!fgets(line, sizeof line, a)) break;
            sscanf(line, "%199s", name);
            if (!fgets(line, sizeof line, a)) break;
            sscanf(line, "%199s", where);
            if (sl->ev[i].pc) snprintf(fn[i], 80, " in %.30s (%.30s)", name, where);
        }
        pclose(a);
    }
    fprintf(f, "trace:\n");
    for (i = from; i < sl->nev; i++) {
        event *e = &sl->ev[i];
        if (e->kind >= 10 && e->kind < 30) fprintf(f, "  thread %d: %s %lld%s\n", e->tid, kinds[e->kind], (long long)e->val, fn[i]);
        else fprintf(f, "  thread %d: %s %lx/%d value %llx%s\n", e->tid, kinds[e->kind], (unsigned long)e->addr, e->size, (unsigned long long)e->val, fn[i]);
    }
}

static void show_case(mc_suite *s, entry *en, FILE *f) {
    pid_t p;
    int i, st;
    fprintf(f, "suite: %s\npreemptions: %d\nchoices:", s->name, bound);
    for (i = 0; i < en->len; i++) fprintf(f, " %d", en->c[i]);
    fprintf(f, "\n");
    fflush(f);
    p = fork();
    if (p == 0) {
        forced = en->len;
        __real_memcpy(choice, en->c, en->len);
        if (gen_program(s) && s->show) s->show(f);
        fflush(f);
        _exit(0);
    }
    waitpid(p, &st, 0);
}

/* Run one execution again; 1 if it fails. */
static int confirm(mc_suite *s, entry *en, double limit, char *msg) {
    pid_t p;
    int st;
    double t0 = now();
    slot *sl = &sh->s[MAXJ];
    __real_memset((void *)sl, 0, sizeof *sl);
    p = fork();
    if (p == 0) {
        setpgid(0, 0);
        me = sl;
        worker_setup(0);
        confirming = 1;
        if (s->init) s->init();
        forced = en->len;
        __real_memcpy(choice, en->c, en->len);
        if (!gen_program(s)) _exit(42);
        _exit(execute(s) ? 43 : 42);
    }
    setpgid(p, p);
    for (;;) {
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) break;
        if (now() - t0 > limit) {
            kill(-p, SIGKILL); kill(p, SIGKILL);
            waitpid(p, &st, 0);
            snprintf(msg, MSG, "the execution does not end (%.0f s)", limit);
            return 1;
        }
        usleep(5000);
    }
    kill(-p, SIGKILL);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 42) return 0;
    snprintf(msg, MSG, "%s", sl->msg);
    return 1;
}

static FILE *out;
static char *replay_path;

static int explore(mc_suite *s, int jobs, double budget, double hang) {
    pid_t pid[MAXJ];
    double t0 = now();
    int i, left = jobs, violated = 0, dead = 0;
    uint64_t cases = 0, scheds = 0, pruned = 0, skipped = 0, trans = 0, extra = 0;
    char msg[MSG] = "";
    __real_memset((void *)sh->s, 0, sizeof sh->s);
    if (sh->nstates) {
        __real_memset((void *)sh->tabn, 0, sizeof sh->tabn);
        if (madvise((void *)sh->states, sizeof sh->states, MADV_REMOVE)) { perror("madvise"); exit(4); }
        __real_memset((void *)sh->outcomes, 0, sizeof sh->outcomes);
    }
    sh->stop = 0; sh->active = 0; sh->capped = 0; sh->failslot = -1; sh->maxdepth = 0;
    sh->nstates = sh->noutcomes = 0;
    sh->qn = 1;
    sh->q[0].len = 0;
    sh->qlock = 0;
    deadline = t0 + budget;
    bound = mc_thorough ? s->bound_thorough : s->bound;
    if (!bound) bound = mc_thorough ? 4 : 3;
    for (i = 0; i < jobs; i++) {
        fflush(NULL);
        pid[i] = fork();
        if (pid[i] == 0) { setpgid(0, 0); worker(s, i); }
        setpgid(pid[i], pid[i]);
    }
    while (left > 0) {
        for (i = 0; i < jobs; i++) {
            int st;
            slot *sl = &sh->s[i];
            if (!pid[i]) continue;
            if (waitpid(pid[i], &st, WNOHANG) == pid[i]) {
                kill(-pid[i], SIGKILL);
                pid[i] = 0;
                left--;
                if (!(WIFEXITED(st) && WEXITSTATUS(st) == 42)) { dead++; sh->stop = 1; }
                continue;
            }
            {
                int c = sl->child;
                double since = sl->since;
                if (c > 0 && now() - since > hang && sl->child == c) { sl->hung = 1; kill(c, SIGKILL); }
            }
        }
        usleep(3000);
    }
    for (i = 0; i < jobs; i++) {
        cases += sh->s[i].cases; scheds += sh->s[i].scheds; pruned += sh->s[i].pruned;
        skipped += sh->s[i].skipped; trans += sh->s[i].transitions; extra += sh->s[i].extra;
    }
    if (dead) { fprintf(stderr, "a worker ended unexpectedly\n"); exit(4); }
    if (sh->failslot >= 0) {
        entry en = sh->fail;
        if (confirm(s, &en, 3 * hang, msg)) {
            FILE *f = fopen(replay_path, "w");
            violated = 1;
            if (f) {
                fprintf(f, "%s\n", msg);
                show_case(s, &en, f);
                show_trace(&sh->s[MAXJ], f);
                fclose(f);
            }
        } else
            fprintf(out, "{\"suite\":\"%s\",\"unconfirmed\":true}\n", s->name);
    }
    {
        char *c = NULL;
        size_t n = 0;
        FILE *m = open_memstream(&c, &n);
        for (i = 0; i < jobs; i++) if (sh->s[i].depth) break;
        if (i < jobs && !violated) {
            char path[64];
            FILE *t;
            entry en;
            en.len = sh->s[i].depth;
            __real_memcpy(en.c, sh->s[i].choice, en.len);
            snprintf(path, sizeof path, "/tmp/mcshow.%d", (int)getpid());
            t = fopen(path, "w+");
            if (t) {
                int ch;
                unlink(path);
                show_case(s, &en, t);
                rewind(t);
                while ((ch = fgetc(t)) != EOF) {
                    if (ch == '\n') fputs("; ", m);
                    else if (ch == '"' || ch == '\\') fprintf(m, "\\%c", ch);
                    else if (ch < 32 || ch > 126) fprintf(m, "\\u%04x", ch & 255);
                    else fputc(ch, m);
                    if (ftell(m) > 1500) break;
                }
                fclose(t);
            }
        }
        fclose(m);
        fprintf(out, "{\"suite\":\"%s\",\"cases\":%llu,\"schedules\":%llu,\"cut_at_known_states\":%llu,\"pruned\":%llu,\"transitions\":%llu,\"extra\":%llu,\"states\":%u,\"states_capped\":%s,\"outcomes\":%u,\"preemptions\":%d,\"longest\":%d,\"capped\":%s,\"wall\":%.2f,\"sample\":\"%s\"}\n",
                s->name, (unsigned long long)cases, (unsigned long long)scheds, (unsigned long long)pruned, (unsigned long long)skipped, (unsigned long long)trans, (unsigned long long)extra,
                sh->nstates, sh->tabn[NTAB - 1] >= tabsize[NTAB - 1] - tabsize[NTAB - 1] / 4 ? "true" : "false", sh->noutcomes, bound, sh->maxdepth, sh->capped && !violated ? "true" : "false", now() - t0, c ? c : "");
        free(c);
        fflush(out);
    }
    if (violated) {
        char e[2 * MSG];
        int j = 0;
        for (i = 0; msg[i] && j < (int)sizeof e - 8; i++) {
            if (msg[i] == '"' || msg[i] == '\\') e[j++] = '\\';
            e[j++] = (unsigned char)msg[i] < 32 || (unsigned char)msg[i] > 126 ? '?' : msg[i];
        }
        e[j] = 0;
        fprintf(out, "{\"violation\":\"%s\",\"suite\":\"%s\"}\n", e, s->name);
        fflush(out);
    }
    return violated;
}

static void replay(const char *path, double hang) {
    FILE *f = fopen(path, "r");
    static char line[65536];
    char name[128] = "", msg[MSG];
    mc_suite *s;
    entry en;
    en.len = 0;
    if (!f) { perror(path); exit(2); }
    while (fgets(line, sizeof line, f)) {
        if (!strncmp(line, "suite: ", 7)) sscanf(line + 7, "%127[^\n]", name);
        if (!strncmp(line, "preemptions: ", 13)) bound = atoi(line + 13);
        if (!strncmp(line, "choices:", 8)) {
            char *p = line + 8, *e;
            for (;;) { long v = strtol(p, &e, 10); if (e == p) break; en.c[en.len++] = (uint8_t)v; p = e; }
        }
    }
    for (s = mc_suites; s->name; s++)
        if (!strcmp(s->name, name)) {
            int bad;
            show_case(s, &en, stdout);
            bad = confirm(s, &en, 3 * hang, msg);
            show_trace(&sh->s[MAXJ], stdout);
            if (bad) { printf("fails: %s\n", msg); exit(1); }
            printf("holds\n");
            exit(0);
        }
    printf("no suite %s\n", name);
    exit(2);
}

int main(int argc, char **argv) {
    int jobs = 8, i, violated = 0;
    double budget = 600, hang = 40;
    const char *outp = NULL, *only = NULL, *rep = NULL;
    mc_suite *s;
    for (i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "--thorough")) mc_thorough = 1;
        else if (!strcmp(argv[i], "--jobs")) jobs = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--budget")) budget = atof(argv[++i]);
        else if (!strcmp(argv[i], "--hang")) hang = atof(argv[++i]);
        else if (!strcmp(argv[i], "--out")) outp = argv[++i];
        else if (!strcmp(argv[i], "--only")) only = argv[++i];
        else if (!strcmp(argv[i], "--replay")) rep = argv[++i];
        else if (!strcmp(argv[i], "--replay-out")) replay_path = argv[++i];
        else if (!strcmp(argv[i], "--known")) known_keys[n_known++] = argv[++i];
    }
    if (jobs > MAXJ) jobs = MAXJ;
    if (!replay_path) replay_path = (char *)"replay.txt";
    sh = (shared *)mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (sh == MAP_FAILED) { perror("mmap"); return 2; }
    tables();
    out = outp ? fopen(outp, "w") : stdout;
    if (rep) replay(rep, hang);
    {
        double t0 = now();
        for (s = mc_suites; s->name && !violated; s++) {
            double leftb = budget - (now() - t0);
            if (only && strcmp(only, s->name)) continue;
            if (leftb < 1) leftb = 1;
            violated = explore(s, jobs, leftb, hang);
        }
    }
    for (i = 0; i < sh->nfind; i++) fprintf(out, "{\"finding\":\"%s\",\"what\":\"%s\"}\n", sh->fkey[i], sh->fmsg[i]);
    fclose(out);
    return violated ? 1 : 0;
}

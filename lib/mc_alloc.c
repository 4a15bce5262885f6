#define _GNU_SOURCE
#include "mc.h"
#include <sys/mman.h>
#include <errno.h>

/*
 * Every block: front canary, bytes, back canary.  A freed block is filled and kept until the
 * reset, so that a second free, or a write after it, is seen; in pages mode each block has pages
 * of its own, which become inaccessible, so that reads after the free are seen as well.
 */
#define CAN 0xA5
#include "mc_fill.h"
#define GONE 0xDD
#define PADN 16
#define PGSZ 4096u
/* large blocks are filled, and looked over, at their start only */
#define FILL(n) ((n) > 12288 ? 12288 : (n))
#define MAXB 200000
#define HN 1024

typedef struct blk {
    unsigned char *user, *raw;
    size_t size, span;
    int hnext, tag, live;
} blk;

int mc_alloc_pages = 0;
int mc_alloc_tag = 0;
void (*mc_on_free)(void *, long) = NULL;
static blk *blks;
static int nb;
static int head[HN];
static unsigned stamp[HN], gen = 1;
static long live, count, frees, fail_at;
static int fail_onwards, failed;

static unsigned hidx(const void *p) { return (unsigned)(((uint64_t)(uintptr_t)p >> 3) * 0x9e3779b97f4a7c15ull >> 54); }

static blk *find(const void *p) {
    unsigned h = hidx(p);
    int i;
    if (stamp[h] != gen) return NULL;
    /* newest first */
    for (i = head[h]; i >= 0; i = blks[i].hnext) if (blks[i].user == p) return &blks[i];
    return NULL;
}

static void *get(size_t size, size_t align) {
    blk *b;
    unsigned h;
    count++;
    if (fail_at && (count == fail_at || (fail_onwards && count >= fail_at))) { failed = 1; errno = ENOMEM; return NULL; }
    if (size > ((size_t)1 << 30)) { errno = ENOMEM; return NULL; }
    if (align < 16) align = 16;
    if (!blks) blks = (blk *)mmap(NULL, sizeof(blk) * MAXB, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (nb == MAXB) mc_fail("the case never stops allocating");
    b = &blks[nb];
    b->size = size; b->tag = mc_alloc_tag; b->span = 0; b->live = 1;
    if (mc_alloc_pages) {
        size_t body = (size + align - 1) / align * align, span = (body + PGSZ - 1) / PGSZ * PGSZ;
        unsigned char *m;
        if (!span) span = PGSZ;
        m = (unsigned char *)mmap(NULL, span + PGSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (m == MAP_FAILED) mc_fail("the harness is out of memory");
        mprotect(m + span, PGSZ, PROT_NONE);
        memset(m, CAN, span);
        b->raw = m;
        b->user = m + span - body;
        b->span = span;
    } else {
        b->raw = (unsigned char *)malloc(size + 2 * PADN + align);
        b->user = (unsigned char *)(((uintptr_t)b->raw + PADN + align - 1) & ~(uintptr_t)(align - 1));
        memset(b->user - PADN, CAN, PADN);
        memset(b->user + size, CAN, PADN);
    }
    mc_fresh(b->user, FILL(size));
    h = hidx(b->user);
    if (stamp[h] != gen) { stamp[h] = gen; head[h] = -1; }
    b->hnext = head[h];
    head[h] = nb++;
    live++;
    return b->user;
}

static void bounds(blk *b, const char *when) {
    unsigned char *p, *lo, *hi;
    if (b->span) {
        if (!b->live) return;
        lo = b->raw; hi = b->raw + b->span;
    } else {
        lo = b->user - PADN; hi = b->user + b->size + PADN;
    }
    for (p = lo; p < b->user; p++)
        if (*p != CAN) mc_fail("%s: write %ld before a block of %zu bytes", when, (long)(b->user - p), b->size);
    for (p = b->user + b->size; p < hi; p++)
        if (*p != CAN) mc_fail("%s: write %ld after a block of %zu bytes", when, (long)(p - b->user - b->size), b->size);
}

void *mc_malloc(size_t n) { return get(n, 16); }
void *mc_memalign(size_t a, size_t n) { return get(n, a); }
void *mc_calloc(size_t c, size_t n) {
    void *p;
    if (n && c > (size_t)-1 / n) { count++; errno = ENOMEM; return NULL; }
    p = get(c * n, 16);
    if (p) memset(p, 0, c * n);
    return p;
}
void mc_free(void *p) {
    blk *b;
    if (!p) return;
    b = find(p);
    if (!b) mc_fail("free of an address which is not the start of a block");
    if (!b->live) mc_fail("block of %zu bytes freed twice", b->size);
    bounds(b, "free");
    if (mc_on_free) mc_on_free(p, (long)b->size);
    b->live = 0;
    frees++;
    live--;
    if (b->span) mprotect(b->raw, b->span, PROT_NONE);
    else memset(b->user, GONE, FILL(b->size));
}
void *mc_realloc(void *p, size_t n) {
    blk *b;
    void *q;
    size_t old;
    if (!p) return get(n, 16);
    b = find(p);
    if (!b || !b->live) mc_fail("realloc of an address which is not a live block");
    old = b->size;
    q = get(n, 16);
    if (!q) return NULL;
    memcpy(q, p, old < n ? old : n);
    mc_free(p);
    return q;
}

long mc_alloc_live(void) { return live; }
long mc_alloc_count(void) { return count; }
long mc_free_count(void) { return frees; }
int mc_alloc_failed(void) { return failed; }
void mc_alloc_fail(long k, int onwards) { fail_at = k; fail_onwards = onwards; failed = 0; }
long mc_block_size(void *p) { blk *b = find(p); return b && b->live ? (long)b->size : -1; }
int mc_block_live(void *p) {
    blk *b = find(p);
    int i;
    if (b) return b->live;
    for (i = 0; i < nb; i++)
        if (blks[i].live && (unsigned char *)p > blks[i].user && (unsigned char *)p < blks[i].user + blks[i].size) return 2;
    return 0;
}
void mc_alloc_verify(const char *when) {
    int i;
    size_t k;
    for (i = 0; i < nb; i++) {
        bounds(&blks[i], when);
        if (!blks[i].live && !blks[i].span)
            for (k = 0; k < FILL(blks[i].size); k++)
                if (blks[i].user[k] != GONE) mc_fail("%s: write to a freed block of %zu bytes, at offset %zu", when, blks[i].size, k);
    }
}
long mc_alloc_live_tag(int tag) {
    int i; long n = 0;
    for (i = 0; i < nb; i++) if (blks[i].live && blks[i].tag == tag) n++;
    return n;
}
void mc_alloc_reset(void) {
    int i;
    for (i = 0; i < nb; i++) {
        if (blks[i].span) munmap(blks[i].raw, blks[i].span + PGSZ);
        else free(blks[i].raw);
    }
    nb = 0; gen++;
    live = count = frees = 0; fail_at = 0; fail_onwards = 0; failed = 0;
}

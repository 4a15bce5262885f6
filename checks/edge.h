/* Buffers that end, or start, at a page nobody may touch. */
#include "raii.h"
#include "mc.h"
#include <sys/mman.h>
typedef struct { unsigned char *base; size_t room; } edge_t;
static edge_t edge_new(size_t pages) {
    edge_t e;
    unsigned char *p = mmap(NULL, (pages + 2) * 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(p + 4096, pages * 4096, PROT_READ | PROT_WRITE);
    e.base = p + 4096; e.room = pages * 4096;
    return e;
}
/* n bytes, the last of which is `gap` bytes before the end. */
static inline unsigned char *edge_end(edge_t *e, size_t n, size_t gap) { return e->base + e->room - gap - n; }
static inline unsigned char *edge_start(edge_t *e, size_t gap) { return e->base + gap; }
/* n bytes against the page behind, or, in the builds without USE_DEBUG, the page before. */
#ifdef USE_DEBUG
static inline unsigned char *edge_either(edge_t *e, size_t n) { return edge_end(e, n, 0); }
#else
static inline unsigned char *edge_either(edge_t *e, size_t n) { (void)n; return edge_start(e, 0); }
#endif
static inline void edge_fill(edge_t *e, int c) { memset(e->base, c, e->room); }
/* lengths around the powers of two */
#define NLONG (mc_thorough ? 11 * 13 : 11 * 9)
static inline int long_len(int i) {
    static const int mid[] = {128, 256, 512, 1024, 4096, 8192, 16384, 32768, 65536, 131072, 262144};
    int w = mc_thorough ? 13 : 9;
    return mid[i / w] - w / 2 + i % w;
}
#define LONG_PAGES 66

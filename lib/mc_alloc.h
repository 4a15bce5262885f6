#ifndef MC_ALLOC_H
#define MC_ALLOC_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
void *mc_malloc(size_t);
void *mc_calloc(size_t, size_t);
void *mc_realloc(void *, size_t);
void mc_free(void *);
void *mc_memalign(size_t, size_t);
/* Forget everything, in particular what a case left behind; the next allocation is number 1. */
void mc_alloc_reset(void);
/* Blocks alive now, and allocations requested since the reset. */
long mc_alloc_live(void);
long mc_alloc_count(void);
long mc_free_count(void);
/* Make allocation number k fail (0: none), and every later one too if `onwards`. */
void mc_alloc_fail(long k, int onwards);
int mc_alloc_failed(void);
/* Bytes requested for the live block starting at p, or -1. */
long mc_block_size(void *p);
/* 1 if p starts a live block, 2 if it lies inside one, 0 otherwise. */
int mc_block_live(void *p);
/* Freed blocks must be untouched, live blocks must not be written outside their bounds. */
void mc_alloc_verify(const char *when);
/* Called with every block about to be freed (NULL for none). */
extern void (*mc_on_free)(void *p, long size);
/* Every block on pages of its own, inaccessible once freed. */
extern int mc_alloc_pages;
/* Tag the blocks allocated from now on. */
extern int mc_alloc_tag;
long mc_alloc_live_tag(int tag);
#ifdef __cplusplus
}
#endif
#endif

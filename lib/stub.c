/* What examples/ or the allocator would provide: src/future.c refers to these when the hosting
   program brings rpmalloc; the checks use their own allocator. */
int rpmalloc_init(void) { return 0; }
void rpmalloc_thread_finalize(int r) { (void)r; }

/* New memory: no two words are alike, and pointers made of it point nowhere; rising or falling by build. */
#ifndef MC_FILL
#define MC_FILL 0
#endif
static void mc_fresh(void *p, size_t n) {
    unsigned char *c = (unsigned char *)p; size_t i;
    for (i = 0; i + 8 <= n; i += 8) {
        unsigned long w = 0xC7C7C7C7C7C7C7C7ul + (MC_FILL ? -i : i) * 0x20003ul;
        __builtin_memcpy(c + i, &w, 8);
    }
    for (; i < n; i++) c[i] = 0xC7;
}

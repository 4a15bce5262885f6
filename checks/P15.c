/* Finding a byte, from either end, against byte by byte loops. */
#include "edge.h"
static edge_t A, L;
static void init(void) { raii_init(); ex_signal_setup(); mc_crash_handlers(); A = edge_new(2); L = edge_new(LONG_PAGES); }
static const unsigned char needles[] = {'a', 0x00, 0x01, 0x7f, 0x80, 0x81, 0xff, ' '};

static int first_of(const unsigned char *s, int n, int c) { int i; for (i = 0; i < n; i++) if (s[i] == c) return i; return -1; }
static int last_of(const unsigned char *s, int n, int c) { while (n--) if (s[n] == c) return n; return -1; }

/* every function of the family on one text */
static void family(const unsigned char *s, uint32_t n, unsigned char c) {
    int want = first_of(s, n, c), rwant = last_of(s, n, c), i, ascii = c < 128, r;
    char *p;
    for (i = 0; i < (int)n && ascii; i++) ascii = s[i] < 128;
    p = simd_memchr((char *)s, c, n);
    mc_check(p == (want < 0 ? NULL : (char *)s + want), "simd_memchr finds it at %ld, expected %d", p ? (long)(p - (char *)s) : -1L, want);
    p = simd_memrchr((char *)s, c, n);
    mc_check(p == (rwant < 0 ? NULL : (char *)s + rwant), "simd_memrchr finds it at %ld, expected %d", p ? (long)(p - (char *)s) : -1L, rwant);
    mc_steps(2);
    if (want >= 0) {
        mc_check((r = memchrk((char *)s, n, c)) == want, "memchrk: %d, expected %d", r, want);
        mc_check((r = memrchrk((char *)s, n, c)) == rwant, "memrchrk: %d, expected %d", r, rwant);
        mc_steps(2);
    }
    if (ascii) {
        mc_check((r = pmemchr((char *)s, n, c)) == want, "pmemchr: %d, expected %d", r, want);
        mc_check((r = pmemrchr((char *)s, n, c)) == rwant, "pmemrchr: %d, expected %d", r, rwant);
        mc_steps(2);
        if (want >= 0) {
            mc_check((r = pmemchrk((char *)s, n, c)) == want, "pmemchrk: %d, expected %d", r, want);
            mc_check((r = pmemrchrk((char *)s, n, c)) == rwant, "pmemrchrk: %d, expected %d", r, rwant);
            mc_steps(2);
        }
    }
    if (n == 8) {
        uint64_t w;
        memcpy(&w, s, 8);
        mc_check((r = (int)memchr8((char *)s, c)) == want, "memchr8: %d, expected %d", r, want);
        mc_check(hasbyte(w, c) == (want >= 0), "hasbyte: %d, expected %d", hasbyte(w, c), want >= 0);
        mc_check(haszero(w) == (first_of(s, 8, 0) >= 0), "haszero: %d", haszero(w));
        if (want >= 0) mc_check((r = (int)memchr8k((char *)s, c)) == want, "memchr8k: %d, expected %d", r, want);
        mc_steps(4);
    }
    mc_outcome(want * 100 + rwant);
}

/* occurrences at two places, look-alikes in between */
static int n_, c_, i_, j_, bg_, gap_;
static void gen(void) {
    n_ = mc_choose(mc_thorough ? 60 : 36);
    c_ = mc_choose(8);
    bg_ = mc_choose(4);
    i_ = mc_choose(n_ + 1);
    j_ = mc_choose(n_ + 1);
    gap_ = mc_choose(mc_thorough ? 4 : 2);
}
static void run(void) {
    unsigned char c = needles[c_], other, *s;
    int k, lead;
    static const unsigned char flips[] = {0x01, 0x80, 0x81, 0x40};
    other = c ^ flips[bg_];
    for (lead = 0; lead < 2; lead++) {
        edge_fill(&A, c);          /* just outside: the byte that is looked for */
        s = lead ? edge_start(&A, gap_) : edge_end(&A, n_, gap_);
        for (k = 0; k < n_; k++) s[k] = other;
        if (i_ < n_) s[i_] = c;
        if (j_ < n_) s[j_] = c;
        family(s, n_, c);
    }
    mc_state(mc_mix(mc_mix(n_ * 61 + i_, j_), c_ * 4 + bg_));
}
static void show(FILE *f) { fprintf(f, "%d bytes %02x, %02x at %d and %d, gap %d\n", n_, needles[c_] ^ (bg_ == 0 ? 1 : bg_ == 1 ? 0x80 : bg_ == 2 ? 0x81 : 0x40), needles[c_], i_, j_, gap_); }

/* every text of up to 7 (8) bytes out of {c, c^1, c^80, c^81 ...}, searched for c */
static int an, ac; static unsigned char as[16];
static void agen(void) {
    int i;
    ac = mc_choose(8);
    an = mc_choose(mc_thorough ? 9 : 8);
    for (i = 0; i < an; i++) as[i] = needles[ac] ^ "\x00\x01\x80\x81"[mc_choose(4)];
}
static void arun(void) {
    unsigned char *s;
    edge_fill(&A, needles[ac]);
    s = edge_either(&A, an);
    memcpy(s, as, an);
    family(s, an, needles[ac]);
    mc_state(mc_hash_mem(ac, as, an));
}
static void ashow(FILE *f) { int i; fprintf(f, "%02x in", needles[ac]); for (i = 0; i < an; i++) fprintf(f, " %02x", as[i]); fprintf(f, "\n"); }

/* every word of 8 bytes out of 5, behind its first byte */
static int w0, w1, w2, wn;
static const unsigned char wv[] = {0x00, 0x01, 0x7f, 0x80, 0x81, 0xff};
static void wgen(void) { w0 = mc_choose(6); w1 = mc_choose(6); w2 = mc_choose(6); wn = mc_choose(6); }
static void wrun(void) {
    unsigned char s[8];
    int i, k, v;
    s[0] = wv[w0]; s[1] = wv[w1]; s[2] = wv[w2];
    for (i = 0; i < 7776; i++) {
        for (v = i, k = 3; k < 8; k++) { s[k] = wv[v % 6]; v /= 6; }
        family(s, 8, wv[wn]);
    }
    mc_extra_traces(7775);
    mc_state(((w0 * 6 + w1) * 6 + w2) * 6 + wn);
}
static void wshow(FILE *f) { fprintf(f, "all words starting %02x %02x %02x, searched for %02x\n", wv[w0], wv[w1], wv[w2], wv[wn]); }

/* bit counts and casts */
static int b0, b1;
static void bgen(void) { b0 = mc_choose(64); b1 = mc_choose(64); }
static void brun(void) {
    uint64_t x = (1ull << b0) | (1ull << b1);
    int lo = b0 < b1 ? b0 : b1, hi = b0 < b1 ? b1 : b0, len;
    unsigned char *s, junk[8];
    uint64_t want;
    mc_check(countr_zero(x) == lo, "countr_zero(%llx) is %d", (unsigned long long)x, countr_zero(x));
    mc_check(countl_zero(x) == 63 - hi, "countl_zero(%llx) is %d", (unsigned long long)x, countl_zero(x));
    mc_check(countr_index(x) == lo + 1, "countr_index(%llx) is %d", (unsigned long long)x, countr_index(x));
    mc_check(countr_index(0) == 0, "countr_index(0) is %d", countr_index(0));
    mc_check(extend((char)(b0 * 4 + b1)) == 0x0101010101010101ull * ((b0 * 4 + b1) & 255), "extend");
    for (len = 0; len <= 8; len++) {
        int k;
        for (k = 0; k < 8; k++) junk[k] = (unsigned char)(b0 * 37 + b1 * 11 + k * 73 + 1);
        s = edge_end(&A, 8, b1 & 7);
        memcpy(s, junk, 8);
        for (want = 0, k = 0; k < len; k++) want |= (uint64_t)junk[k] << (8 * k);
        mc_check(cast8((char *)s, len) == want, "cast8 of %d bytes", len);
        if (len == 8) mc_check(cast((char *)s) == want, "cast");
    }
    mc_state(mc_mix(b0, b1)); mc_outcome(lo * 64 + hi); mc_steps(14);
}
static void bshow(FILE *f) { fprintf(f, "bits %d and %d\n", b0, b1); }

/* long ones: the byte in the first and in the second place given, or nowhere */
static int ln_, lc, la, lb, lg;
static void lgen(void) { ln_ = long_len(mc_choose(NLONG)); lc = mc_choose(8); la = mc_choose(5); lb = mc_choose(5); lg = mc_choose(mc_thorough ? 8 : 2); }
static void lrun(void) {
    unsigned char c = needles[lc], *s = lg ? edge_end(&L, ln_, lg) : edge_either(&L, ln_);
    int at[] = {-1, 0, ln_ / 2, ln_ - 1, 77};
    memset(s, c ^ 1, ln_ + lg);
    if (lg) s[ln_] = c;
    if (at[la] >= 0) s[at[la]] = c;
    if (at[lb] >= 0) s[at[lb]] = c;
    family(s, ln_, c);
    mc_state(mc_mix(mc_mix(ln_, la * 5 + lb), lc * 8 + lg));
}
static void lshow(FILE *f) { fprintf(f, "%d bytes, %02x in places %d and %d, gap %d\n", ln_, needles[lc], la, lb, lg); }
mc_suite mc_suites[] = {{"two occurrences", init, gen, run, show, 0}, {"all short texts", init, agen, arun, ashow, 0},
    {"all words", init, wgen, wrun, wshow, 0}, {"bits", init, bgen, brun, bshow, 0}, {"long", init, lgen, lrun, lshow, 0}, {0}};

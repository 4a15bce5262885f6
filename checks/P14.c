/* Length, comparison and search of strings, against the C library's. */
#include "edge.h"
static edge_t A, B;
static void init(void) { raii_init(); ex_signal_setup(); mc_crash_handlers(); A = edge_new(LONG_PAGES); B = edge_new(LONG_PAGES); }

static const unsigned char hard[] = {'a', 0x01, 0x80, 0xff, 0x7f, 0x81, 0xfe, 0x02};

/* ---- strlen ---- */
static int sl_len, sl_gap, sl_bg, sl_after, sl_pos, sl_odd, sl_start;
static void sl_gen(void) {
    sl_start = mc_choose(2);
    sl_len = mc_choose(mc_thorough ? 80 : 50);
    sl_gap = mc_choose(mc_thorough ? 17 : 9);
    sl_bg = mc_choose(4);
    sl_after = mc_choose(3);
    sl_pos = mc_choose(sl_len + 1);
    sl_odd = mc_choose(sl_pos == sl_len ? 1 : 5);
}
static void sl_run(void) {
    static const unsigned char afters[] = {0x00, 0x01, 0xff};
    unsigned char *s;
    size_t n;
    memset(A.base + (sl_start ? 0 : A.room - 256), afters[sl_after], 256);
    s = sl_start ? edge_start(&A, sl_gap) : edge_end(&A, sl_len + 1, sl_gap);
    memset(s, hard[sl_bg], sl_len);
    s[sl_len] = 0;
    if (sl_pos < sl_len) s[sl_pos] = hard[1 + sl_odd];
    n = simd_strlen((char *)s);
    mc_check(n == (size_t)sl_len, "length of a string of %d is %ld", sl_len, (long)n);
    mc_check(is_str_empty((char *)s) == (sl_len == 0), "is_str_empty of a string of %d", sl_len);
    mc_state(mc_mix(mc_mix(sl_len, (uintptr_t)s & 15), sl_pos * 100 + sl_odd * 10 + sl_bg));
    mc_outcome(n);
    mc_steps(2);
}
static void sl_show(FILE *f) { fprintf(f, "length %d, %s gap %d, bytes %02x, %02x at %d, then %d\n", sl_len, sl_start ? "start" : "end", sl_gap, hard[sl_bg], hard[1 + sl_odd], sl_pos, sl_after); }

/* every string of up to 4 (5) bytes out of 8 */
static int all_len, all_gap; static unsigned char all_s[8];
static void all_gen(void) {
    int i;
    all_gap = mc_choose(8);
    all_len = mc_choose(mc_thorough ? 6 : 5);
    for (i = 0; i < all_len; i++) all_s[i] = hard[mc_choose(8)];
}
static void all_run(void) {
    unsigned char *s;
    int after;
    for (after = 0; after < 2; after++) {
        edge_fill(&A, after ? 0x01 : 0x80);
        s = edge_end(&A, all_len + 1, all_gap);
        memcpy(s, all_s, all_len); s[all_len] = 0;
        mc_check(simd_strlen((char *)s) == (size_t)all_len, "length is %ld, not %d", (long)simd_strlen((char *)s), all_len);
    }
    mc_state(mc_hash_mem(all_len * 8 + all_gap, all_s, all_len));
    mc_outcome(all_len);
    mc_steps(2);
}
static void all_show(FILE *f) { int i; fprintf(f, "gap %d:", all_gap); for (i = 0; i < all_len; i++) fprintf(f, " %02x", all_s[i]); fprintf(f, "\n"); }

/* ---- strcmp ---- */
static int sc_pre, sc_g0, sc_g1, sc_fill, t0n, t1n, sc_more; static unsigned char t0[2], t1[2];
static void sc_gen(void) {
    int i;
    sc_pre = mc_choose(mc_thorough ? 41 : 26);
    sc_fill = mc_choose(2);
    sc_g0 = mc_choose(mc_thorough ? 9 : 4);
    sc_g1 = mc_choose(mc_thorough ? 9 : 4);
    t0n = mc_choose(3);
    for (i = 0; i < t0n; i++) t0[i] = hard[mc_choose(4)];
    t1n = mc_choose(3);
    for (i = 0; i < t1n; i++) t1[i] = hard[mc_choose(4)];
    sc_more = mc_choose(3);
}
static int sgn(int x) { return (x > 0) - (x < 0); }
static void sc_run(void) {
    static const int more[] = {0, 7, 17};
    unsigned char *p, *q;
    int m = more[sc_more], r, k;
    edge_fill(&A, 0x55); edge_fill(&B, 0xaa);
    p = edge_end(&A, sc_pre + t0n + m + 1, sc_g0 * 3);
    q = edge_end(&B, sc_pre + t1n + m + 1, sc_g1 * 5);
    memset(p, sc_fill ? 0xc3 : 'x', sc_pre); memset(q, sc_fill ? 0xc3 : 'x', sc_pre);
    memcpy(p + sc_pre, t0, t0n); memcpy(q + sc_pre, t1, t1n);
    memset(p + sc_pre + t0n, 'm', m); memset(q + sc_pre + t1n, 'm', m);
    p[sc_pre + t0n + m] = 0; q[sc_pre + t1n + m] = 0;
    for (k = 0; k < 2; k++) {
        char *a = (char *)(k ? q : p), *b = (char *)(k ? p : q);
        int want = sgn(strcmp(a, b));
        r = simd_strcmp(a, b);
        mc_check(sgn(r) == want, "comparison is %d, expected the sign of %d", r, want);
        mc_check(is_str_eq(a, b) == (want == 0), "equality is %d, the comparison %d", is_str_eq(a, b), want);
        mc_outcome(want);
    }
    mc_check(is_str_eq((char *)p, (char *)p) && simd_strcmp((char *)p, (char *)p) == 0, "a string differs from itself");
    mc_check(!is_str_eq(NULL, (char *)p) && !is_str_eq((char *)p, NULL), "a string equals no string");
    mc_state(mc_hash_mem(mc_hash_mem(sc_pre * 27 + sc_more * 9 + t0n * 3 + t1n, t0, t0n), t1, t1n));
    mc_steps(7);
}
static void sc_show(FILE *f) {
    int i;
    fprintf(f, "prefix %d of %02x, gaps %d %d, then", sc_pre, sc_fill ? 0xc3 : 'x', sc_g0 * 3, sc_g1 * 5);
    for (i = 0; i < t0n; i++) fprintf(f, " %02x", t0[i]);
    fprintf(f, " against");
    for (i = 0; i < t1n; i++) fprintf(f, " %02x", t1[i]);
    fprintf(f, ", then %d more\n", sc_more);
}

/* ---- a difference anywhere in two strings of the same length ---- */
static int df_len, df_pos, df_a, df_b, df_g;
static void df_gen(void) {
    df_len = 1 + mc_choose(mc_thorough ? 70 : 40);
    df_pos = mc_choose(df_len);
    df_a = mc_choose(8); df_b = mc_choose(8);
    df_g = mc_choose(24);
}
static void df_run(void) {
    int g = df_g & 7, h = (df_g * 3) & 7, r;
    char *p = (char *)(df_g < 16 ? edge_end(&A, df_len + 1, g) : edge_start(&A, g)), *q = (char *)(df_g < 8 ? edge_end(&B, df_len + 1, h) : edge_start(&B, h));
    if (df_g >= 8) { memset(A.base, 'k', 128); memset(B.base, 'k', 128); }
    memset(p, 'k', df_len); memset(q, 'k', df_len);
    p[df_len] = q[df_len] = 0;
    p[df_pos] = hard[df_a]; q[df_pos] = hard[df_b];
    r = simd_strcmp(p, q);
    mc_check(sgn(r) == sgn(strcmp(p, q)), "comparison is %d, expected the sign of %d", r, strcmp(p, q));
    mc_check(is_str_eq(p, q) == (hard[df_a] == hard[df_b]), "equality is %d", is_str_eq(p, q));
    mc_state(mc_mix(mc_mix(df_len, df_pos), df_a * 8 + df_b));
    mc_outcome(sgn(r));
    mc_steps(2);
}
static void df_show(FILE *f) { fprintf(f, "length %d, %02x and %02x at %d, place %d\n", df_len, hard[df_a], hard[df_b], df_pos, df_g); }

/* ---- search ---- */
static char text[400], pat[400];
static void sp_gen(void) {
    int n = mc_choose(mc_thorough ? 12 : 10), m = mc_choose(mc_thorough ? 6 : 5), i, lift = 0;
    for (i = 0; i < n; i++) text[i] = "ab"[mc_choose(2)];
    text[n] = 0;
    for (i = 0; i < m; i++) pat[i] = "ab"[mc_choose(2)];
    pat[m] = 0;
    (void)lift;
}
static void sp_check(void) {
    size_t n = strlen(text), m = strlen(pat);
    char *t = (char *)edge_either(&A, n + 1), *p = (char *)edge_either(&B, m + 1), *w;
    int r, want;
    memcpy(t, text, n + 1); memcpy(p, pat, m + 1);
    w = strstr(t, p);
    want = w ? (int)(w - t) : -1;
    r = strpos(t, p);
    mc_check(r == want, "found at %d, expected %d", r, want);
    mc_check(is_str_in(t, p) == (want >= 0), "is_str_in is %d, expected %d", is_str_in(t, p), want >= 0);
    mc_outcome(want);
    mc_state(mc_hash_mem(mc_hash_mem(3, text, n), pat, m));
    mc_steps(2);
}
static void sp_show(FILE *f) { fprintf(f, "\"%s\" in \"%s\"\n", pat, text); }
static void sp_long_gen(void) {
    static const int tl[] = {7, 8, 9, 31, 64, 255, 256, 300};
    int n = tl[mc_choose(8)], m = 1 + mc_choose(10), at, odd;
    at = mc_choose(n < 40 ? n : 40);
    odd = mc_choose(3);
    if (n > 40 && odd) at = n - 1 - at;
    memset(text, 'a', n); text[n] = 0;
    if (odd < 2) text[at] = 'b';
    memset(pat, 'a', m); pat[m] = 0;
    if (odd != 1) pat[m - 1] = 'b'; else pat[0] = 'b';
}
/* ---- long ones ---- */
static int ll_n, ll_at, ll_g, ll_b;
static void ll_gen(void) { ll_n = long_len(mc_choose(NLONG)); ll_at = mc_choose(6); ll_g = mc_choose(mc_thorough ? 9 : 3); ll_b = mc_choose(4); }
static void ll_run(void) {
    char *p = (char *)edge_end(&A, ll_n + 1, ll_g), *q = (char *)edge_end(&B, ll_n + 1, (ll_g * 3) & 7), c;
    int at = ll_at == 0 ? 0 : ll_at == 1 ? ll_n / 2 : ll_at == 2 ? ll_n - 1 : ll_at == 3 ? ll_n - 9 : ll_at == 4 ? 100 : -1, r;
    memset(p, hard[ll_b], ll_n); memset(q, hard[ll_b], ll_n); p[ll_n] = q[ll_n] = 0;
    memset(p + ll_n + 1, 'x', ll_g);
    if (at >= 0) q[at] = 0x55;
    mc_check(simd_strlen(p) == (size_t)ll_n, "length of a string of %d is %ld", ll_n, (long)simd_strlen(p));
    r = simd_strcmp(p, q);
    mc_check(sgn(r) == sgn(strcmp(p, q)), "comparison is %d, expected the sign of %d", r, strcmp(p, q));
    r = simd_strcmp(q, p);
    mc_check(sgn(r) == sgn(strcmp(q, p)), "comparison is %d, expected the sign of %d", r, strcmp(q, p));
    mc_check(is_str_eq(p, q) == (at < 0), "equality is %d", is_str_eq(p, q));
    q[0] = 0x55; q[1] = 0; c = 0x55;
    if (at >= 0) p[at] = c;
    mc_check(strpos(p, q) == at, "found at %d, expected %d", strpos(p, q), at);
    mc_check(is_str_in(p, q) == (at >= 0), "is_str_in is %d", is_str_in(p, q));
    mc_state(mc_mix(ll_n, ll_at * 100 + ll_g * 8 + ll_b)); mc_outcome(r); mc_steps(6);
}
static void ll_show(FILE *f) { fprintf(f, "strings of %d bytes %02x, gap %d, a difference in place %d\n", ll_n, hard[ll_b], ll_g, ll_at); }
mc_suite mc_suites[] = {
    {"length", init, sl_gen, sl_run, sl_show, 0}, {"length, all short strings", init, all_gen, all_run, all_show, 0},
    {"comparison", init, sc_gen, sc_run, sc_show, 0}, {"one difference", init, df_gen, df_run, df_show, 0},
    {"search", init, sp_gen, sp_check, sp_show, 0}, {"search in long text", init, sp_long_gen, sp_check, sp_show, 0}, {"long", init, ll_gen, ll_run, ll_show, 0}, {0}};

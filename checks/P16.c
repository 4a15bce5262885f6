/* Numbers from text and to text, against the C library and digit by digit references. */
#include "edge.h"
#include <math.h>
static edge_t A, B;
static void init(void) { raii_init(); ex_signal_setup(); mc_crash_handlers(); A = edge_new(1); B = edge_new(1); }
static const unsigned char junks[] = {0x00, '9', 0xff, ' '};

/* text of n bytes followed by 8 readable bytes of junk, the last of them the last of the page */
static char *place(const char *t, int n, int junk) {
    char *p = (char *)edge_end(&A, n + 8, 0);
    memcpy(p, t, n);
    memset(p + n, junks[junk & 3], 8);
    return p;
}
static void parse_u(const char *t, int n, uint64_t want, int junk) {
    char *p = place(t, n, junk);
    uint64_t r = simd_atou(p, n);
    mc_check(r == want, "simd_atou(\"%.*s\", %d) is %llu", n, t, n, (unsigned long long)r);
    if (n <= 8) mc_check((r = atou8(p, n)) == want, "atou8(\"%.*s\", %d) is %llu", n, t, n, (unsigned long long)r);
    mc_steps(2);
}
static void parse_i(const char *t, int n, int64_t want, int junk) {
    char *p = place(t, n, junk);
    int64_t r = simd_atoi(p, n);
    mc_check(r == want, "simd_atoi(\"%.*s\", %d) is %lld", n, t, n, (long long)r);
    mc_steps(1);
}
static void print_i(int64_t x) {
    char want[32], *buf;
    int n = sprintf(want, "%lld", (long long)x), r;
    buf = (char *)edge_end(&B, 22, 0);
    memset(B.base, '#', B.room);
    r = simd_itoa(x, buf);
    mc_check(r == n && !strcmp(buf, want), "simd_itoa(%s) is \"%.24s\", length %d", want, buf, r);
    mc_check(buf[-1] == '#', "simd_itoa(%s) writes before the buffer", want);
    if (x > -100000000 && x < 100000000) {
        buf = (char *)edge_end(&B, 16, 0);
        memset(B.base, '#', B.room);
        r = itoa8((int32_t)x, buf);
        mc_check(r == n && !strcmp(buf, want), "itoa8(%s) is \"%.16s\", length %d", want, buf, r);
        mc_check(buf[-1] == '#', "itoa8(%s) writes before the buffer", want);
        mc_steps(1);
    }
    mc_steps(1);
    parse_i(want, n, x, n);
    if (x >= 0) parse_u(want, n, x, n + 1);
}

/* ---- every value of a range: blocks of 1000 ---- */
static long blk;
static void rgen(void) { blk = (long)mc_choose(mc_thorough ? 202000 : 2400) - (mc_thorough ? 101000 : 1200); }
static void rrun(void) {
    int64_t x;
    for (x = blk * 1000; x < blk * 1000 + 1000; x++) print_i(x);
    mc_extra_traces(999);
    mc_state(blk); mc_outcome(blk % 97);
}
static void rshow(FILE *f) { fprintf(f, "%ld to %ld\n", blk * 1000, blk * 1000 + 999); }

/* ---- around the powers of ten, of two, and the limits ---- */
static int wk, we, wd, wneg;
static void wgen(void) { wk = mc_choose(2); we = mc_choose(wk ? 64 : 19); wd = mc_choose(wk ? 1 : 9); wneg = mc_choose(2); }
static void wrun(void) {
    uint64_t base = 1;
    int i;
    int64_t off;
    if (wk) base = 1ull << we; else { for (i = 0; i < we; i++) base *= 10; base *= wd + 1; }
    for (off = -130; off <= 130; off++) {
        uint64_t u = base + off;
        int64_t x;
        if (u > (1ull << 63)) continue;
        x = wneg ? (int64_t)(0 - u) : (int64_t)u;
        print_i(x);
    }
    mc_extra_traces(260);
    mc_state(mc_mix(base, wneg)); mc_outcome(we);
}
static void wshow(FILE *f) { fprintf(f, "%s%s%d x %d around\n", wneg ? "-" : "", wk ? "2^" : "10^", we, wd + 1); }

/* ---- text of digits: up to two digits differ from a background, any length ---- */
static int tl, tb, ti, tdi, tj, tdj, tsign;
static void tgen(void) {
    tl = mc_choose(20); tb = mc_choose(3);
    ti = mc_choose(tl + 1); tdi = mc_choose(ti == tl ? 1 : 10);
    tj = ti == tl ? tl : ti + 1 + mc_choose(tl - ti); tdj = mc_choose(tj >= tl ? 1 : mc_thorough ? 10 : 5);
    tsign = mc_choose(3);
}
static void trun(void) {
    char t[24];
    int i, j;
    uint64_t want = 0;
    for (i = 0; i < tl; i++) t[i] = "019"[tb];
    if (ti < tl) t[ti] = '0' + tdi;
    if (tj < tl) t[tj] = '0' + tdj * 2 % 10 + (tdj >= 5);
    for (i = 0; i < tl; i++) want = want * 10 + (t[i] - '0');
    if (tl) t[tl] = 0;
    if (!tsign) for (j = 0; j < 4; j++) parse_u(t, tl, want, j);
    else if (tl < 19 || want <= (uint64_t)INT64_MAX) {
        char s[32];
        s[0] = tsign == 1 ? '-' : '+';
        memcpy(s + 1, t, tl);
        for (j = 0; j < 4; j++) parse_i(s, tl + 1, tsign == 1 ? -(int64_t)want : (int64_t)want, j);
    }
    mc_extra_traces(3);
    mc_state(mc_mix(mc_mix(want, tl), tsign)); mc_outcome(tl);
}
static void tshow(FILE *f) { fprintf(f, "%d digits '%c', %d at %d, then number %d at %d, sign %d\n", tl, "019"[tb], tdi, ti, tdj, tj, tsign); }
/* 20 digits, up to 2^64 - 1 */
static int twi;
static void t20gen(void) { twi = mc_choose(4000); }
static void t20run(void) {
    char t[32];
    uint64_t v = twi < 2000 ? ~0ull - twi : 10000000000000000000ull + (uint64_t)(twi - 2000) * 4223372036854775ull;
    int j;
    sprintf(t, "%llu", (unsigned long long)v);
    for (j = 0; j < 4; j++) parse_u(t, 20, v, j);
    mc_state(v); mc_outcome(v % 13);
}
static void t20show(FILE *f) { fprintf(f, "20 digits, number %d\n", twi); }

/* ---- hexadecimal ---- */
static int hl, hi, hdi, hj, hdj, hb, hjunk;
static const char hexd[] = "0123456789abcdefABCDEF";
static void hgen(void) {
    hl = mc_choose(17); hb = mc_choose(3);
    hi = mc_choose(hl + 1); hdi = mc_choose(hi == hl ? 1 : 22);
    hj = hi == hl ? hl : hi + 1 + mc_choose(hl - hi); hdj = mc_choose(hj >= hl ? 1 : mc_thorough ? 22 : 8);
    hjunk = mc_choose(mc_thorough ? 4 : 2);
}
static int hexv(int c) { return c <= '9' ? c - '0' : c >= 'a' ? c - 'a' + 10 : c - 'A' + 10; }
static void hrun(void) {
    char t[24], *p;
    int i;
    uint64_t want = 0, r;
    for (i = 0; i < hl; i++) t[i] = "0fA"[hb];
    if (hi < hl) t[hi] = hexd[hdi];
    if (hj < hl) t[hj] = hexd[mc_thorough ? hdj : (hdj * 3 + 1) % 22];
    for (i = 0; i < hl; i++) want = want << 4 | hexv(t[i]);
    p = place(t, hl, hjunk + 1);
    r = simd_htou(p, hl);
    mc_check(r == want, "simd_htou(\"%.*s\", %d) is %llx", hl, t, hl, (unsigned long long)r);
    if (hl <= 8) mc_check((r = htou8(p, hl)) == want, "htou8(\"%.*s\", %d) is %llx", hl, t, hl, (unsigned long long)r);
    mc_state(mc_hash_mem(hl, t, hl)); mc_outcome(hl); mc_steps(2);
}
static void hshow(FILE *f) { fprintf(f, "%d hex digits '%c', %d at %d, then %d at %d\n", hl, "0fA"[hb], hdi, hi, hdj, hj); }

/* ---- zero padded ---- */
static int pn, pk, pd;
static void pgen(void) { pn = 1 + mc_choose(20); pk = mc_choose(pn < 20 ? pn + 1 : 20); pd = mc_choose(9); }
static void prun(void) {
    char want[32], *s = (char *)edge_end(&B, 28, 0), two[4];
    int i;
    uint64_t p10 = 1, lim = 1, x;
    int64_t off;
    for (i = 0; i < pk; i++) p10 *= 10;
    for (i = 0; i < pn && i < 19; i++) lim *= 10;
    for (off = -120; off <= 120; off++) {
        x = (pk < pn ? p10 * (pd + 1) : p10) + off;
        if ((int64_t)off < 0 && x > p10 * (pd + 1)) continue;
        if (pn < 20 && x >= lim) continue;
        memset(B.base, '#', B.room);
        if (utoap(pn, x, s) != s) mc_fail("utoap does not return its buffer");
        sprintf(want, "%0*llu", pn, (unsigned long long)x);
        mc_check(!strcmp(s, want), "utoap(%d, %llu) is \"%.28s\"", pn, (unsigned long long)x, s);
        mc_check(s[-1] == '#', "utoap writes before the buffer");
        mc_steps(1);
        mc_state(mc_mix(pn, x));
    }
    for (i = 0; i < 100; i++) {
        uint16_t w = utoa2p(i);
        sprintf(want, "%02d", i);
        mc_check(!memcmp(&w, want, 2), "utoa2p(%d)", i);
        memset(two, '#', 4);
        utoa2p_ex(i, two + 1);
        mc_check(!memcmp(two + 1, want, 2) && two[0] == '#' && two[3] == '#', "utoa2p_ex(%d)", i);
    }
    mc_outcome(pn); mc_extra_traces(240);
}
static void pshow(FILE *f) { fprintf(f, "width %d, around %d x 10^%d\n", pn, pd + 1, pk); }

/* ---- decimals ---- */
static int dil, did, ddl, ddd, dpos, dsign, djunk;
static void dgen(void) {
    dsign = mc_choose(3); dil = mc_choose(16); did = mc_choose(4);
    ddl = mc_choose(20); ddd = mc_choose(10); dpos = mc_choose(ddl > 1 ? ddl - 1 : 1); djunk = mc_choose(2);
}
static void drun(void) {
    char t[64];
    int n = 0, i;
    double want, r;
    if (dsign) t[n++] = " -+"[dsign];
    for (i = 0; i < dil; i++) t[n++] = did == 3 ? '1' + i % 9 : "095"[did];
    if (ddl) {
        t[n++] = '.';
        for (i = 0; i < ddl - 1; i++) t[n++] = i == dpos ? '0' + ddd : "0718"[did];
    }
    t[n] = 0;
    want = strtod(t, NULL);
    r = simd_atod(place(t, n, djunk * 2), n);
    mc_check(fabs(r - want) <= fabs(want) * 1e-15, "simd_atod(\"%s\") is %.17g", t, r);
    mc_check(want == 0 || (r < 0) == (want < 0), "simd_atod(\"%s\") is %.17g", t, r);
    mc_state(mc_hash_mem(n, t, n)); mc_outcome((int)want % 17); mc_steps(1);
}
static void dshow(FILE *f) { fprintf(f, "sign %d, %d integer digits (%d), %d decimals (%d at %d)\n", dsign, dil, did, ddl - 1, ddd, dpos); }
/* every value with up to 3 + 3 digits */
static int eb;
static void egen(void) { eb = mc_choose(1000); }
static void erun(void) {
    char t[32];
    int i;
    for (i = 0; i < 1000; i++) {
        int v, n;
        for (v = 0; v < 4; v++) {
            double want, r;
            n = v == 0 ? sprintf(t, "%d.%03d", eb, i) : v == 1 ? sprintf(t, "-%d.%d", eb, i) : v == 2 ? sprintf(t, ".%03d%03d", eb, i) : sprintf(t, "-%d%03d", eb, i);
            want = strtod(t, NULL); r = simd_atod(place(t, n, v), n);
            mc_check(fabs(r - want) <= fabs(want) * 1e-15, "simd_atod(\"%s\") is %.17g", t, r);
        }
    }
    mc_state(eb); mc_outcome(eb % 7); mc_steps(4000); mc_extra_traces(3999);
}
static void eshow(FILE *f) { fprintf(f, "%d.000 to .999\n", eb); }

mc_suite mc_suites[] = {{"ranges", init, rgen, rrun, rshow, 0}, {"limits", init, wgen, wrun, wshow, 0}, {"digits", init, tgen, trun, tshow, 0},
    {"20 digits", init, t20gen, t20run, t20show, 0}, {"hexadecimal", init, hgen, hrun, hshow, 0}, {"padded", init, pgen, prun, pshow, 0},
    {"decimals", init, dgen, drun, dshow, 0}, {"all short decimals", init, egen, erun, eshow, 0}, {0}};

/* Splitting, joining, replacing and copying strings, against plain loops; and who owns the result. */
#include "edge.h"
static const int counts[] = {127, 128, 129, 255, 256, 257, 258, 511, 1023, 4096, 32767, 32768, 32769, 65535, 65536, 65537};
static edge_t A, B, C;
static void init(void) { ex_signal_setup(); mc_crash_handlers(); A = edge_new(200); B = edge_new(LONG_PAGES); C = edge_new(1); }
static char *put(edge_t *e, const char *s) { size_t n = strlen(s) + 1; return (char *)memcpy(edge_either(e, n), s, n); }

/* own: 0 the thread's scope, 1 a scope of its own, 2 nobody (the caller frees it) */
static int own;
static memory_t *sc;
static long live0;
static void begin(void) {
    mc_alloc_reset();
    sc = own == 0 ? raii_init() : own == 1 ? unique_init() : NULL;
    live0 = mc_alloc_live();
}
static void finish(void *block) {
    if (own == 2) { if (block) mc_free(block); }
    else {
        if (block) mc_check(mc_block_live(block) == 1, "the result is not a block of its own");
        if (own == 0) { raii_deferred_clean(); raii_destroy(); }
        else { raii_deferred_free(sc); if (block) mc_check(!mc_block_live(block), "the result outlives its scope"); raii_delete(sc); }
    }
    mc_alloc_verify("at the end");
    mc_check(mc_alloc_live() == 0, "%ld blocks are never released", mc_alloc_live());
}

/* ---- split ---- */
static char text[800000]; static const char *delim; static int delim_kind, want_count, no_count;
static const char *delims[] = {",", ",,", "a", ",a", NULL, " ", ""};
static void split_check(void) {
    char *t, **r, *d; const char *p, *q, *dl; int n = 0, k, count = -77; size_t dn;
    begin();
    t = put(&A, text);
    d = delim ? put(&B, delim) : NULL;
    dl = delim ? delim : " ";
    dn = strlen(dl);
    r = own == 0 ? raii_split(t, d, no_count ? NULL : &count) : str_split_ex(sc, t, d, no_count ? NULL : &count);
    if (!*text) { mc_check(r == NULL, "splitting nothing gives something"); finish(NULL); mc_steps(1); mc_outcome(0); return; }
    mc_check(r != NULL && mc_block_live(r) == 1, "no result");
    for (p = text;; p = q + dn, n++) {
        q = dn ? strstr(p, dl) : NULL;
        k = q ? (int)(q - p) : (int)strlen(p);
        mc_check(r[n] != NULL, "piece %d is missing", n);
        mc_check((int)strlen(r[n]) == k && !memcmp(r[n], p, k), "piece %d is \"%.30s\", expected \"%.*s\"", n, r[n], k, p);
        mc_check(mc_block_live(r[n]), "piece %d is outside the result", n);
        if (!q) break;
    }
    n++;
    mc_check(r[n] == NULL, "the result goes on after %d pieces", n);
    if (!no_count) mc_check(count == n, "the count is %d for %d pieces", count, n);
    mc_check(!strcmp(t, text), "the text was changed");
    finish(r);
    mc_state(mc_mix(mc_hash_mem(delim_kind, text, strlen(text)), own)); mc_outcome(n); mc_steps(1);
}
static void split_gen(void) {
    int n, i;
    own = mc_choose(3); delim_kind = mc_choose(7); delim = delims[delim_kind]; no_count = mc_choose(2);
    n = mc_choose(mc_thorough ? 10 : 8);
    for (i = 0; i < n; i++) text[i] = delim_kind == 4 || delim_kind == 5 ? "a b"[mc_choose(2)] : "ab,"[mc_choose(3)];
    text[n] = 0;
}
static void split_long_gen(void) {
    int pieces, each, i, j, n = 0;
    own = mc_choose(3); delim_kind = mc_choose(4); delim = delims[delim_kind]; no_count = 0;
    pieces = mc_choose(40); each = mc_choose(12);
    for (i = 0; i <= pieces; i++) {
        if (i) n += sprintf(text + n, "%s", delim);
        for (j = 0; j < (each * (i & 3)) % 17 + (each == 11 ? 12 : 0); j++) text[n++] = 'b' + (i + j) % 20;
    }
    text[n] = 0;
}
static void split_huge_gen(void) {
    int pieces, each, i, j, n = 0;
    own = mc_choose(3); delim_kind = mc_choose(4); delim = delims[delim_kind]; no_count = mc_choose(2);
    if (mc_choose(2)) { pieces = counts[mc_choose(16)]; each = mc_choose(3); }
    else { pieces = 2; each = counts[mc_choose(16)]; }
    for (i = 0; i < pieces; i++) {
        if (i) n += sprintf(text + n, "%s", delim);
        for (j = 0; j < each; j++) text[n++] = 'b' + (i + j) % 20;
    }
    text[n] = 0;
}
static void split_show(FILE *f) { fprintf(f, "split \"%s\" by %s%s%s, owner %d\n", text, delim ? "\"" : "", delim ? delim : "nothing", delim ? "\"" : "", own); }

/* ---- concat ---- */
static int cn; static const char *cs[8]; static char c300[301], c64[65];
static const char *pieces[] = {"", "a", "bc", "1234567", "12345678", "\xff\x80", c64, c300};
static void concat_gen(void) { int i; own = mc_choose(3); cn = mc_choose(mc_thorough ? 6 : 5); for (i = 0; i < cn; i++) cs[i] = pieces[mc_choose(8)]; }
static string cat(memory_t *s, int n, ...) { va_list ap; string r; va_start(ap, n); r = str_concat_ex(s, n, ap); va_end(ap); return r; }
static void concat_run(void) {
    char want[2048] = "", *r; int i;
    memset(c300, 'y', 300); memset(c64, 'z', 64);
    for (i = 0; i < cn; i++) strcat(want, cs[i]);
    begin();
    r = own == 0 ? raii_concat(cn, cs[0], cs[1], cs[2], cs[3], cs[4]) : cat(sc, cn, cs[0], cs[1], cs[2], cs[3], cs[4]);
    mc_check(r != NULL && mc_block_size(r) >= (long)strlen(want) + 1, "the result has no room");
    mc_check(!strcmp(r, want), "joined to \"%.60s\"", r);
    finish(r);
    mc_state(mc_mix(mc_hash_mem(cn, cs, sizeof(char *) * cn), own)); mc_outcome(strlen(want)); mc_steps(1);
}
static void concat_show(FILE *f) { int i; fprintf(f, "concat, owner %d:", own); for (i = 0; i < cn; i++) fprintf(f, " \"%.20s\"", cs[i]); fprintf(f, "\n"); }

/* many and long parts */
static int hn, hl; static char *hs[40];
static void huge_gen(void) { own = mc_choose(3); hn = mc_choose(2) ? 1 + mc_choose(40) : 3; hl = hn == 3 ? counts[mc_choose(16)] : mc_choose(12); }
static void huge_run(void) {
    static char part[40][66000], *want; char *r; int i; size_t n = 0;
    if (!want) want = malloc(40 * 66000);
    for (i = 0; i < 40; i++) { int k = hl > 100 ? (i == 1 ? hl : hl / 2 + i) : (hl * (i + 1)) % 23; hs[i] = part[i]; memset(hs[i], 'a' + i % 26, k); hs[i][k] = 0; if (i < hn) { memcpy(want + n, hs[i], k); n += k; } }
    want[n] = 0;
    begin();
#define H8(x) hs[x], hs[x + 1], hs[x + 2], hs[x + 3], hs[x + 4], hs[x + 5], hs[x + 6], hs[x + 7]
    r = own == 0 ? raii_concat(hn, H8(0), H8(8), H8(16), H8(24), H8(32)) : cat(sc, hn, H8(0), H8(8), H8(16), H8(24), H8(32));
    mc_check(r != NULL && mc_block_size(r) >= (long)n + 1, "the result has no room");
    mc_check(!memcmp(r, want, n + 1), "joined to \"%.60s\"", r);
    finish(r);
    mc_state(mc_mix(hn * 100000 + hl, own)); mc_outcome(n); mc_steps(1);
}
static void huge_show(FILE *f) { fprintf(f, "concat, owner %d: %d parts, length %d\n", own, hn, hl); }

/* ---- replace ---- */
static const char *needle, *repl; static int nk, rk;
static const char *needles[] = {"a", "ab", "aa", "aba", "b", ""};
static const char *repls[] = {"", "b", "a", "aab", "0123456789"};
static void replace_check(void) {
    static char want[4000000]; char *h, *r; const char *p; int found = 0, n = 0, m = (int)strlen(needle);
    for (p = text; *p;) if (m && !strncmp(p, needle, m)) { n += sprintf(want + n, "%s", repl); p += m; found++; } else want[n++] = *p++;
    want[n] = 0;
    begin();
    h = put(&A, text);
    { char *nd = put(&B, needle), *rp = put(&C, repl);
      r = own == 0 ? raii_replace(h, nd, rp) : str_replace_ex(sc, h, nd, rp);
      mc_check(!strcmp(nd, needle) && !strcmp(rp, repl), "an argument was changed"); }
    if (!found) mc_check(r == NULL, "something was replaced in \"%s\"", text);
    else {
        mc_check(r != NULL && mc_block_live(r) == 1 && mc_block_size(r) >= n + 1, "the result has no room");
        mc_check(!strcmp(r, want), "replaced to \"%.60s\", expected \"%.60s\"", r, want);
    }
    mc_check(!strcmp(h, text), "the text was changed");
    finish(r);
    mc_state(mc_mix(mc_hash_mem(nk * 5 + rk, text, strlen(text)), own)); mc_outcome(found * 100 + n); mc_steps(1);
}
static void replace_gen(void) {
    int n, i;
    own = mc_choose(3); nk = mc_choose(6); rk = mc_choose(5); needle = needles[nk]; repl = repls[rk];
    n = mc_choose(mc_thorough ? 11 : 8);
    for (i = 0; i < n; i++) text[i] = "abc"[mc_choose(i < 4 ? 3 : 2)];
    text[n] = 0;
}
static void replace_long_gen(void) {
    int times, gap, i, n = 0;
    own = mc_choose(3); nk = mc_choose(5); rk = mc_choose(5); needle = needles[nk]; repl = repls[rk];
    times = mc_choose(66); gap = mc_choose(9);
    for (i = 0; i < times; i++) { n += sprintf(text + n, "%s", needle); memset(text + n, 'c', gap); n += gap; }
    if (gap & 1) text[n++] = 'd';
    text[n] = 0;
}
static void replace_huge_gen(void) {
    int times, gap, i, n = 0;
    own = mc_choose(3); nk = mc_choose(5); rk = mc_choose(5); needle = needles[nk]; repl = repls[rk];
    if (mc_choose(2)) { times = counts[mc_choose(16)]; gap = mc_choose(2); }
    else { times = 1 + mc_choose(2); gap = counts[mc_choose(mc_thorough ? 16 : 10)]; }
    for (i = 0; i < times; i++) { memset(text + n, 'c', gap); n += gap; n += sprintf(text + n, "%s", needle); }
    text[n] = 0;
}
static void replace_show(FILE *f) { fprintf(f, "replace \"%s\" by \"%s\" in \"%s\", owner %d\n", needle, repl, text, own); }
static int which_null;
static void null_gen(void) { own = mc_choose(3); which_null = mc_choose(7) + 1; }
static void null_run(void) {
    char *r;
    begin();
    r = own ? str_replace_ex(sc, which_null & 1 ? NULL : "abc", which_null & 2 ? NULL : "b", which_null & 4 ? NULL : "x")
            : raii_replace(which_null & 1 ? NULL : "abc", which_null & 2 ? NULL : "b", which_null & 4 ? NULL : "x");
    mc_check(r == NULL, "a replacement without its arguments gives something");
    finish(NULL);
    mc_state(which_null * 3 + own); mc_outcome(1); mc_steps(1);
}
static void null_show(FILE *f) { fprintf(f, "replace with missing arguments %d\n", which_null); }

/* ---- memdup, str_copy ---- */
static int mn, mb, mz;
static void mem_gen(void) { own = mc_choose(2); mn = mc_choose(mc_thorough ? 600 : 300); mb = mc_choose(4); mz = mc_choose(mn < 40 ? mn + 1 : 2); }
static void mem_long_gen(void) { own = mc_choose(2); mn = long_len(mc_choose(NLONG)); mb = mc_choose(4); mz = mn; }
static void mem_run(void) {
    unsigned char *s = edge_either(&A, mn), *r, *d; int i; static char out[300000];
    for (i = 0; i < mn; i++) s[i] = mb == 0 ? 0 : mb == 1 ? 0xff : (unsigned char)(i * 31 + mb);
    if (mz < mn) s[mz] = 0;
    begin();
    r = (unsigned char *)(own == 0 ? raii_memdup(s, mn) : str_memdup_ex(sc, s, mn));
    mc_check(r && r != s && mc_block_live(r) == 1 && mc_block_size(r) >= mn, "the copy has no room");
    mc_check(!memcmp(r, s, mn), "the copy differs");
    mc_check(mc_block_size(r) < mn + 1 || r[mn] == 0, "the copy is not terminated");
    if (mn) {
        memset(out, '#', mn + 8);
        mc_check(str_copy(out + 1, (char *)s, mn) == out + 1, "str_copy does not return its destination");
        mc_check(!memcmp(out + 1, s, mn) && out[0] == '#' && out[mn + 1] == '#', "str_copy of %d bytes", mn);
    }
    d = edge_end(&B, mn + 1, 0);
    for (i = 0; i < mn; i++) d[i] = (unsigned char)(i % 200 + 1);
    d[mn] = 0;
    memset(out, '#', mn + 8);
    str_copy(out + 1, (char *)d, 0);
    mc_check(!memcmp(out + 1, d, mn) && out[0] == '#' && (out[mn + 1] == '#' || out[mn + 1] == 0) && out[mn + 2] == '#', "str_copy of a string of %d", mn);
    finish(r);
    mc_state(mc_mix(mn, mb * 50 + mz + own * 1000)); mc_outcome(mn); mc_steps(3);
}
static void mem_show(FILE *f) { fprintf(f, "copy %d bytes of kind %d, zero at %d, owner %d\n", mn, mb, mz, own); }

mc_suite mc_suites[] = {{"split", init, split_gen, split_check, split_show, 0}, {"split long", init, split_long_gen, split_check, split_show, 0},
    {"concat", init, concat_gen, concat_run, concat_show, 0}, {"replace", init, replace_gen, replace_check, replace_show, 0},
    {"replace long", init, replace_long_gen, replace_check, replace_show, 0}, {"replace nothing", init, null_gen, null_run, null_show, 0},
    {"copies", init, mem_gen, mem_run, mem_show, 0}, {"split very long", init, split_huge_gen, split_check, split_show, 0},
    {"concat many", init, huge_gen, huge_run, huge_show, 0}, {"replace very long", init, replace_huge_gen, replace_check, replace_show, 0},
    {"copies, long", init, mem_long_gen, mem_run, mem_show, 0}, {0}};

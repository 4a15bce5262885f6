/* Base64, against an encoder and a decoder written from the definition. */
#include "edge.h"
static edge_t A;
static void init(void) { ex_signal_setup(); mc_crash_handlers(); A = edge_new(LONG_PAGES + 24); }
static const char tab[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static int own;
static memory_t *sc;
static void begin(void) { mc_alloc_reset(); sc = own ? unique_init() : raii_init(); }
static void finish(void) {
    if (own) raii_delete(sc); else { raii_deferred_clean(); raii_destroy(); }
    mc_alloc_verify("at the end");
    mc_check(mc_alloc_live() == 0, "%ld blocks are never released", mc_alloc_live());
}
static int ref_encode(const unsigned char *s, int n, char *o) {
    int i, k = 0;
    for (i = 0; i < n; i += 3) {
        unsigned v = s[i] << 16 | (i + 1 < n ? s[i + 1] << 8 : 0) | (i + 2 < n ? s[i + 2] : 0);
        o[k++] = tab[v >> 18]; o[k++] = tab[v >> 12 & 63];
        o[k++] = i + 1 < n ? tab[v >> 6 & 63] : '='; o[k++] = i + 2 < n ? tab[v & 63] : '=';
    }
    o[k] = 0;
    return k;
}
static unsigned char *put(const void *s, int n) { unsigned char *p = edge_either(&A, n + 1); memcpy(p, s, n); p[n] = 0; return p; }
/* one round: s has no zero byte */
static void round_trip(const unsigned char *s, int n) {
    static char want[400000];
    int k = ref_encode(s, n, want);
    unsigned char *p = put(s, n), *e, *d;
    e = own ? str_encode64_ex(sc, p) : raii_encode64(p);
    mc_check(e && mc_block_live(e) == 1 && mc_block_size(e) >= k + 1, "the encoded text has no room");
    mc_check(!strcmp((char *)e, want), "encoded to \"%.40s\", expected \"%.40s\"", (char *)e, want);
    mc_check(is_base64(e), "the encoded text is said not to be base64");
    mc_steps(2);
    if (n == 0) return;
    p = put(want, k);
    d = own ? str_decode64_ex(sc, p) : raii_decode64(p);
    mc_check(d && mc_block_live(d) == 1 && mc_block_size(d) >= n + 1, "the decoded text has no room");
    mc_check(!memcmp(d, s, n) && d[n] == 0, "decoding what was encoded gives something else");
    mc_steps(1);
}
/* ---- every short text ---- */
static int a_, len_;
static const unsigned char some[] = {1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 48, 63, 64, 65, 95, 127, 128, 129, 170, 191, 192, 193, 223, 224, 239, 240, 247, 248, 251, 252, 253, 254, 255, 'a', 'M', '5', '/', '+', '=', 0x55};
static void agen(void) { own = mc_choose(2); len_ = 1 + mc_choose(3); a_ = 1 + mc_choose(255); }
static void arun(void) {
    unsigned char s[3];
    int i, j, ni = len_ < 2 ? 1 : 255, nj = len_ < 3 ? 1 : mc_thorough ? 255 : (int)sizeof some;
    s[0] = a_;
    for (i = 0; i < ni; i++) {
        begin();
        for (j = 0; j < nj; j++) { s[1] = i + 1; s[2] = mc_thorough ? j + 1 : some[j]; round_trip(s, len_); }
        finish();
    }
    mc_state(len_ * 256 + a_); mc_outcome(a_); mc_extra_traces(ni * nj - 1);
}
static void ashow(FILE *f) { fprintf(f, "texts of %d starting %02x\n", len_, a_); }
/* ---- longer ---- */
static int bn, bk, bp;
static void bgen(void) { own = mc_choose(2); bn = mc_choose(mc_thorough ? 400 : 120); bk = mc_choose(6); bp = mc_choose(sizeof some); }
static void brun(void) {
    unsigned char s[512]; int i;
    for (i = 0; i < bn; i++) s[i] = bk == 0 ? 0xff : bk == 1 ? 1 : bk == 2 ? i % 255 + 1 : bk == 3 ? 0x80 : bk == 4 ? 255 - i % 255 : some[(i * 7 + bp) % sizeof some];
    if (bn) s[bp * 3 % bn] = some[bp];
    begin(); round_trip(s, bn); finish();
    mc_state(mc_hash_mem(bn, s, bn)); mc_outcome(bn);
}
static void bshow(FILE *f) { fprintf(f, "text of %d, kind %d, %d\n", bn, bk, bp); }

/* ---- decoding: every well formed group of four, any foreign characters between ---- */
static int g0, g1; static int foreign;
static int val(int c) { const char *p = c ? strchr(tab, c) : NULL; return p ? (int)(p - tab) : -1; }
static void dgen(void) { own = mc_choose(2); g0 = mc_choose(64); g1 = mc_choose(64); }
static void drun(void) {
    int i, j;
    for (i = 0; i < 64; i++) {
        begin();
        for (j = 0; j < (mc_thorough ? 64 : 8); j++) {
            int jj = mc_thorough ? j : (j * 9 + i) % 64;
            char q[8] = {tab[g0], tab[g1], tab[i], tab[jj], 0};
            unsigned char *d, *p = put(q, 4);
            d = own ? str_decode64_ex(sc, p) : raii_decode64(p);
            mc_check(d && d[0] == (g0 << 2 | g1 >> 4) && d[1] == ((g1 << 4 | i >> 2) & 255) && d[2] == ((i << 6 | jj) & 255) && d[3] == 0, "\"%s\" decodes to %02x %02x %02x", q, d[0], d[1], d[2]);
        }
        finish();
    }
    mc_extra_traces(64 * (mc_thorough ? 64 : 8) - 1);
    mc_state(g0 * 64 + g1); mc_outcome(g0); mc_steps(64 * (mc_thorough ? 64 : 8));
}
static void dshow(FILE *f) { fprintf(f, "groups starting %c%c\n", tab[g0], tab[g1]); }

/* ---- any text of a few characters: decoded if well formed, refused or harmless otherwise ---- */
static const char alpha[] = "Aa/+=\n-\xff";
static int fn_; static char ft[16];
static void fgen(void) { int i; own = mc_choose(2); fn_ = mc_choose(mc_thorough ? 8 : 7); for (i = 0; i < fn_; i++) ft[i] = alpha[mc_choose(i < 5 ? 8 : 6)]; ft[fn_] = 0; }
static void frun(void) {
    char core[16]; int k = 0, i, foreignc = 0, pads = 0, wellformed, v;
    unsigned char *p = put(ft, fn_), *d, out[16];
    for (i = 0; i < fn_; i++) if (ft[i] == '=' || val(ft[i]) >= 0) core[k++] = ft[i]; else foreignc++;
    core[k] = 0;
    while (pads < k && core[k - 1 - pads] == '=') pads++;
    wellformed = k > 0 && k % 4 == 0 && pads <= 2 && (int)strcspn(core, "=") == k - pads;
    begin();
    mc_check(is_base64(p) == (foreignc == 0), "is_base64 is %d", is_base64(p));
    d = own ? str_decode64_ex(sc, p) : raii_decode64(p);
    if (k == 0 || k % 4) mc_check(d == NULL, "%d characters of base64 decode to something", k);
    else if (wellformed) {
        int n = k / 4 * 3 - pads, o = 0;
        for (i = 0; i < k; i += 4) {
            v = 0;
            { int j; for (j = 0; j < 4; j++) v = v << 6 | (core[i + j] == '=' ? 0 : val(core[i + j])); }
            out[o++] = v >> 16; out[o++] = v >> 8; out[o++] = v;
        }
        mc_check(d && mc_block_live(d) == 1 && mc_block_size(d) >= n + 1, "the decoded text has no room");
        mc_check(!memcmp(d, out, n) && d[n] == 0, "decoded to something else");
    } else if (d) mc_check(mc_block_live(d) == 1, "decoded to something that is not there");
    finish();
    mc_state(mc_hash_mem(own, ft, fn_)); mc_outcome(k * 10 + pads); mc_steps(2);
}
static void fshow(FILE *f) { int i; fprintf(f, "decode"); for (i = 0; i < fn_; i++) fprintf(f, " %02x", (unsigned char)ft[i]); fprintf(f, "\n"); }
/* ---- every character: in the alphabet or not ---- */
static int cc, cpos;
static void cgen(void) { cc = 1 + mc_choose(255); cpos = mc_choose(12); }
static void crun(void) {
    unsigned char t[16], *p, *d; int i, in = cc == '=' || val(cc) >= 0;
    own = 0;
    for (i = 0; i < 12; i++) t[i] = 'Q';
    t[cpos] = cc;
    p = put(t, 12);
    mc_check(is_base64(p) == in, "is_base64 with %02x is %d", cc, is_base64(p));
    /* one more letter in the place of a foreign character makes it well formed again */
    begin();
    if (!in) {
        unsigned char u[16]; memcpy(u, t, 12); u[12] = 'Q';
        p = put(u, 13);
        d = raii_decode64(p);
        mc_check(d && !memcmp(d, "\x41\x04\x10\x41\x04\x10\x41\x04\x10", 9) && d[9] == 0, "foreign character %02x is not skipped", cc);
        p = put(t, 12);
        mc_check(raii_decode64(p) == NULL, "11 characters decode to something");
    }
    finish();
    mc_state(cc * 12 + cpos); mc_outcome(cc); mc_steps(3);
}
static void cshow(FILE *f) { fprintf(f, "character %02x at %d\n", cc, cpos); }
/* ---- very long ones ---- */
static int vn, vk;
static void vgen(void) { own = mc_choose(2); vn = long_len(mc_choose(NLONG)); vk = mc_choose(3); }
static void vrun(void) {
    static unsigned char s[270000]; int i;
    for (i = 0; i < vn; i++) s[i] = vk == 0 ? 0xff : vk == 1 ? i % 255 + 1 : some[(i * 7 + i / 300) % sizeof some];
    begin(); round_trip(s, vn); finish();
    mc_state(mc_mix(vn, vk)); mc_outcome(vn);
}
static void vshow(FILE *f) { fprintf(f, "text of %d, kind %d\n", vn, vk); }
mc_suite mc_suites[] = {{"short texts", init, agen, arun, ashow, 0}, {"long texts", init, bgen, brun, bshow, 0}, {"groups of four", init, dgen, drun, dshow, 0},
    {"all texts", init, fgen, frun, fshow, 0}, {"characters", init, cgen, crun, cshow, 0}, {"very long texts", init, vgen, vrun, vshow, 0}, {0}};

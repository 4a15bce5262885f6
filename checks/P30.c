/* Every command line over a small vocabulary, parsed by compat/getopt.c and by the C library. */
#include <getopt.h>
#include "raii.h"
#include "mc.h"
extern char *o_optarg;
extern int o_optind, o_opterr, o_optopt, o_initialized __attribute__((weak));
void o_quiet(void); int o_messages(void);
extern char o_message[];
int o_getopt(int, char *const *, const char *);
int o_getopt_internal(int, char *const *, const char *, const struct option *, int *, int);

#define MAXA 10
static const char *words[] = {"x", "-", "--", "-a", "-b", "-ab", "-bv", "-c", "-cv", "-z", "--foo", "--fo", "--foo=1", "--bar", "--bar=", "--ba", "--baz", "--opt=1", "-foo", "-ba", "-aaz",
    "", "-:", "-az", "-acv", "-abv", "--f", "--bar=2", "--opt", "--nope", "--nope=1", "-opt=1", "-bar", "--flag", "--flag=1", "--fla", "--same", "--sam", "--foobar", "-foobar=3", "-ca", "--=", "-a=1", "-n", "---foo", "-abc", "-+", "y", "--az", "--c=1", "--p", "--q", "--r", "--ra", "--pb=1", "--qa=2", "--foox"};
enum { NW = sizeof words / sizeof *words, FEW = 21 };
static const char *opts[] = {"ab:c::", ":ab:c::", "+ab:c::", "-ab:c::", "+:ab:c::", "-:ab:c::", "", ":", "c::b:a"};
static int fl_o, fl_l;
static int argc0, wi[MAXA], ostr, how, posix, quiet, restart, again, back;
enum { G_SHORT, G_LONG, G_ONLY };
static struct option lo1[] = {{"foo", no_argument, NULL, 300}, {"bar", required_argument, NULL, 301}, {"baz", no_argument, NULL, 302}, {"opt", optional_argument, NULL, 303}, {"flag", no_argument, NULL, 407}, {"same", no_argument, NULL, 304}, {"same1", no_argument, NULL, 304}, {"foobar", optional_argument, NULL, 305}, {"abc", no_argument, NULL, 306}, {0}};
static struct option lo2[] = {{"foobar", no_argument, NULL, 320}, {"foox", no_argument, NULL, 321}, {"pa", no_argument, NULL, 310}, {"pb", optional_argument, NULL, 310}, {"ra", no_argument, NULL, 313}, {"foo", required_argument, NULL, 322}, {"rb", no_argument, NULL, 313}, {"qa", no_argument, NULL, 311}, {"qb", no_argument, NULL, 312}, {"sam", no_argument, NULL, 314}, {"same", required_argument, NULL, 314}, {0}};
static struct option *lo; static int table2;
typedef struct { int ret, arg, off, ind, opt, longind, flag, said; } step_t;
static step_t a[64], b[64];
static char *va[MAXA + 1], *vb[MAXA + 1], *buf[MAXA];
static int na, nb;
static void o_gen(int few, int max) {
    int i;
    argc0 = mc_choose(max + 1);
    for (i = 0; i < argc0; i++) wi[i] = mc_choose(few ? FEW : NW);
    ostr = mc_choose(few ? 6 : sizeof opts / sizeof *opts);
    how = mc_choose(3); table2 = few || how == G_SHORT ? 0 : mc_choose(2); lo = table2 ? lo2 : lo1;
    posix = opts[ostr][0] == '+' || opts[ostr][0] == '-' ? 0 : mc_choose(2);
    quiet = few ? 0 : mc_choose(2);
    restart = few ? 0 : mc_choose(3); if ((restart == 2 && argc0 == 0) || (restart && !&o_initialized)) mc_skip();
    again = 0; back = 0;
}
static void gen_words(void) { o_gen(0, mc_thorough ? 3 : 2); }
static void gen_long(void) { o_gen(1, mc_thorough ? 5 : 4); if (argc0 < 3) mc_skip(); }
static void gen_again(void) { o_gen(0, mc_thorough ? 2 : 1); again = 1 + mc_choose(NW); restart = 0; quiet = 0; back = mc_choose(2); }
/* longer lines of few words, whose order must come out right */
static void gen_order(void) {
    static const int w[] = {0, 47, 3, 6, 4};
    int i;
    o_gen(1, 0); argc0 = (mc_thorough ? 5 : 4) + mc_choose(4);
    for (i = 0; i < argc0; i++) wi[i] = w[mc_choose(argc0 > 6 ? 3 : 5)];
    if (ostr > 0 && ostr != 3) mc_skip();
    if (how == G_ONLY || posix) mc_skip();
}
static void where(step_t *s, char *p) {
    int i;
    s->arg = -1; s->off = 0;
    if (p == NULL) return;
    for (i = 0; i <= argc0 + 1; i++) { char *t = buf[i]; if (t && p >= t && p <= t + strlen(t)) { s->arg = i; s->off = p - t; return; } }
    s->arg = -2;
}
static int parse_o(char **v, int n, step_t *s, int fresh, int from) {
    int k = 0, r, li;
    o_opterr = !quiet; o_optopt = 63;
    o_optind = fresh ? fresh : from; if (fresh) o_initialized = 0;
    do {
        memset(&s[k], 0, sizeof s[k]);
        li = -9; o_quiet(); fl_o = -1; lo1[4].flag = lo2[4].flag = &fl_o;
        r = how == G_SHORT ? o_getopt(n, v, opts[ostr]) : o_getopt_internal(n, v, opts[ostr], lo, &li, how == G_ONLY);
        s[k].ret = r; s[k].ind = o_optind; s[k].longind = li; s[k].flag = fl_o; s[k].said = o_messages();
        s[k].opt = r == '?' || r == ':' ? o_optopt : 0;
        if (s[k].said && s[k].opt > 0 && s[k].opt < 256) mc_check(strchr(o_message + 6, s[k].opt) != NULL, "the message \"%s\" does not name %c", o_message, s[k].opt);
        else if (s[k].said) {
            char name[64], *t = v[o_optind - 1];
            snprintf(name, sizeof name, "%.*s", (int)strcspn(t + strspn(t, "-"), "="), t + strspn(t, "-"));
            mc_check(strstr(o_message + 4, name) != NULL, "the message \"%s\" does not name %s", o_message, name);
        }
        where(&s[k], o_optarg);
        k++;
    } while (r != -1 && k < 40);
    return k;
}
static int parse_c(char **v, int n, step_t *s, int skip, int from) {
    int k = 0, r, li;
    opterr = 0; optopt = 63; optind = from; v += skip; n -= skip;
    do {
        memset(&s[k], 0, sizeof s[k]);
        li = -9; fl_l = -1; lo1[4].flag = lo2[4].flag = &fl_l;
        r = how == G_SHORT ? getopt(n, v, opts[ostr]) : how == G_LONG ? getopt_long(n, v, opts[ostr], lo, &li) : getopt_long_only(n, v, opts[ostr], lo, &li);
        s[k].ret = r; s[k].ind = optind + skip; s[k].longind = li; s[k].flag = fl_l;
        s[k].said = r == '?' && !quiet && opts[ostr][opts[ostr][0] == '+' || opts[ostr][0] == '-'] != ':';
        s[k].opt = r == '?' || r == ':' ? optopt : 0;
        where(&s[k], optarg);
        k++;
    } while (r != -1 && k < 40);
    return k;
}
static int line(char **v, int extra) {
    int i, n = 0;
    v[n++] = buf[0];
    for (i = 0; i < argc0; i++) v[n++] = buf[i + 1];
    if (extra) v[n++] = buf[argc0 + 1];
    v[n] = NULL;
    return n;
}
static void o_run(void) {
    int i, n;
    uint64_t h = 5;
    mc_alloc_reset();
    if (posix) setenv("POSIXLY_CORRECT", "1", 1); else unsetenv("POSIXLY_CORRECT");
    memset(buf, 0, sizeof buf);
    buf[0] = strdup("prog");
    for (i = 0; i < argc0; i++) buf[i + 1] = strdup(words[wi[i]]);
    if (again) buf[argc0 + 1] = strdup(words[again - 1]);
    n = line(va, !!again); line(vb, !!again);
    if (again) { parse_o(va, n, a, 0, 0); parse_c(vb, n, b, 0, 0); line(va, 0); n = line(vb, 0); }
    na = parse_o(va, n, a, restart, back); nb = parse_c(vb, n, b, restart == 2, back);
    for (i = 0; i < na && i < nb; i++) {
        mc_check(a[i].ret == b[i].ret, "call %d gives %d, expected %d", i, a[i].ret, b[i].ret);
        mc_check(a[i].ind == b[i].ind, "after call %d optind is %d, expected %d", i, a[i].ind, b[i].ind);
        mc_check(a[i].ret == -1 || a[i].ret == '?' || a[i].ret == ':' || (a[i].arg == b[i].arg && a[i].off == b[i].off), "call %d (%d) has its argument at %d+%d, expected %d+%d", i, a[i].ret, a[i].arg, a[i].off, b[i].arg, b[i].off);
        mc_check(a[i].opt == b[i].opt, "call %d (%d) reports the option %d, expected %d", i, a[i].ret, a[i].opt, b[i].opt);
        mc_check(a[i].ret == '?' || a[i].ret == ':' || a[i].longind == b[i].longind, "call %d (%d) has long option %d, expected %d", i, a[i].ret, a[i].longind, b[i].longind);
        mc_check(a[i].flag == b[i].flag, "call %d leaves the flag %d, expected %d", i, a[i].flag, b[i].flag);
        mc_check(a[i].said == b[i].said, "call %d (%d) prints %d messages (%s), expected %d", i, a[i].ret, a[i].said, o_message, b[i].said);
        mc_check(!a[i].said || !strncmp(o_message, "prog: ", 6), "the message is \"%s\"", o_message);
        h = mc_mix(mc_mix(h, a[i].ret), a[i].ind); mc_state(h);
    }
    mc_check(na == nb, "%d calls until the end, expected %d", na, nb);
    for (i = 0; i <= n; i++) mc_check(va[i] == vb[i], "afterwards argument %d is \"%s\", expected \"%s\"", i, va[i] ? va[i] : "(none)", vb[i] ? vb[i] : "(none)");
    for (i = 0; i <= argc0 + !!again; i++) { mc_check(!strcmp(buf[i], i == 0 ? "prog" : words[i <= argc0 ? wi[i - 1] : again - 1]), "argument %d is changed", i); free(buf[i]); }
    mc_outcome(h); mc_steps(na);
}
static void o_show(FILE *f) {
    int i;
    static const char *hn[] = {"getopt", "getopt_long", "getopt_long_only"};
    fprintf(f, "%s%s with \"%s\"%s%s%s%s%s:", hn[how], table2 ? " with the second table" : "", opts[ostr], posix ? ", POSIXLY_CORRECT" : "", quiet ? ", no messages" : "", restart == 2 ? ", first from the second" : restart ? ", never called before" : "", again ? ", after another line that also has " : "", again ? words[again - 1] : "");
    for (i = 0; i < argc0; i++) fprintf(f, " \"%s\"", words[wi[i]]);
    fprintf(f, "\n");
}
static void o_init(void) { mc_crash_handlers(); }
mc_suite mc_suites[] = {{"words", o_init, gen_words, o_run, o_show, 0}, {"lines", o_init, gen_long, o_run, o_show, 0}, {"longer lines", o_init, gen_order, o_run, o_show, 0}, {"after another line", o_init, gen_again, o_run, o_show, 0}, {0}};

/* Long lists of deferred functions: lengths around the powers of two up to 64K. */
enum { BE_DELETE, BE_CLEAN, BE_GUARD, BE_GUARD_THROW, BE_FREE, NBE };
static const char *be_n[] = {"unique scope, raii_delete", "the thread's, raii_deferred_clean", "guard", "guard left by an exception", "unique scope, raii_deferred_free"};
enum { BK_NONE, BK_NEST, BK_CANCEL, BK_FIRE, BK_CANCEL2, BK_FIRE2, BK_CANCEL_FIRE };
static const char *bk_n[] = {"", "which defers another", "cancelled", "fired", "cancelled, and the next", "fired, and the one before", "cancelled, and the next fired"};
static const int big_len[] = {127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1025, 4095, 4097, 32767, 32769, 65535, 65536, 65537, 65600};
static int big_n, big_end, big_at, big_kind, big_later;
static int *big_seen, big_nseen, big_max;
static int big_place(int k) { static const int p[] = {0, 1, 15, 16, 127, 128, 255, 256, 257, 32768, 65535, 65536}; return k < 12 ? p[k] : k == 12 ? big_n / 2 : k == 13 ? big_n - 2 : big_n - 1; }
static memory_t *big_scope;
static void big_plain(void *p) { if (big_nseen < big_max) big_seen[big_nseen] = (int)(intptr_t)p; big_nseen++; }
static void big_nests(void *p) { big_plain(p); raii_deferred(big_scope, big_plain, (void *)(intptr_t)-7); }
static void big_pick(int cancel) {
    big_n = big_len[mc_choose(19)];
    if (!mc_thorough && big_n > 5000 && big_n != 32769 && big_n != 65600) mc_skip();
    big_end = mc_choose(NBE);
    big_kind = cancel ? BK_CANCEL + mc_choose(5) : mc_choose(2);
    if (big_n > 5000 && (cancel || !mc_thorough ? big_end % 3 : big_end == BE_GUARD)) mc_skip();
    big_at = big_kind ? mc_choose(15) : 14;
    if (big_n > 5000 && big_at != 0 && big_at < 9 && big_at != 7) mc_skip();
    if (big_n > 5000 && big_kind >= BK_CANCEL2 && big_kind != BK_CANCEL_FIRE) mc_skip();
    big_later = cancel ? mc_choose(2) : 0;
    if (big_n > 5000 && big_later) mc_skip();
    if (big_at < 12 && big_place(big_at) > big_n - 2) mc_skip();
    if (!mc_thorough && cancel && big_n > 5000 && (big_end || big_kind == BK_CANCEL)) mc_skip();
    if (!mc_thorough && big_n > 5000 && big_at != 12 && big_at != 14 && big_place(big_at) < 32768) mc_skip();
}
static void big_fill(size_t *num) {
    int i, at = big_place(big_at), two = big_kind == BK_CANCEL2 || big_kind == BK_CANCEL_FIRE ? 1 : big_kind == BK_FIRE2 ? -1 : 0;
    for (i = 0; i < big_n; i++) {
        size_t k = raii_deferred(big_scope, big_kind == BK_NEST && i == at ? big_nests : big_plain, (void *)(intptr_t)i);
        mc_check(k != (size_t)-1, "registration %d is refused", i);
        num[i] = k;
    }
    mc_check(raii_deferred_count(big_scope) == (size_t)big_n, "%d registered, count says %zu", big_n, raii_deferred_count(big_scope));
    if (big_kind == BK_CANCEL || big_kind == BK_CANCEL2 || big_kind == BK_CANCEL_FIRE) raii_deferred_cancel(big_scope, num[at]);
    if (big_kind == BK_FIRE || big_kind == BK_FIRE2) { raii_deferred_fire(big_scope, num[at]); mc_check(big_nseen == 1 && big_seen[0] == at, "firing number %d of %d ran %d", at, big_n, big_nseen ? big_seen[0] : -1); big_nseen = 0; }
    if (two && at + two >= 0 && at + two < big_n) {
        if (big_kind == BK_CANCEL2) raii_deferred_cancel(big_scope, num[at + two]);
        else { raii_deferred_fire(big_scope, num[at + two]); mc_check(big_nseen == 1 && big_seen[0] == at + two, "firing number %d of %d ran %d", at + two, big_n, big_nseen ? big_seen[0] : -1); big_nseen = 0; }
    }
    if (big_later) raii_deferred(big_scope, big_plain, (void *)(intptr_t)big_n);
}
static void big_guard(size_t *num)
guard { big_scope = raii_local()->arena; big_fill(num); if (big_end == BE_GUARD_THROW) throw(range_error); } guarded
static void big_run(void) {
    size_t *num = malloc(sizeof *num * (big_n + 2));
    int i, k = 0, at, two;
    volatile int threw = 0;
    mc_alloc_reset();
    big_max = big_n + 4; big_seen = malloc(sizeof *big_seen * big_max); big_nseen = 0;
    raii_init();
    if (big_end == BE_GUARD || big_end == BE_GUARD_THROW) {
        try { big_guard(num); } catch (range_error) { threw = 1; } end_try;
        mc_check(threw == (big_end == BE_GUARD_THROW), "the exception is %s", threw ? "from nowhere" : "lost");
    } else {
        big_scope = big_end == BE_CLEAN ? raii_init() : unique_init();
        big_fill(num);
        mc_check(big_nseen == 0, "%d ran before the end of their scope", big_nseen);
        if (big_end == BE_CLEAN) raii_deferred_clean();
        else if (big_end == BE_DELETE) raii_delete(big_scope);
        else { raii_deferred_free(big_scope); }
    }
    at = big_place(big_at); two = at + (big_kind == BK_CANCEL2 || big_kind == BK_CANCEL_FIRE ? 1 : big_kind == BK_FIRE2 ? -1 : big_n + 9);
    if (big_later) { mc_check(big_nseen > 0 && big_seen[0] == big_n, "the last registered is not the first to run"); k = 1; }
    for (i = big_n; i-- > 0;) {
        if (big_kind >= BK_CANCEL && (i == at || i == two)) continue;
        mc_check(k < big_nseen && big_seen[k] == i, "of %d, number %d runs at place %d instead of %d", big_n, k < big_nseen ? big_seen[k] : -1, k, i);
        k++;
        if (big_kind == BK_NEST && i == at) { mc_check(k < big_nseen && big_seen[k] == -7, "what was deferred while releasing does not run next"); k++; }
    }
    mc_check(k == big_nseen, "%d run, %d were registered", big_nseen, k);
    if (big_end == BE_FREE) { big_nseen = 0; raii_delete(big_scope); mc_check(big_nseen == 0, "released twice"); }
    raii_deferred_clean();
    mc_alloc_verify("at the end");
    mc_check(mc_alloc_live() == 0, "%ld blocks are never released", mc_alloc_live());
    free(num); free(big_seen);
    mc_state(mc_mix(big_n, big_kind)); mc_outcome(mc_mix(big_end, big_at * 8 + big_kind)); mc_steps(big_n);
}
static void big_show(FILE *f) { fprintf(f, "%d deferred (%s), number %d %s%s\n", big_n, be_n[big_end], big_place(big_at), bk_n[big_kind], big_later ? ", one more afterwards" : ""); }

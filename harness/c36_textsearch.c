#include "pbt.h"
#include "ta.h"
#include "giant.h"
#include <bfdev/textsearch.h>
#include <bfdev/errno.h>
const char *const pbt_id = "C36", *const pbt_rule = "";
static const char *const algos[] = { "kmp", "bm", "sunday" };
static uint8_t up(uint8_t c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static unsigned naive(const uint8_t *t, size_t n, const uint8_t *p, size_t m, size_t from, bool ic) { for (size_t i = from; i + m <= n; i++) { size_t j = 0; while (j < m && (ic ? up(t[i + j]) == up(p[j]) : t[i + j] == p[j])) j++; if (j == m) return i; } return UINT_MAX; }
/* a text handed out in blocks: copies of exact size, so that any access outside is seen */
typedef struct { const uint8_t *t; size_t n, nblk, cut[64]; int calls; } blocks;
static unsigned next_block(bfdev_ts_context_t *tsc, bfdev_ts_state_t *tss, unsigned consumed, const void **dest)
{
    blocks *b = tss->pdata; CHECK(consumed <= b->n, "the search claims to have consumed %u of %zu bytes", consumed, b->n); CHECK(b->calls++ < 200000, "endless block requests"); if (consumed == b->n) return 0; size_t e = b->n; for (size_t i = 0; i < b->nblk; i++) if (b->cut[i] > consumed) { e = b->cut[i]; break; }
    uint8_t *c = g_alloc(e - consumed); memcpy(c, b->t + consumed, e - consumed); *dest = c; return e - consumed;
}
static void gen(uint8_t *p, size_t n, int kind) { switch (kind) { case 0: d_bytes(p, n); break; case 1: for (size_t i = 0; i < n; i++) p[i] = "ab"[d_u64(1)]; break; case 2: for (size_t i = 0; i < n; i++) p[i] = "aAbB"[d_u64(3)]; break; case 3: { static const uint8_t e[] = { 0, 1, 0x7f, 0x80, 0xe1, 0xc1, 0xfe, 0xff, 'z', 'Z', '[', '@', '{', '`' }; for (size_t i = 0; i < n; i++) p[i] = d_of(e); } break; default: for (size_t i = 0; i < n; i++) p[i] = d_chance(1, 6) ? 'b' : 'a'; } }
static int dummy_calls;
static unsigned dummy_find(bfdev_ts_context_t *c, bfdev_ts_state_t *s) { dummy_calls++; return 7; } static bfdev_ts_context_t *dummy_prep(const bfdev_alloc_t *a, const void *p, size_t n, unsigned long f) { return bfdev_zalloc(a, sizeof(bfdev_ts_context_t)); } static void dummy_destroy(bfdev_ts_context_t *c) { bfdev_free(c->alloc, c); } static const void *dummy_get(bfdev_ts_context_t *c) { return "x"; } static unsigned dummy_len(bfdev_ts_context_t *c) { return 1; }
static void registry(void)
{
    static bfdev_ts_algorithm_t a; a = (bfdev_ts_algorithm_t){ .name = d_bool() ? "mine" : algos[d_u64(2)], .find = dummy_find, .prepare = dummy_prep, .destroy = dummy_destroy, .pattern_get = dummy_get, .pattern_len = dummy_len }; bool dup = strcmp(a.name, "mine"), broken = d_chance(1, 4); if (broken) switch (d_u64(5)) { case 0: a.name = NULL; break; case 1: a.find = NULL; break; case 2: a.prepare = NULL; break; case 3: a.destroy = NULL; break; case 4: a.pattern_get = NULL; break; default: a.pattern_len = NULL; }
    TRACE("register %s%s", a.name ?: "(nameless)", broken ? " with a missing operation" : ""); CHECK(!bfdev_textsearch_create(NULL, "mine", "a", 1, 0), "an algorithm nobody registered was found"); int r = bfdev_textsearch_register(&a); CHECK_EQ(r, broken ? -BFDEV_EINVAL : dup ? -BFDEV_EALREADY : 0, "register");
    if (!r) { CHECK_EQ(bfdev_textsearch_register(&a), -BFDEV_EALREADY, "registering twice"); bfdev_ts_context_t *c = bfdev_textsearch_create(NULL, "mine", "a", 1, 0); CHECK(c != NULL, "create with a registered algorithm"); bfdev_ts_linear_t l; CHECK_EQ(bfdev_textsearch_linear(c, &l, "abc", 3), 7, "the registered algorithm's answer"); bfdev_textsearch_destroy(c); CHECK_EQ(bfdev_textsearch_unregister(&a), 0, "unregister"); }
    CHECK_EQ(bfdev_textsearch_unregister(&a), -BFDEV_ENOENT, "unregister of an absent algorithm"); CHECK(!bfdev_textsearch_create(NULL, "mine", "a", 1, 0), "an unregistered algorithm was found"); pbt_class("registration");
}
/* texts of up to 2^32-1 bytes, the pattern at a few places; a pattern of 2^30 bytes */
static void giant(void)
{
    giant_drop(); pbt_slow(); pbt_nontrivial(); int al = d_u64(2);
    if (al == 0 && d_bool()) { /* a run of equal bytes in a longer one */
        giant_alone(); pbt_class("a pattern of a gigabyte"); size_t m = (1u << 30) + d_srange(-3, 20), n = m + d_u64(100), at = d_u64(n - m); static uint8_t blk[1 << 21]; memset(blk, 'a', sizeof blk); uint8_t *p = giant_repeat(m, blk, sizeof blk, false), *t = giant_repeat(n, blk, sizeof blk, false); if (at) t[at - 1] = 'b'; bfdev_alloc_t ga; giant_alloc_init(&ga);
        bfdev_ts_context_t *c = bfdev_textsearch_create(&ga, "kmp", p, m, 0); CHECK(c != NULL, "create"); bfdev_ts_linear_t l; unsigned r = bfdev_textsearch_linear(c, &l, t, n); CHECK_EQ(r, at, "kmp: position of a pattern of %zu bytes in %zu", m, n); bfdev_textsearch_destroy(c); CHECK_EQ(giant_live, 0, "memory left after destroying the search"); giant_drop(); return; }
    size_t n = d_bool() ? UINT_MAX - d_u64(40) : d_bool() ? (1u << 31) + d_srange(-40, 40) : d_range(1u << 31, UINT_MAX), m = al ? d_range(6, 30) : d_range(1, 12), at[4]; int k = 0; uint8_t *t = giant_zero(n, 1), p[30];
    for (size_t i = 0; i < m; i++) p[i] = d_chance(1, 4) ? 0 : "ab"[d_u64(1)]; p[d_u64(m - 1)] = 'x'; for (int i = d_u64(4); i--; ) { size_t q = d_u64(2) ? n - m - (d_bool() ? 0 : d_u64(200)) : d_bool() ? (1u << 31) - d_u64(100) - m : d_u64(n - m); if (q > n - m) q = n - m; bool ok = true; for (int j = 0; j < k; j++) ok &= q > at[j] + 2 * m || q + 2 * m < at[j]; if (!ok) continue; memcpy(t + q, p, m); int j; for (j = k++; j && at[j - 1] > q; j--) at[j] = at[j - 1]; at[j] = q; }
    TRACE("%s: %zu bytes, pattern of %zu bytes", algos[al], n, m); trace_hex("pattern", p, m); for (int i = 0; i < k; i++) TRACE("occurs at %zu", at[i]); pbt_class("a text of gigabytes");
    ta_t ta; ta_init(&ta); bfdev_ts_context_t *c = bfdev_textsearch_create(&ta.alloc, algos[al], p, m, d_chance(1, 3) ? BFDEV_TS_IGCASE : 0); CHECK(c != NULL, "create"); bfdev_ts_linear_t l; unsigned r = bfdev_textsearch_linear(c, &l, t, n);
    for (int i = 0; i <= k; i++) { CHECK_EQ(r, i < k ? at[i] : UINT_MAX, "%s: occurrence %d in %zu bytes", algos[al], i, n); if (i < k) r = bfdev_textsearch_next(c, &l.tss); }
    bfdev_textsearch_destroy(c); ta_check_empty(&ta, "destroying the search"); giant_drop();
}
void pbt_case(void)
{
    GIANT_CASE(giant);
    if (d_chance(1, 40)) { registry(); }
    int kind = d_u64(4); size_t n = d_chance(1, 15) ? d_pow(2000) : d_chance(1, 6) ? d_u64(6) : d_u64(90), m = d_chance(1, 10) ? d_range(1, 60) : d_chance(1, 150) ? (n = d_u64(1500), d_bool() ? d_range(120, 135) : d_range(250, 300)) : d_range(1, 9); int huge = d_chance(1, 8000) ? d_range(1, 3) : 0; if (huge == 1) n = d_range(60000, 150000); else if (huge == 2) m = d_range(250, 2000), n = d_u64(8000); else if (huge == 3) m = d_range(65000, 70000), n = m + d_u64(70000); if (huge) pbt_class("very long");
    uint8_t *t = g_alloc(n), *p = g_alloc(m); if (huge == 3) { uint64_t s = d_u64(UINT64_MAX); for (size_t i = 0; i < n; i++) t[i] = pbt_mix(s + i) >> 20; kind = 0; } else gen(t, n, kind); bool ic = d_bool();
    int pk = d_u64(3); if (pk == 0 || n < m) gen(p, m, kind); else { size_t at = d_chance(1, 3) ? n - m : d_u64(n - m); memcpy(p, t + at, m); if (pk == 2) { size_t k = d_u64(m - 1); p[k] ^= d_bool() ? 32 : 1 << d_u64(7); } if (pk == 3 && m > 1) { size_t h = d_range(1, m - 1); memcpy(p + h, p, m - h < h ? m - h : h); } }
    if (d_chance(1, 5) && n >= m) for (int k = d_range(1, 4); k--; ) { size_t at = d_u64(n - m); memcpy(t + at, p, m); if (d_bool()) t[at + d_u64(m - 1)] ^= 32; }
    if (m > 100 && huge != 3 && d_chance(2, 3)) { /* long and periodic, breaking off late */ size_t u = d_range(1, 3); for (size_t i = 0; i < m; i++) p[i] = "abC"[i % u]; for (size_t i = 0; i < n; i++) t[i] = "abC"[i % u]; if (d_chance(3, 4)) { size_t k = m - 1 - d_u64(d_bool() ? 0 : m / 2); p[k] = 'x'; for (int z = d_range(1, 3); z-- && n; ) t[d_chance(1, 3) ? d_u64(n - 1) : n > m ? k + d_u64(n - m) : n - 1] = 'x'; } pbt_class("long and periodic"); }
    uint8_t *keep = g_alloc(n); memcpy(keep, t, n);
    TRACE("text of %zu bytes, pattern of %zu bytes%s", n, m, ic ? ", case ignored" : ""); trace_hex("text", t, n); trace_hex("pattern", p, m);
    unsigned want = naive(t, n, p, m, 0, ic); ta_t ta; ta_init(&ta);
    for (int a = 0; a < 3; a++) {
        if (huge == 3 && a == 1) continue; /* its table takes quadratic time to make */
        uint8_t *pc = g_alloc(m); memcpy(pc, p, m); bfdev_ts_context_t *c = bfdev_textsearch_create(&ta.alloc, algos[a], pc, m, ic ? BFDEV_TS_IGCASE : 0); CHECK(c != NULL, "create %s", algos[a]); CHECK(!memcmp(pc, p, m), "%s modified the caller's pattern", algos[a]); memset(pc, 0x5a, m);
        CHECK_EQ(bfdev_textsearch_pattern_len(c), m, "%s pattern length", algos[a]); const uint8_t *pg = textsearch_pattern_get(c); for (size_t i = 0; i < m; i++) CHECK((ic ? up(pg[i]) == up(p[i]) : pg[i] == p[i]), "%s pattern byte %zu", algos[a], i);
        for (int round = d_range(1, 2); round--; ) {
            bfdev_ts_linear_t l; memset(&l, 0xa5, sizeof l); TRACE("%s: search the whole text", algos[a]); unsigned r = bfdev_textsearch_linear(c, &l, t, n); CHECK(r == want, "%s returned %u, the first occurrence is at %u", algos[a], r, want); unsigned w = want;
            for (int k = 0; k < 8 && w != UINT_MAX; k++) { w = naive(t, n, p, m, w + m, ic); TRACE("%s: continue", algos[a]); r = bfdev_textsearch_next(c, &l.tss); CHECK(r == w, "%s continued to %u, the next occurrence is at %u", algos[a], r, w); pbt_class("continued"); }
            if (d_bool()) { w = want; r = bfdev_textsearch_find(c, &l.tss); CHECK(r == w, "%s found %u when searching again, the first occurrence is at %u", algos[a], r, w); }
        }
        /* the text in several blocks; bm and sunday support one block only, see KNOWN_FINDINGS.txt */
        if (d_chance(1, 3)) { blocks b = { .t = t, .n = n }; if (a == 0) for (b.nblk = d_u64(20); b.nblk && n < 2; b.nblk--); if (n < 2 || a) b.nblk = 0; size_t at = 0; for (size_t i = 0; i < b.nblk; i++) { at += d_range(1, 1 + n / (b.nblk + 1)); if (at >= n) { b.nblk = i; break; } b.cut[i] = at; }
            bfdev_ts_state_t s = { .offset = 12345, .pdata = &b }; c->next_block = next_block; TRACE("%s: search %zu blocks", algos[a], b.nblk + 1); unsigned r = bfdev_textsearch_find(c, &s), w = want; CHECK(r == w, "%s returned %u for the text in %zu blocks, the first occurrence is at %u", algos[a], r, b.nblk + 1, w); for (int k = 0; k < 6 && w != UINT_MAX; k++) { w = naive(t, n, p, m, w + m, ic); r = bfdev_textsearch_next(c, &s); CHECK(r == w, "%s continued to %u in blocks, the next occurrence is at %u", algos[a], r, w); } if (b.nblk) pbt_class("several blocks"); }
        CHECK(!memcmp(t, keep, n), "%s modified the text", algos[a]); bfdev_textsearch_destroy(c); if (d_chance(1, 10)) { ta.fail_all = true; CHECK(!bfdev_textsearch_create(&ta.alloc, algos[a], p, m, 0), "create without memory"); ta.fail_all = false; }
    }
    ta_check_empty(&ta, "destroying the searches"); if (want != UINT_MAX && want && m > 1) pbt_nontrivial(); if (want == UINT_MAX) pbt_class("absent"); if (ic) pbt_class("case ignored");
}
void pbt_probe(const char *name)
{
    int a = !strcmp(name, "bm-blocks") ? 1 : 2; blocks b = { .t = (const uint8_t *)"aaaabcaa", .n = 8, .nblk = 1, .cut = { 4 } }; bfdev_ts_context_t *c = bfdev_textsearch_create(NULL, algos[a], "bc", 2, 0); bfdev_ts_state_t s = { .pdata = &b }; c->next_block = next_block; unsigned r = bfdev_textsearch_find(c, &s); CHECK(r == 4, "got %u", r);
}

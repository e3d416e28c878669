#include "pbt.h"
#include "ta.h"
#include "giant.h"
#include <bfdev/argv.h>
const char *const pbt_id = "C38", *const pbt_rule = "";
static bool blank(uint8_t c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; }
/* a line of a gigabyte: 2^29 words of one letter */
static void giant(void)
{
    giant_drop(); giant_alone(); pbt_slow(); pbt_class("half a billion words"); pbt_nontrivial(); static char blk[1 << 21]; for (size_t i = 0; i < sizeof blk; i++) blk[i] = i & 1 ? ' ' : 'a' + i / 2 % 26;
    size_t cnt = (1u << 29) + d_srange(-3, 20), n = cnt * 2 - d_u64(1); char *s = giant_repeat(n + 1, blk, sizeof blk, false); s[n] = 0; TRACE("a line of %zu bytes, %zu words", n, cnt); bfdev_alloc_t ga; giant_alloc_init(&ga); unsigned got = 0; char **v = bfdev_argv_split(&ga, s, &got); if (!v) { pbt_class("no memory"); giant_drop(); return; }
    CHECK_EQ(got, cnt, "reported word count"); for (size_t i = 0; i < cnt; i++) CHECK(v[i] && v[i][0] == (char)('a' + i % (1 << 20) % 26) && !v[i][1], "word %zu of %zu", i, cnt); CHECK(!v[cnt], "no terminating null entry after %zu words", cnt);
    bfdev_argv_destroy(&ga, v); CHECK_EQ(giant_live, 0, "memory left after destroying the vector"); giant_drop();
}
void pbt_case(void)
{
    GIANT_CASE(giant);
    size_t n = d_chance(1, 10000) ? d_far(60000, 150000) : d_chance(1, 20) ? d_pow(1500) : d_chance(1, 10) ? 0 : d_u64(60); char *s = g_alloc(n + 1), *keep = g_alloc(n + 1); int kind = d_u64(3); for (size_t i = 0; i < n; i++) { int k = d_u64(9); s[i] = kind == 3 ? " \t\r\n"[d_u64(3)] : k < (kind == 0 ? 2 : kind == 1 ? 5 : 1) ? " \t\r\n"[d_u64(3)] : k == 9 ? "\v\f\x7f\x80\xa0\xff\"'\\"[d_u64(8)] : d_bool() ? "ab"[d_u64(1)] : d_range(1, 255); } s[n] = 0; memcpy(keep, s, n + 1); trace_hex("line", s, n);
    struct { size_t at, len; } *w = g_alloc((n + 1) * sizeof *w); unsigned cnt = 0; for (size_t i = 0; i < n; ) { if (blank(s[i])) { i++; continue; } size_t b = i; while (i < n && !blank(s[i])) i++; w[cnt].at = b; w[cnt++].len = i - b; }
    ta_t ta; ta_init(&ta); unsigned got = 12345; bool ask = d_chance(4, 5); CHECK_EQ(bfdev_argv_count(s), cnt, "word count"); char **v = bfdev_argv_split(&ta.alloc, s, ask ? &got : NULL); CHECK(v != NULL, "split failed"); if (ask) CHECK_EQ(got, cnt, "reported word count");
    CHECK(!memcmp(s, keep, n + 1), "the line was modified"); memset(s, 'x', n); /* the words must not refer to the line */
    for (unsigned i = 0; i < cnt; i++) { CHECK(v[i] != NULL, "word %u of %u is missing", i, cnt); CHECK(strlen(v[i]) == w[i].len && !memcmp(v[i], keep + w[i].at, w[i].len), "word %u is \"%s\", expected \"%.*s\"", i, v[i], (int)w[i].len, keep + w[i].at); } CHECK(!v[cnt], "no terminating null entry after %u words", cnt);
    /* the words are independent, writable copies */ for (unsigned i = 0; i < cnt; i++) memset(v[i], '0' + i % 10, w[i].len); for (unsigned i = 0; i < cnt; i++) for (size_t k = 0; k < w[i].len; k++) CHECK(v[i][k] == '0' + i % 10, "words %u overlaps another", i);
    bfdev_argv_destroy(&ta.alloc, v); ta_check_empty(&ta, "destroying the vector"); ta.fail_all = true; memcpy(s, keep, n + 1); CHECK(!bfdev_argv_split(&ta.alloc, s, &got), "split without memory"); ta_check_empty(&ta, "the failed split");
    if (n > 10000) pbt_class("very long"); if (cnt > 1) pbt_nontrivial(); if (!cnt) pbt_class("no word");
}

#include "pbt.h"
#include "giant.h"
#include "ta.h"
#include <bfdev/levenshtein.h>
const char *const pbt_id = "C37", *const pbt_rule = "";
/* D(i,j): cheapest way to turn the suffix x[i..] into y[j..]; transpositions are not edited further */
static uint64_t ref(const char *x, size_t n, const char *y, size_t m, uint64_t s, uint64_t w, uint64_t a, uint64_t d)
{
    uint64_t *D = g_alloc((n + 3) * (m + 3) * 8);
#define AT(i, j) D[(i) * (m + 3) + (j)]
    for (size_t i = n + 1; i--; ) for (size_t j = m + 1; j--; ) { uint64_t b = i == n && j == m ? 0 : UINT64_MAX / 2;
        if (i < n && AT(i + 1, j) + d < b) b = AT(i + 1, j) + d; if (j < m && AT(i, j + 1) + a < b) b = AT(i, j + 1) + a; if (i < n && j < m && AT(i + 1, j + 1) + (x[i] == y[j] ? 0 : s) < b) b = AT(i + 1, j + 1) + (x[i] == y[j] ? 0 : s);
        if (i + 1 < n && j + 1 < m && x[i] == y[j + 1] && x[i + 1] == y[j] && AT(i + 2, j + 2) + w < b) b = AT(i + 2, j + 2) + w; AT(i, j) = b; }
    return AT(0, 0);
}
/* one string of more than 4 GiB, whose additions or deletions cost nothing or little */
static void giant(void)
{
    giant_drop(); pbt_slow(); pbt_nontrivial(); pbt_class("a string of gigabytes"); bool over = d_bool(); size_t m = over ? (1ull << 32) + d_range(1, 5000) : UINT_MAX - d_range(10, 5000), at = d_u64(2) ? m - 1 - d_u64(5000) : d_u64(m - 1); bool hit = d_bool(); char *y = giant_zero(m, 1), x[1] = { 'x' }; if (hit) y[at] = 'x'; unsigned s = d_u64(6), w = d_u64(6), a = over ? 0 : 1, d = d_u64(6); ta_t ta; ta_init(&ta);
    TRACE("from one character to %zu, contained %d; costs %u %u %u %u", m, hit, s, w, a, d); uint64_t keep = (hit ? 0 : s) + (uint64_t)a * (m - 1), drop = d + (uint64_t)a * m, want = keep < drop ? keep : drop; CHECK_EQ(bfdev_levenshtein_len(&ta.alloc, x, y, 1, m, s, w, a, d), want, "distance from one character to %zu", m); ta_check_empty(&ta, "the computation"); giant_drop();
}
void pbt_case(void)
{
    GIANT_CASE(giant);
    size_t n = d_chance(1, 30) ? d_pow(150) : d_u64(12), m = d_chance(1, 30) ? d_pow(150) : d_u64(12); bool huge = d_chance(1, 20000); if (huge) { if (d_bool()) n = d_range(250, 700), m = d_range(250, 700); else if (d_bool()) n = d_range(65000, 66500), m = d_u64(4); else m = d_range(65000, 66500), n = d_u64(4); pbt_class("very long"); } int kind = d_u64(3); bool text = d_bool(); char *x = g_alloc(n + text), *y; for (size_t i = 0; i < n; i++) x[i] = kind == 0 ? d_range(1, 255) : "abc"[d_u64(kind == 1 ? 1 : 2)];
    if (d_bool() || huge && n > 5000) { y = g_alloc(m + text); for (size_t i = 0; i < m; i++) y[i] = kind == 0 ? d_range(1, 255) : "abc"[d_u64(kind == 1 ? 1 : 2)]; }
    else { /* an edited copy */ static char b[1000]; size_t l = n; memcpy(b, x, n); for (int k = d_u64(5); k--; ) switch (d_u64(3)) { case 0: if (l) { size_t p = d_u64(l - 1); memmove(b + p, b + p + 1, l - p - 1); l--; } break; case 1: { size_t p = d_u64(l); memmove(b + p + 1, b + p, l - p); b[p] = 'd'; l++; } break; case 2: if (l) b[d_u64(l - 1)] = 'e'; break; default: if (l > 1) { size_t p = d_u64(l - 2); char t = b[p]; b[p] = b[p + 1]; b[p + 1] = t; } } m = l; y = g_alloc(m + text); memcpy(y, b, m); }
    if (text) x[n] = y[m] = 0; unsigned c[4]; bool unit = d_chance(1, 3); for (int i = 0; i < 4; i++) c[i] = unit ? 1 : !huge && d_chance(1, 6) ? d_u64(1000000) : d_u64(6);
    TRACE("costs: substitution %u, transposition %u, addition %u, deletion %u%s", c[0], c[1], c[2], c[3], text ? ", terminated strings" : ""); trace_hex("from", x, n); trace_hex("to", y, m);
    ta_t ta; ta_init(&ta); ta.fill = d_u64(255); uint64_t want = ref(x, n, y, m, c[0], c[1], c[2], c[3]); unsigned r = text ? bfdev_levenshtein(&ta.alloc, x, y, c[0], c[1], c[2], c[3]) : bfdev_levenshtein_len(&ta.alloc, x, y, n, m, c[0], c[1], c[2], c[3]); CHECK_EQ(r, want, "distance"); ta_check_empty(&ta, "the computation");
    unsigned back = bfdev_levenshtein_len(&ta.alloc, y, x, m, n, c[0], c[1], c[3], c[2]); CHECK_EQ(back, want, "distance of the exchanged strings with exchanged costs"); unsigned self = n > 5000 ? 0 : bfdev_levenshtein_len(&ta.alloc, x, x, n, n, c[0], c[1], c[2], c[3]); CHECK_EQ(self, 0, "distance of a string to itself");
    if (unit) { CHECK(r <= (n > m ? n : m), "unit distance %u exceeds the longer length", r); CHECK(!r == (n == m && !memcmp(x, y, n)), "unit distance %u", r); pbt_class("unit costs"); }
    if (d_chance(1, 10) && n && m) { ta.fail_all = true; CHECK_EQ(bfdev_levenshtein_len(&ta.alloc, x, y, n, m, 1, 1, 1, 1), UINT_MAX, "distance without memory"); ta.fail_all = false; } ta_check_empty(&ta, "the computations");
    if (n > 1 && m > 1 && want) pbt_nontrivial(); if (!n || !m) pbt_class("an empty string");
}

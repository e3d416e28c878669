#include "pbt.h"
#include "giant.h"
#include <bfdev/ascii85.h>
const char *const pbt_id = "C31", *const pbt_rule = "";
/* data and texts of more than 4 GiB: the same group but for the last part; the output goes over and over the same pages, of which the end is compared */
static uint8_t blk[5 << 18];
static void giant(void)
{
    giant_drop(); pbt_slow(); pbt_nontrivial(); pbt_class("data of gigabytes"); bool dec = d_bool(); enum { G = 100 }; size_t g = ((1ull << 32) + d_u64(100)) / (dec ? 5 : 4) + 1 + G, n = g * 4 - (dec ? 0 : d_u64(3)), tail = n - (g - G) * 4; uint8_t data[G * 4] = { 0 }, want[G * 5]; for (size_t i = 0; i < tail; i++) data[i] = d_u64(255); size_t wl = 0;
    for (int k = 0; k < G; k++) { uint8_t *p = data + k * 4; uint32_t v = (uint32_t)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; if (!v) { want[wl++] = 'z'; continue; } for (int i = 4; i >= 0; i--, v /= 85) want[wl + i] = '!' + v % 85; wl += 5; }
    size_t el = (g - G) * 5 + wl, got = 12345; TRACE("%s of %zu bytes, %zu characters", dec ? "decoding" : "encoding", n, el);
    if (!dec) { memset(blk, 1, sizeof blk); uint8_t *in = giant_repeat(n, blk, sizeof blk, false), *out = giant_repeat(bfdev_ascii85_encode_length(n), blk, sizeof blk, true); memcpy(in + n - tail, data, tail); bfdev_ascii85_encode(out, in, &got, n); CHECK_EQ(got, el, "reported length of the encoding of %zu bytes", n); for (size_t i = 0; i < wl; i++) CHECK_EQ(out[el - wl + i], want[i], "character %zu of %zu", el - wl + i, el); }
    else { memset(blk, '"', sizeof blk); uint8_t *in = giant_repeat(el, blk, sizeof blk, false), *out = giant_repeat(n, blk, sizeof blk, true); memcpy(in + el - wl, want, wl); int r = bfdev_ascii85_decode(out, in, &got, el); CHECK_EQ(r, 0, "decoding %zu characters", el); CHECK_EQ(got, n, "reported length of %zu characters decoded", el); for (size_t i = 0; i < tail; i++) CHECK_EQ(out[n - tail + i], data[i], "byte %zu of %zu decoded", n - tail + i, n);
        r = bfdev_ascii85_decode(out, in + d_range(1, 4), &got, el - 5); CHECK(r == 0, "decoding shifted groups"); r = bfdev_ascii85_decode(out, in, &got, el - wl - d_range(1, 4)); CHECK(r < 0, "a cut group at the end of %zu characters was accepted", el - wl); }
    giant_drop();
}
void pbt_case(void)
{
    GIANT_CASE(giant);
    if (d_chance(1, 50)) { /* the advertised lengths for data far larger than memory */
        size_t n = d_edge(60), x; if (n >= 1ul << 60) n /= 2; if (d_bool()) n = n / 20 * 20 + d_u64(2); x = (n + 3) / 4 * 5; TRACE("ascii85 lengths for %zu bytes", n);
        CHECK(bfdev_ascii85_encode_length(n) >= x, "%zu characters advertised for %zu bytes", bfdev_ascii85_encode_length(n), n); CHECK(bfdev_ascii85_decode_length(x) >= n, "%zu bytes advertised for %zu characters", bfdev_ascii85_decode_length(x), x); pbt_class("lengths"); if (n >> 31) pbt_nontrivial(); return; }
    size_t n = d_chance(1, 10000) ? d_far(40000, 150000) : d_chance(1, 20) ? d_pow(3000) : d_u64(40); uint8_t *in = g_alloc(n); d_bytes(in, n); for (int k = d_u64(4); k-- && n; ) { size_t p = d_u64(n - 1) / 4 * 4, l = d_range(1, 5); for (size_t i = p; i < n && i < p + 4 * l; i++) in[i] = d_bool() ? 0 : d_chance(1, 2) ? 0 : 0xff; } TRACE("encode %zu bytes", n); trace_hex("input", in, n);
    char *w = g_alloc((n / 4 + 1) * 5); size_t wl = 0, groups = (n + 3) / 4; bool z = false; uint8_t *padded = g_alloc(groups * 4); memset(padded, 0, groups * 4); memcpy(padded, in, n);
    for (size_t g = 0; g < groups; g++) { uint8_t *p = padded + g * 4; uint32_t v = (uint32_t)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; if (!v) { w[wl++] = 'z'; z = true; } else { for (int i = 4; i >= 0; i--, v /= 85) w[wl + i] = '!' + v % 85; wl += 5; } }
    size_t el = bfdev_ascii85_encode_length(n), got = 12345; CHECK(el >= wl, "advertised maximum %zu for %zu characters", el, wl); char *e = g_alloc(el); bfdev_ascii85_encode(e, in, &got, n); CHECK(got == wl, "%zu bytes encode to %zu characters, expected %zu", n, got, wl); for (size_t i = 0; i < wl; i++) CHECK(e[i] == w[i], "character %zu is '%c', expected '%c'", i, e[i], w[i]);
    char *t = g_alloc(wl); memcpy(t, w, wl); size_t dl = bfdev_ascii85_decode_length(wl), nz = 0; for (size_t i = 0; i < wl; i++) nz += t[i] == 'z'; /* short forms: see KNOWN_FINDINGS.txt */ CHECK(dl >= (nz ? (groups - nz) * 4 : groups * 4), "the text of %zu characters decodes to %zu bytes but %zu are advertised", wl, groups * 4, dl); if (nz) dl = groups * 4; uint8_t *d = g_alloc(dl); got = 12345; int r = bfdev_ascii85_decode(d, t, &got, wl); CHECK(r == 0, "decoding the text of %zu bytes returned %d", n, r); CHECK_EQ(got, groups * 4, "decoded length"); CHECK(!memcmp(d, padded, groups * 4), "decoding does not return the zero-padded original");
    /* damaged texts: illegal characters or cut groups are refused */
    if (wl) { char *m = g_alloc(wl); memcpy(m, w, wl); size_t cut = wl; bool bad = false; int how = d_u64(2);
        if (how == 0) { size_t p = d_u64(wl - 1); uint8_t c; do c = d_bool() ? d_u64(255) : " vwxy{~\x7f\x80\xff"[d_u64(9)]; while ((c >= '!' && c <= 'u') || c == 'z'); m[p] = c; bad = true; }
        else if (how == 1) { size_t p = 0, g[1024], ng = 0; while (p < wl && ng < 1024) { if (w[p] == 'z') p++; else { g[ng++] = p; p += 5; } } if (ng) { p = g[d_u64(ng - 1)]; cut = p + d_range(1, 4); bad = true; } }
        else { size_t p = 0, g[1024], ng = 0; while (p < wl && ng < 1024) { if (w[p] == 'z') p++; else { g[ng++] = p; p += 5; } } if (ng) { m[g[d_u64(ng - 1)] + d_range(1, 4)] = 'z'; bad = true; } }
        if (bad) { char *c = g_alloc(cut); memcpy(c, m, cut); d = g_alloc(cut * 4); TRACE("decode damaged text, kind %d, %zu characters", how, cut); r = bfdev_ascii85_decode(d, c, &got, cut); CHECK(r < 0, "damaged text (kind %d) of %zu characters was accepted", how, cut); pbt_class(how == 0 ? "illegal character" : how == 1 ? "cut group" : "short form inside a group"); } }
    if (n > 10000) pbt_class("very long"); if (n > 4) pbt_nontrivial(); if (z) pbt_class("all-zero group"); if (n % 4) pbt_class("partial group");
}
/* known finding: the advertised decode length ignores that one short-form character stands for four bytes */
void pbt_probe(const char *name) { CHECK(bfdev_ascii85_decode_length(5) >= 20, "five short forms decode to 20 bytes, %zu advertised", bfdev_ascii85_decode_length(5)); }

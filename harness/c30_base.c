#include "pbt.h"
#include "giant.h"
#include <bfdev/base32.h>
#include <bfdev/base64.h>
const char *const pbt_id = "C30", *const pbt_rule = "";
static const char *A32 = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567", *A64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
/* reference: bit stream, most significant first, zero filled, padded to whole groups */
static size_t ref(const uint8_t *d, size_t n, char *o, int bits, int group, const char *al) { size_t k = 0; for (size_t b = 0; b < n * 8; b += bits) { unsigned v = 0; for (int i = 0; i < bits; i++) { size_t p = b + i; v = v << 1 | (p < n * 8 ? d[p / 8] >> (7 - p % 8) & 1 : 0); } o[k++] = al[v]; } while (k % group) o[k++] = '='; return k; }
/* data and texts of more than 4 GiB, repeating but for the last part; the output goes over and over the same pages, of which the end is compared */
static uint8_t blk[1 << 21];
static void giant(void)
{
    giant_drop(); pbt_slow(); pbt_nontrivial(); pbt_class("data of gigabytes"); bool b64 = d_bool(), dec = d_bool(); int bits = b64 ? 6 : 5, group = b64 ? 4 : 8, bytes = b64 ? 3 : 5; const char *al = b64 ? A64 : A32; enum { T = 4096 }; static char want[2 * T];
    size_t g = ((1ull << 32) + d_u64(100)) / (dec ? group : bytes) + 1 + d_u64(3), n = g * bytes - (dec ? 0 : d_u64(bytes - 1)), el = g * group, tg = T / 8, tail = n - (g - tg) * bytes; /* the last tg groups hold tail bytes */
    uint8_t data[T]; for (size_t i = 0; i < tail; i++) data[i] = d_u64(255); size_t wl = ref(data, tail, want, bits, group, al); TRACE("base%d %s of %zu bytes", b64 ? 64 : 32, dec ? "decoding" : "encoding", n);
    if (!dec) { CHECK_EQ(b64 ? bfdev_base64_encode_length(n) : bfdev_base32_encode_length(n), el, "advertised encoded length of %zu bytes", n); uint8_t *in = giant_zero(n, 1); memcpy(in + n - tail, data, tail); char *out = giant_repeat(el, blk, sizeof blk, true); b64 ? bfdev_base64_encode(out, in, n) : bfdev_base32_encode(out, in, n); for (size_t i = 0; i < wl; i++) CHECK_EQ(out[el - wl + i], want[i], "character %zu of %zu of the encoding of %zu bytes", el - wl + i, el, n); }
    else { memset(blk, 'A', sizeof blk); char *in = giant_repeat(el, blk, sizeof blk, false); memcpy(in + el - wl, want, wl); memset(blk, 0x5a, sizeof blk); uint8_t *out = giant_repeat(b64 ? bfdev_base64_decode_length(el) : bfdev_base32_decode_length(el), blk, sizeof blk, true); int r = b64 ? bfdev_base64_decode(out, in, el) : bfdev_base32_decode(out, in, el); CHECK_EQ(r, 0, "decoding %zu characters", el); for (size_t i = 0; i < tail; i++) CHECK_EQ(out[n - tail + i], data[i], "byte %zu of %zu decoded", n - tail + i, n);
        in[el - 1 - d_u64(T / 2)] = '!'; r = b64 ? bfdev_base64_decode(out, in, el) : bfdev_base32_decode(out, in, el); CHECK_EQ(r, -BFDEV_EINVAL, "decoding %zu characters with an illegal one near the end", el); }
    giant_drop();
}
void pbt_case(void)
{
    GIANT_CASE(giant);
    if (d_chance(1, 50)) { /* the advertised lengths for data far larger than memory */
        size_t n = d_edge(60), g, x; bool w = d_bool(); if (d_bool()) n = n / 15 * 15 + d_u64(2); g = (n + (w ? 2 : 4)) / (w ? 3 : 5); x = g * (w ? 4 : 8); TRACE("base%d lengths for %zu bytes", w ? 64 : 32, n); if (n >= 1ul << 60) return;
        CHECK_EQ(w ? bfdev_base64_encode_length(n) : bfdev_base32_encode_length(n), x, "advertised encoded length of %zu bytes", n); CHECK((w ? bfdev_base64_decode_length(x) : bfdev_base32_decode_length(x)) >= n, "advertised decoded length of %zu characters is %zu, for %zu bytes", x, w ? bfdev_base64_decode_length(x) : bfdev_base32_decode_length(x), n); pbt_class("lengths"); if (n >> 31) pbt_nontrivial(); return; }
    bool b64 = d_bool(); int bits = b64 ? 6 : 5, group = b64 ? 4 : 8; const char *al = b64 ? A64 : A32; size_t n = d_chance(1, 10000) ? d_far(40000, 150000) : d_chance(1, 20) ? d_pow(4000) : d_u64(70); uint8_t *in = g_alloc(n); d_bytes(in, n); char *want = g_alloc(n * 2 + 16); size_t wl = ref(in, n, want, bits, group, al);
    size_t el = b64 ? bfdev_base64_encode_length(n) : bfdev_base32_encode_length(n); CHECK_EQ(el, wl, "advertised encoded length"); char *e = g_alloc(el); memset(e, '?', el); TRACE("base%d of %zu bytes", b64 ? 64 : 32, n); trace_hex("input", in, n); if (b64) bfdev_base64_encode(e, in, n); else bfdev_base32_encode(e, in, n);
    for (size_t i = 0; i < el; i++) CHECK(e[i] == want[i], "base%d of %zu bytes: character %zu is '%c', expected '%c'", b64 ? 64 : 32, n, i, e[i], want[i]);
    size_t dl = b64 ? bfdev_base64_decode_length(el) : bfdev_base32_decode_length(el); CHECK(dl >= n, "advertised decoded length %zu for %zu bytes", dl, n); uint8_t *d = g_alloc(dl); memset(d, d_u64(255), dl); int r = b64 ? bfdev_base64_decode(d, e, el) : bfdev_base32_decode(d, e, el); CHECK(r == 0, "decoding the encoded text returned %d", r); CHECK(!memcmp(d, in, n), "decoding does not return the original %zu bytes", n);
    /* any text over the alphabet: leading whole bytes, no access beyond the advertised length */
    size_t tl = d_chance(1, 10000) ? d_far(60000, 150000) : d_chance(1, 20) ? d_pow(3000) : d_u64(70); char *t = g_alloc(tl); for (size_t i = 0; i < tl; i++) t[i] = al[d_u64(b64 ? 63 : 31)]; long bad = -1, pad = -1; if (tl && d_chance(1, 2)) { bad = d_u64(tl - 1); uint8_t c; do c = d_bool() ? d_u64(255) : "=-_*0189 az@[`{/+\n"[d_u64(18)]; while ((c && strchr(al, c)) || c == '='); t[bad] = c; } if (tl && d_chance(1, 4)) { pad = d_u64(tl - 1); t[pad] = '='; if (pad == bad) bad = -1; }
    dl = b64 ? bfdev_base64_decode_length(tl) : bfdev_base32_decode_length(tl); d = g_alloc(dl); memset(d, 0x5a, dl); r = b64 ? bfdev_base64_decode(d, t, tl) : bfdev_base32_decode(d, t, tl); TRACE("decode %zu characters, illegal at %ld, padding at %ld: %d", tl, bad, pad, r);
    if (bad >= 0 && (pad < 0 || bad < pad)) { CHECK(r == -BFDEV_EINVAL, "text with illegal character %#x at %ld was decoded (%d)", (uint8_t)t[bad], bad, r); pbt_class("illegal text"); }
    else { CHECK(r == 0, "legal text was refused (%d)", r); size_t m = (pad < 0 ? tl : pad); for (size_t i = 0; i < m * bits / 8; i++) { unsigned v = 0; for (int j = 0; j < 8; j++) { size_t p = i * 8 + j; v = v << 1 | ((strchr(al, t[p / bits]) - al) >> (bits - 1 - p % bits) & 1); } CHECK(d[i] == v, "byte %zu decodes to %#x, expected %#x", i, d[i], v); } }
    if (n > 10000) pbt_class("very long"); if (n > 3) pbt_nontrivial(); if (n % (b64 ? 3 : 5)) pbt_class("padded");
}

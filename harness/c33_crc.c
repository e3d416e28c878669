#include "pbt.h"
#include "giant.h"
#include <bfdev/crc.h>
#include <bfdev/crypto/crc7-inline.h>
#include <bfdev/crypto/crc8-inline.h>
#include <bfdev/crypto/crc16-inline.h>
#include <bfdev/crypto/crc32-inline.h>
#include <bfdev/crypto/crc64-inline.h>
#include <bfdev/crypto/crc4-inline.h>
const char *const pbt_id = "C33", *const pbt_rule = "";
#define A8 (const void *p, size_t n, uint64_t c)
#define W(f) static uint64_t w_##f A8 { return f(p, n, c); }
W(bfdev_crc7) W(bfdev_crc8) W(bfdev_crc16) W(bfdev_crc32) W(bfdev_crc64) W(bfdev_crc_ccitt) W(bfdev_crc_itut) W(bfdev_crc_t10dif) W(bfdev_crc_rocksoft)
W(bfdev_crc7_inline) W(bfdev_crc8_inline) W(bfdev_crc16_inline) W(bfdev_crc32_inline) W(bfdev_crc64_inline)
/* the polynomials, most significant bit first unless reflected */
static const struct { const char *name; int width; uint64_t poly; bool refl; uint64_t (*f)(const void *, size_t, uint64_t), (*g)(const void *, size_t, uint64_t); } algo[] = {
    { "crc7", 8, 0x12, 0, w_bfdev_crc7, w_bfdev_crc7_inline }, { "crc8", 8, 0x07, 0, w_bfdev_crc8, w_bfdev_crc8_inline },
    { "crc16", 16, 0xa001, 1, w_bfdev_crc16, w_bfdev_crc16_inline }, { "ccitt", 16, 0x8408, 1, w_bfdev_crc_ccitt },
    { "itut", 16, 0x1021, 0, w_bfdev_crc_itut }, { "t10dif", 16, 0x8bb7, 0, w_bfdev_crc_t10dif },
    { "crc32", 32, 0xedb88320, 1, w_bfdev_crc32, w_bfdev_crc32_inline }, { "crc64", 64, 0x42f0e1eba9ea3693, 0, w_bfdev_crc64, w_bfdev_crc64_inline },
    { "rocksoft", 64, 0x9a6c9329ac4bc9b5, 1, w_bfdev_crc_rocksoft },
};
static uint64_t ref(int a, const uint8_t *p, size_t n, uint64_t c)
{
    int w = algo[a].width; uint64_t top = 1ULL << (w - 1), mask = top | (top - 1);
    for (; n--; p++) if (algo[a].refl) { c ^= *p; for (int i = 0; i < 8; i++) c = c >> 1 ^ (c & 1 ? algo[a].poly : 0); }
        else { c ^= (uint64_t)*p << (w - 8); for (int i = 0; i < 8; i++) c = (c << 1 ^ (c & top ? algo[a].poly : 0)) & mask; }
    return c;
}
/* the four-bit checksum: x^4+x+1 with the polynomial 0x7's nibble, most significant bit first */
static uint8_t ref4(const uint8_t *p, size_t bits, uint8_t c)
{
    for (; bits; p++) { size_t k = bits < 8 ? bits : 8; uint8_t v = k < 8 ? *p & ((1 << k) - 1) : *p; bits -= k; for (int h = 4; h >= 0; h -= 4) { c = (c ^ v >> h) & 15; for (int i = 0; i < 4; i++) c = (c << 1 ^ (c & 8 ? 7 : 0)) & 15; } }
    return c;
}
/* more than 4 GiB of zero bytes and a few others: feeding one zero byte is an affine map of the state, squared again and again */
typedef struct { uint64_t m[64], c; } affine;
static uint64_t apply(const affine *f, uint64_t s) { uint64_t r = f->c; for (; s; s &= s - 1) r ^= f->m[__builtin_ctzll(s)]; return r; }
static uint64_t zeros(int a, size_t n, uint64_t s)
{
    affine f; f.c = ref(a, (const uint8_t *)"", 1, 0); for (int i = 0; i < algo[a].width; i++) f.m[i] = ref(a, (const uint8_t *)"", 1, 1ULL << i) ^ f.c;
    for (; n; n >>= 1) { if (n & 1) s = apply(&f, s); affine g; g.c = apply(&f, f.c); for (int i = 0; i < algo[a].width; i++) g.m[i] = apply(&f, f.m[i]) ^ f.c; f = g; } return s;
}
static void giant(void)
{
    giant_drop(); pbt_slow(); pbt_nontrivial(); int a = d_u64(8); size_t n = (1ull << 32) + d_range(1, 5000), at[3], tail = 0; uint8_t *p = giant_zero(n, 1); uint64_t init = d_u64(UINT64_MAX) & (algo[a].width < 64 ? (1ULL << algo[a].width) - 1 : UINT64_MAX), want = init; size_t pos = 0; int k = d_u64(3);
    for (int i = 0; i < k; i++) { at[i] = i == k - 1 && d_bool() ? n - 1 - d_u64(300) : pos + d_u64((n - pos - 1) / 2); if (at[i] < pos) at[i] = pos; p[at[i]] = d_range(1, 255); want = zeros(a, at[i] - pos, want); want = ref(a, p + at[i], 1, want); pos = at[i] + 1; } want = zeros(a, n - pos, want);
    bool in = algo[a].g && d_bool(); TRACE("%s%s of %zu bytes", in ? "inline " : "", algo[a].name, n); CHECK_EQ((in ? algo[a].g : algo[a].f)(p, n, init), want, "%s%s of %zu bytes", in ? "inline " : "", algo[a].name, n); pbt_class("data of gigabytes"); giant_drop();
}
void pbt_case(void)
{
    GIANT_CASE(giant);
    size_t off = d_u64(15), n = d_chance(1, 30000) ? d_far(60000, 150000) : d_chance(1, 30) ? d_pow(3000) : d_chance(1, 4) ? d_u64(9) : d_u64(80); uint8_t *raw = g_alloc(off + n), *p = raw + off; d_bytes(p, n); int fillk = d_u64(5); if (fillk == 1) memset(p, 0, n); if (fillk == 2) memset(p, 0xff, n);
    uint8_t *keep = g_alloc(n); memcpy(keep, p, n); int a = d_u64(9); uint64_t init = d_bool() ? d_edge64() : d_u64(UINT64_MAX);
    if (a == 9) {
        size_t bits = n ? d_chance(2, 3) ? n * 8 - d_u64(7) : n * 8 : 0; init &= d_bool() ? 15 : 255; TRACE("crc4 of %zu bits at offset %zu, initial %#llx", bits, off, (unsigned long long)init); trace_hex("data", p, n); uint8_t want = bits ? ref4(p, bits, init) : init;
        CHECK_EQ(bfdev_crc4(p, bits, init), want, "crc4"); CHECK_EQ(bfdev_crc4_inline(p, bits, init), want, "inline crc4"); size_t k = d_u64(bits / 8); uint8_t part = bfdev_crc4(p, k * 8, init); CHECK_EQ(bfdev_crc4(p + k, bits - k * 8, part), want, "crc4 continued from its first %zu bytes", k);
    } else {
        int w = algo[a].width; if (w < 64) init &= (1ULL << w) - 1; uint64_t want = ref(a, p, n, init); TRACE("%s of %zu bytes at offset %zu, initial %#llx", algo[a].name, n, off, (unsigned long long)init); trace_hex("data", p, n);
        CHECK_EQ(algo[a].f(p, n, init), want, "%s of %zu bytes", algo[a].name, n); if (algo[a].g) CHECK_EQ(algo[a].g(p, n, init), want, "inline %s of %zu bytes", algo[a].name, n);
        uint64_t c = init; size_t at = 0; int pieces = d_range(1, 6); for (int i = 0; i < pieces; i++) { size_t k = i == pieces - 1 ? n - at : d_u64(n - at); c = algo[a].f(p + at, k, c); at += k; CHECK_EQ(c, ref(a, p, at, init), "%s continued to %zu of %zu bytes", algo[a].name, at, n); }
        pbt_class(algo[a].name);
    }
    CHECK(!memcmp(keep, p, n), "the data was modified"); if (n > 10000) pbt_class("very long"); if (n >= 8) pbt_nontrivial();
}

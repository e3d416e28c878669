#include "pbt.h"
#include "giant.h"
#include <bfdev/jhash.h>
#include <bfdev/hash.h>
#include <bfdev/stringhash.h>
#include <bfdev/prandom.h>
const char *const pbt_id = "C35", *const pbt_rule = "";
static uint32_t rol(uint32_t x, int n) { return x << n | x >> (32 - n); }
/* Bob Jenkins' lookup3 hashlittle, byte by byte */
static uint32_t lookup3(const uint8_t *k, size_t n, uint32_t init)
{
    uint32_t v[3]; v[0] = v[1] = v[2] = 0xdeadbeef + (uint32_t)n + init;
    static const int mr[6] = { 4, 6, 8, 16, 19, 4 }, fr[7] = { 14, 11, 25, 16, 4, 14, 24 };
    for (;;) {
        size_t m = n < 12 ? n : 12; bool last = n <= 12; if (!n) return v[2];
        for (size_t i = 0; i < m; i++) v[i / 4] += (uint32_t)k[i] << (8 * (i % 4)); k += m; n -= m;
        if (last) { for (int i = 0, x = 2; i < 7; i++) { int y = (x + 2) % 3; v[x] ^= v[y]; v[x] -= rol(v[y], fr[i]); x = (x + 1) % 3; } return v[2]; }
        for (int i = 0; i < 6; i++) { int a = i % 3, b = (a + 1) % 3, c = (a + 2) % 3; v[a] -= v[c]; v[a] ^= rol(v[c], mr[i]); v[c] += v[b]; }
    }
}
static uint32_t pjw(const uint8_t *s) { uint32_t h = 0; for (; *s; s++) { h = (h << 4) + *s; uint32_t g = h & 0xf0000000; h = (h ^ g >> 24) & ~g; } return h; }
/* L'Ecuyer's LFSR113 */
typedef struct { uint32_t z[4]; } lfsr;
static uint32_t lnext(lfsr *s) { static const int q[4] = { 6, 2, 13, 3 }, sh[4] = { 13, 27, 21, 12 }, k[4] = { 18, 2, 7, 13 }; static const uint32_t m[4] = { ~1u, ~7u, ~15u, ~127u }; uint32_t r = 0; for (int i = 0; i < 4; i++) { uint32_t b = (s->z[i] << q[i] ^ s->z[i]) >> sh[i]; s->z[i] = (s->z[i] & m[i]) << k[i] ^ b; r ^= s->z[i]; } return r; }
static void lseed(lfsr *s, uint64_t seed) { uint32_t v = (uint32_t)(seed >> 32) ^ (uint32_t)(seed << 10) ^ (uint32_t)seed; static const uint32_t min[4] = { 2, 8, 16, 128 }; for (int i = 0; i < 4; i++) s->z[i] = v < min[i] ? v + min[i] : v; for (int i = 0; i < 10; i++) lnext(s); }
/* keys and strings of more than 4 GiB */
static void giant(void)
{
    giant_drop(); pbt_slow(); pbt_nontrivial(); size_t n = (1ull << 32) + d_range(1, 5000); static uint8_t blk[1 << 21]; for (size_t i = 0; i < sizeof blk; i++) blk[i] = pbt_mix(i) | 1; uint8_t *p = giant_repeat(n + 1, blk, sizeof blk, false); for (int i = d_u64(3); i--; ) p[d_bool() ? n - 1 - d_u64(300) : d_u64(n - 1)] = d_range(1, 255); p[n] = 0; pbt_class("a key of gigabytes");
    if (d_chance(2, 3)) { size_t off = d_u64(3); uint32_t init = d_edge(32); TRACE("jhash of %zu bytes", n - off); CHECK_EQ(bfdev_jhash(p + off, n - off, init), lookup3(p + off, n - off, init), "jhash of %zu bytes at alignment %zu", n - off, off); } else { TRACE("string hash of %zu bytes", n); CHECK_EQ(bfdev_pjwhash((char *)p), pjw(p), "string hash of %zu characters", n); } giant_drop();
}
void pbt_case(void)
{
    GIANT_CASE(giant);
    switch (d_u64(3)) {
        case 0: {
            size_t off = d_u64(7), n = d_chance(1, 30000) ? d_far(60000, 140000) : d_chance(1, 10) ? d_pow(600) : d_u64(40); uint8_t *p = (uint8_t *)g_alloc(off + n) + off, *keep = g_alloc(n); d_bytes(p, n); memcpy(keep, p, n); uint32_t init = d_edge(32); TRACE("jhash of %zu bytes at alignment %zu, initial %#x", n, off, init); trace_hex("key", p, n);
            CHECK_EQ(bfdev_jhash(p, n, init), lookup3(p, n, init), "jhash of %zu bytes at alignment %zu", n, off); CHECK(!memcmp(p, keep, n), "the key was modified"); if (n > 10000) pbt_class("very long"); if (n > 12) pbt_nontrivial(); pbt_class("jhash"); } break;
        case 1: {
            size_t n = d_chance(1, 30000) ? d_far(60000, 140000) : d_chance(1, 10) ? d_pow(300) : d_u64(24); uint8_t *s = g_alloc(n + 1); d_bytes(s, n); int how = d_u64(3); for (size_t i = 0; i < n; i++) { if (how == 1) s[i] = s[i] % 95 + 32; else if (how == 2) s[i] = d_chance(3, 4) ? 15 : s[i]; if (!s[i]) s[i] = 1; } s[n] = 0; TRACE("string hash of %zu characters", n); trace_hex("string", s, n);
            CHECK_EQ(bfdev_pjwhash((char *)s), pjw(s), "string hash of %zu characters", n); if (n > 7) pbt_nontrivial(); pbt_class("string hash"); } break;
        case 2: {
            uint64_t v = d_edge64(); uint32_t w = d_edge(32); unsigned b = d_range(1, 64), c = d_range(1, 32); TRACE("multiplicative hashes of %#llx and %#x", (unsigned long long)v, w);
            CHECK_EQ(bfdev_hashv64(v), v * 0x61c8864680b583ebULL, "64-bit hash value"); CHECK_EQ(bfdev_hash64(v, b), v * 0x61c8864680b583ebULL >> (64 - b), "64-bit hash to %u bits", b); CHECK_EQ(bfdev_hashv32(w), (uint32_t)(w * 0x61c88647u), "32-bit hash value"); CHECK_EQ(bfdev_hash32(w, c), (uint32_t)(w * 0x61c88647u) >> (32 - c), "32-bit hash to %u bits", c); CHECK_EQ(bfdev_hashvl(v), v * 0x61c8864680b583ebULL, "word hash"); CHECK_EQ(bfdev_hashl(v, b), v * 0x61c8864680b583ebULL >> (64 - b), "word hash to %u bits", b); pbt_nontrivial(); pbt_class("multiplicative hash"); } break;
        default: {
            bfdev_prandom_t *st[2] = { g_alloc(sizeof **st), g_alloc(sizeof **st) }; lfsr m[2]; int steps = d_range(2, 40), made = 0;
            for (int i = 0; i < 2; i++) { memset(st[i], 0xa5, sizeof **st); if (d_bool()) { uint64_t s = d_bool() ? d_edge64() : d_u64(300); TRACE("state %d: seed %#llx", i, (unsigned long long)s); bfdev_prandom_seed(st[i], s); lseed(&m[i], s); } else { TRACE("state %d: default", i); bfdev_prandom_init(st[i]); for (int j = 0; j < 4; j++) m[i].z[j] = 0x408c3c09; } }
            while (steps--) { int i = d_bool(); switch (d_u64(6)) {
                case 0: { uint64_t h = lnext(&m[i]), l = lnext(&m[i]); TRACE("state %d: u64", i); CHECK_EQ(bfdev_prandom_u64(st[i]), h << 32 | l, "64-bit value"); made += 2; } break;
                case 1: { uint64_t h = lnext(&m[i]), l = lnext(&m[i]); TRACE("state %d: long", i); CHECK_EQ(bfdev_prandom_long(st[i]), h << 32 | l, "long value"); made += 2; } break;
                case 2: if (d_chance(1, 5)) { uint64_t s = d_edge64(); TRACE("state %d: reseed", i); bfdev_prandom_seed(st[i], s); lseed(&m[i], s); } break;
                default: TRACE("state %d: value", i); CHECK_EQ(bfdev_prandom_value(st[i]), lnext(&m[i]), "value %d", made); made++; } }
            if (made > 4) pbt_nontrivial(); pbt_class("generator"); } break;
    }
}

#include "pbt.h"
#include <bfdev/md5.h>
#include <bfdev/sha1.h>
#include <bfdev/sha2.h>
const char *const pbt_id = "C32", *const pbt_rule = "";
static uint32_t rol(uint32_t x, int n) { return n ? x << n | x >> (32 - n) : x; }
static uint32_t ror(uint32_t x, int n) { return rol(x, 32 - n); }
/* reference digests straight from RFC 1321 and FIPS 180-4 over the whole padded message */
static size_t big_n; static const uint8_t *big_p; /* a very long message: big_p repeated every megabyte */
static const uint8_t *blk(const uint8_t *m, size_t o, size_t t) { static uint8_t b[64]; if (!big_p) return m + o; if (o + 64 <= big_n) return big_p + (o & 0xfffff); (void)t; memcpy(b, m + (o - big_n / 64 * 64), 64); return b; }
static uint8_t *pad(const uint8_t *p, size_t n, bool le, size_t *total) { size_t t = (n + 9 + 63) / 64 * 64; size_t all = t; if (big_p) t -= n / 64 * 64; uint8_t *m = g_alloc(t); memset(m, 0, t); if (big_p) p += n / 64 * 64 & 0xfffff, memcpy(m, p, n & 63), m[n & 63] = 0x80; else memcpy(m, p, n), m[n] = 0x80; uint64_t b = (uint64_t)n * 8; for (int i = 0; i < 8; i++) m[t - 8 + i] = le ? b >> (8 * i) : b >> (56 - 8 * i); *total = all; return m; }
static void md5(const uint8_t *p, size_t n, uint8_t *out)
{
    static uint32_t K[64]; if (!K[0]) for (int i = 0; i < 64; i++) K[i] = (uint32_t)(__builtin_fabs(__builtin_sin(i + 1)) * 4294967296.0);
    static const int S[4][4] = { { 7, 12, 17, 22 }, { 5, 9, 14, 20 }, { 4, 11, 16, 23 }, { 6, 10, 15, 21 } }; uint32_t h[4] = { 0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476 }; size_t t; uint8_t *m = pad(p, n, true, &t);
    for (size_t o = 0; o < t; o += 64) { const uint8_t *q = blk(m, o, t); uint32_t w[16], a = h[0], b = h[1], c = h[2], d = h[3]; for (int i = 0; i < 16; i++) w[i] = q[i * 4] | q[i * 4 + 1] << 8 | q[i * 4 + 2] << 16 | (uint32_t)q[i * 4 + 3] << 24;
        for (int i = 0; i < 64; i++) { uint32_t f; int g; switch (i / 16) { case 0: f = (b & c) | (~b & d); g = i; break; case 1: f = (d & b) | (~d & c); g = (5 * i + 1) % 16; break; case 2: f = b ^ c ^ d; g = (3 * i + 5) % 16; break; default: f = c ^ (b | ~d); g = 7 * i % 16; } f += a + K[i] + w[g]; a = d; d = c; c = b; b += rol(f, S[i / 16][i % 4]); }
        h[0] += a; h[1] += b; h[2] += c; h[3] += d; }
    for (int i = 0; i < 16; i++) out[i] = h[i / 4] >> (8 * (i % 4));
}
static void sha1(const uint8_t *p, size_t n, uint8_t *out)
{
    uint32_t h[5] = { 0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0 }; size_t t; uint8_t *m = pad(p, n, false, &t);
    for (size_t o = 0; o < t; o += 64) { const uint8_t *q = blk(m, o, t); uint32_t w[80], a = h[0], b = h[1], c = h[2], d = h[3], e = h[4]; for (int i = 0; i < 16; i++) w[i] = (uint32_t)q[i * 4] << 24 | q[i * 4 + 1] << 16 | q[i * 4 + 2] << 8 | q[i * 4 + 3]; for (int i = 16; i < 80; i++) w[i] = rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
        for (int i = 0; i < 80; i++) { uint32_t f, k; if (i < 20) f = (b & c) | (~b & d), k = 0x5a827999; else if (i < 40) f = b ^ c ^ d, k = 0x6ed9eba1; else if (i < 60) f = (b & c) | (b & d) | (c & d), k = 0x8f1bbcdc; else f = b ^ c ^ d, k = 0xca62c1d6; uint32_t x = rol(a, 5) + f + e + k + w[i]; e = d; d = c; c = rol(b, 30); b = a; a = x; }
        h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e; }
    for (int i = 0; i < 20; i++) out[i] = h[i / 4] >> (24 - 8 * (i % 4));
}
/* the SHA-2 constants: fractional parts of square and cube roots of the first primes, by integer search */
static uint64_t isqrt_frac(int p, int bits) { /* floor(sqrt(p) * 2^bits) */ unsigned __int128 lo = 0, hi = (unsigned __int128)32 << bits; while (hi - lo > 1) { unsigned __int128 mid = (lo + hi) / 2; if (mid * mid <= ((unsigned __int128)p << (2 * bits))) lo = mid; else hi = mid; } return (uint64_t)lo; }
static uint64_t icbrt_frac32(int p) { /* floor(cbrt(p) * 2^32) */ unsigned __int128 lo = 0, hi = (unsigned __int128)8 << 32; while (hi - lo > 1) { unsigned __int128 mid = (lo + hi) / 2; /* mid < 2^35, cube < 2^105 */ if (mid * mid * mid <= ((unsigned __int128)p << 96)) lo = mid; else hi = mid; } return (uint64_t)lo; }
static void sha2(const uint8_t *p, size_t n, uint8_t *out, bool small)
{
    static uint32_t K[64], H256[8]; if (!K[0]) for (int p = 2, i = 0; i < 64; p++) { bool prime = true; for (int q = 2; q * q <= p; q++) if (p % q == 0) prime = false; if (!prime) continue; K[i] = icbrt_frac32(p); if (i < 8) H256[i] = isqrt_frac(p, 32); i++; }
    static const uint32_t h224[8] = { 0xc1059ed8, 0x367cd507, 0x3070dd17, 0xf70e5939, 0xffc00b31, 0x68581511, 0x64f98fa7, 0xbefa4fa4 }; uint32_t h[8]; memcpy(h, small ? h224 : H256, 32); size_t t; uint8_t *m = pad(p, n, false, &t);
    for (size_t o = 0; o < t; o += 64) { const uint8_t *q = blk(m, o, t); uint32_t w[64], v[8]; memcpy(v, h, 32); for (int i = 0; i < 16; i++) w[i] = (uint32_t)q[i * 4] << 24 | q[i * 4 + 1] << 16 | q[i * 4 + 2] << 8 | q[i * 4 + 3]; for (int i = 16; i < 64; i++) w[i] = (ror(w[i - 2], 17) ^ ror(w[i - 2], 19) ^ w[i - 2] >> 10) + w[i - 7] + (ror(w[i - 15], 7) ^ ror(w[i - 15], 18) ^ w[i - 15] >> 3) + w[i - 16];
        for (int i = 0; i < 64; i++) { uint32_t t1 = v[7] + (ror(v[4], 6) ^ ror(v[4], 11) ^ ror(v[4], 25)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + K[i] + w[i], t2 = (ror(v[0], 2) ^ ror(v[0], 13) ^ ror(v[0], 22)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2])); memmove(v + 1, v, 28); v[4] += t1; v[0] = t1 + t2; }
        for (int i = 0; i < 8; i++) h[i] += v[i]; }
    for (int i = 0; i < (small ? 28 : 32); i++) out[i] = h[i / 4] >> (24 - 8 * (i % 4));
}
static const char *const name[] = { "MD5", "SHA-1", "SHA-224", "SHA-256" };
static const size_t dlen[] = { 16, 20, 28, 32 };
static size_t length(void) { switch (d_u64(9)) { case 0: return d_pow(2000); case 1: return d_chance(1, 40) ? d_far(60000, 140000) : d_pow(20000); case 2: case 3: case 4: { size_t b = d_range(0, 5) * 64; int64_t o = d_srange(-10, 10); return (int64_t)b + o < 0 ? 0 : b + o; } default: return d_u64(200); } }
#if !defined(__SANITIZE_ADDRESS__) && !defined(__clang__)
#define BIG (1u << 20)
/* messages whose length in bits exceeds 32 bits: the reference runs over the same repeated megabyte, block by block */
static void lengthy(void)
{
    static uint8_t *buf; if (!buf) { buf = malloc(9 * BIG); for (unsigned i = 0; i < 9 * BIG; i++) buf[i] = i < BIG ? pbt_mix(i) : buf[i - BIG]; }
    int a = d_u64(3); size_t n = (d_chance(1, 12) ? 1ull << 32 : 1ull << 29) + d_srange(-70, 200), at = 0, step = d_bool() ? 8 * BIG - d_u64(200) : d_bool() ? BIG : BIG - d_u64(200); uint8_t got[32], want[32]; union { bfdev_md5_ctx_t m; bfdev_sha1_ctx_t s; bfdev_sha2_ctx_t t; } c;
    TRACE("%s of %zu bytes in pieces of %zu", name[a], n, step); pbt_slow(); pbt_class("very long message"); pbt_nontrivial();
    switch (a) { case 0: bfdev_md5_init(&c.m); break; case 1: bfdev_sha1_init(&c.s); break; case 2: bfdev_sha224_init(&c.t); break; default: bfdev_sha256_init(&c.t); }
    while (at < n) { size_t o = at % BIG, k = step; if (k > n - at) k = n - at; switch (a) { case 0: bfdev_md5_update(&c.m, buf + o, k); break; case 1: bfdev_sha1_update(&c.s, buf + o, k); break; default: bfdev_sha2_update(&c.t, buf + o, k); } at += k; }
    switch (a) { case 0: bfdev_md5_finish(&c.m, got); break; case 1: bfdev_sha1_finish(&c.s, got); break; case 2: bfdev_sha224_finish(&c.t, got); break; default: bfdev_sha256_finish(&c.t, got); }
    big_n = n; big_p = buf; switch (a) { case 0: md5(buf, n, want); break; case 1: sha1(buf, n, want); break; default: sha2(buf, n, want, a == 2); } big_p = NULL;
    for (size_t b = 0; b < dlen[a]; b++) CHECK_EQ(got[b], want[b], "byte %zu of the %s digest of %zu bytes", b, name[a], n);
}
#endif
void pbt_case(void)
{
#if !defined(__SANITIZE_ADDRESS__) && !defined(__clang__)
    static int done; if (d_chance(1, 4000) && done < 4) { done++; lengthy(); return; }
#endif
    enum { N = 3 }; struct { int a; void *ctx; uint8_t *msg; size_t n, at; int pieces; } c[N]; int used = d_range(1, N); size_t total = 0;
    for (int i = 0; i < used; i++) { c[i].a = d_u64(3); size_t sz = c[i].a == 0 ? sizeof(bfdev_md5_ctx_t) : c[i].a == 1 ? sizeof(bfdev_sha1_ctx_t) : sizeof(bfdev_sha2_ctx_t); c[i].ctx = g_alloc(sz); memset(c[i].ctx, d_u64(255), sz); c[i].n = length(); c[i].msg = g_alloc(c[i].n); if (c[i].n > 400) { uint64_t s = d_u64(UINT64_MAX); for (size_t j = 0; j < c[i].n; j++) { s = pbt_mix(s + j); c[i].msg[j] = s; } } else d_bytes(c[i].msg, c[i].n); c[i].at = 0; c[i].pieces = d_range(0, 8); TRACE("context %d: %s of %zu bytes", i, name[c[i].a], c[i].n); if (c[i].n < 300) trace_hex("message", c[i].msg, c[i].n); total += c[i].n;
        switch (c[i].a) { case 0: bfdev_md5_init(c[i].ctx); break; case 1: bfdev_sha1_init(c[i].ctx); break; case 2: bfdev_sha224_init(c[i].ctx); break; default: bfdev_sha256_init(c[i].ctx); } }
    bool fin[N] = { 0 }; int left = used;
    while (left) {
        int i = d_u64(used - 1); if (fin[i]) { for (i = 0; fin[i]; i++); } size_t rest = c[i].n - c[i].at, k;
        if (c[i].pieces-- > 0) { k = d_chance(1, 6) ? 0 : d_chance(1, 3) ? d_u64(70) : d_chance(1, 3) ? 64 - c[i].at % 64 : d_u64(rest); if (k > rest) k = rest; } else k = rest;
        if (k || c[i].pieces >= 0) { size_t off = d_u64(7); char *piece = (char *)g_alloc(off + k) + off; memcpy(piece, c[i].msg + c[i].at, k); TRACE("context %d: update with %zu bytes at alignment %zu", i, k, off);
            switch (c[i].a) { case 0: bfdev_md5_update(c[i].ctx, piece, k); break; case 1: bfdev_sha1_update(c[i].ctx, piece, k); break; default: bfdev_sha2_update(c[i].ctx, piece, k); } CHECK(!memcmp(piece, c[i].msg + c[i].at, k), "update modified its data"); c[i].at += k; if (!k) pbt_class("empty update"); }
        if (c[i].pieces < 0 && c[i].at == c[i].n) {
            size_t off = d_u64(7), D = dlen[c[i].a]; uint8_t *out = (uint8_t *)g_alloc(off + D + 8) + off, want[32]; memset(out, 0xa5, D + 8); TRACE("context %d: finish", i);
            switch (c[i].a) { case 0: bfdev_md5_finish(c[i].ctx, out); md5(c[i].msg, c[i].n, want); break; case 1: bfdev_sha1_finish(c[i].ctx, out); sha1(c[i].msg, c[i].n, want); break; case 2: bfdev_sha224_finish(c[i].ctx, out); sha2(c[i].msg, c[i].n, want, true); break; default: bfdev_sha256_finish(c[i].ctx, out); sha2(c[i].msg, c[i].n, want, false); }
            for (size_t b = 0; b < D; b++) CHECK_EQ(out[b], want[b], "byte %zu of the %s digest of %zu bytes", b, name[c[i].a], c[i].n); for (int b = 0; b < 8; b++) CHECK_EQ(out[D + b], 0xa5, "finish of %s wrote past the digest", name[c[i].a]);
            fin[i] = true; left--; pbt_class(name[c[i].a]);
        }
    }
    if (total >= 64) pbt_nontrivial(); if (used > 1) pbt_class("interleaved contexts");
}

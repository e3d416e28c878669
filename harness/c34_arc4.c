#include "pbt.h"
#include "giant.h"
#include <bfdev/arc4.h>
const char *const pbt_id = "C34", *const pbt_rule = "";
static const size_t klens[] = { 1, 2, 5, 16, 128, 255, 256, 257, 300, 1000 };
typedef struct { uint8_t s[256]; int i, j; } rc4;
static void rkey(rc4 *c, const uint8_t *k, size_t n) { for (int i = 0; i < 256; i++) c->s[i] = i; for (int i = 0, j = 0; i < 256; i++) { j = (j + c->s[i] + k[i % n]) % 256; uint8_t t = c->s[i]; c->s[i] = c->s[j]; c->s[j] = t; } c->i = c->j = 0; }
static uint8_t rnext(rc4 *c) { c->i = (c->i + 1) % 256; c->j = (c->j + c->s[c->i]) % 256; uint8_t t = c->s[c->i]; c->s[c->i] = c->s[c->j]; c->s[c->j] = t; return c->s[(c->s[c->i] + c->s[c->j]) % 256]; }
/* a stream of more than 4 GiB in one piece; the output goes over and over the same page */
static void giant(void)
{
    giant_drop(); pbt_slow(); pbt_nontrivial(); pbt_class("a piece of gigabytes"); static uint8_t blk[1 << 21]; size_t n = (1ull << 32) + d_range(1, 5000), T = 3000, kl = d_range(1, 40); uint8_t key[40]; d_bytes(key, kl); uint8_t *in = giant_zero(n, 1), *out = giant_repeat(n, blk, sizeof blk, true); bfdev_arc4_ctx_t c; rc4 m; TRACE("%zu bytes", n); bfdev_arc4_setkey(&c, key, kl); rkey(&m, key, kl);
    for (int i = d_u64(20); i--; ) in[n - 1 - d_u64(T)] = d_u64(255); bfdev_arc4_trans(&c, out, in, n); uint8_t s[256]; memcpy(s, m.s, 256); uint8_t i = 0, j = 0; for (size_t k = n - T; k--; ) { uint8_t t = s[++i]; j += t; s[i] = s[j]; s[j] = t; } memcpy(m.s, s, 256); m.i = i; m.j = j; for (size_t k = n - T; k < n; k++) CHECK_EQ(out[k], in[k] ^ rnext(&m), "byte %zu of %zu", k, n);
    uint8_t more[8] = { 0 }; bfdev_arc4_trans(&c, more, more, 8); for (int k = 0; k < 8; k++) CHECK_EQ(more[k], rnext(&m), "byte %d after a piece of %zu bytes", k, n); giant_drop();
}
void pbt_case(void)
{
    GIANT_CASE(giant);
    enum { N = 2 }; bfdev_arc4_ctx_t *ctx[N]; rc4 m[N]; size_t total = 0, done[N] = { 0 }; struct { uint8_t *key; size_t klen; } k[N];
    for (int c = 0; c < N; c++) { ctx[c] = g_alloc(sizeof **ctx); size_t kl = d_chance(1, 4) ? d_of(klens) : d_range(1, 40); uint8_t *key = g_alloc(kl); d_bytes(key, kl); if (d_chance(1, 8)) memset(key, d_bool() ? 0xff : 0, kl); TRACE("key %d of %zu bytes", c, kl); trace_hex("key", key, kl); k[c].key = g_alloc(kl); memcpy(k[c].key, key, kl); k[c].klen = kl; bfdev_arc4_setkey(ctx[c], key, kl); rkey(&m[c], key, kl); CHECK(!memcmp(key, k[c].key, kl), "the key was modified"); memset(key, 0xa5, kl); }
    int steps = d_range(1, 20);
    while (steps--) {
        int c = d_u64(N - 1); if (d_chance(1, 15)) { TRACE("rekey %d", c); bfdev_arc4_setkey(ctx[c], k[c].key, k[c].klen); rkey(&m[c], k[c].key, k[c].klen); done[c] = 0; pbt_class("rekeyed"); continue; }
        size_t n = d_chance(1, 30000) ? d_far(60000, 140000) : d_chance(1, 5) ? 0 : d_chance(1, 8) ? d_pow(1500) : d_u64(40); size_t so = d_u64(3), dst = d_u64(3); uint8_t *in = (uint8_t *)g_alloc(so + n) + so, *want = g_alloc(n), *out; d_bytes(in, n); if (d_chance(1, 6)) memset(in, 0, n); for (size_t i = 0; i < n; i++) want[i] = in[i] ^ rnext(&m[c]); bool place = d_bool(); uint8_t *keep = g_alloc(n); memcpy(keep, in, n);
        if (place) out = in; else out = (uint8_t *)g_alloc(dst + n) + dst; TRACE("context %d: %zu bytes from position %zu%s", c, n, done[c], place ? " in place" : ""); bfdev_arc4_trans(ctx[c], out, in, n); done[c] += n; total += n;
        for (size_t i = 0; i < n; i++) CHECK_EQ(out[i], want[i], "byte %zu of the piece at position %zu", i, done[c] - n); if (!place) CHECK(!memcmp(in, keep, n), "the input was modified");
        if (d_chance(1, 4)) { /* the same key restores */ bfdev_arc4_ctx_t *b = g_alloc(sizeof *b); bfdev_arc4_setkey(b, k[c].key, k[c].klen); uint8_t *skip = g_alloc(done[c] - n); memset(skip, 0, done[c] - n); bfdev_arc4_trans(b, skip, skip, done[c] - n); bfdev_arc4_trans(b, out, out, n); CHECK(!memcmp(out, keep, n), "transforming twice from the same state does not restore the data"); }
        if (place) pbt_class("in place"); if (n > 10000) pbt_class("very long"); if (!n) pbt_class("empty piece");
    }
    if (total > 8) pbt_nontrivial(); if (total > 256) pbt_class("more than one state cycle");
}

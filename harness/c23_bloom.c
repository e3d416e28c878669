#include "pbt.h"
#include "ta.h"
#include <bfdev/bloom.h>
#include <bfdev/hashtbl.h>
const char *const pbt_id = "C23", *const pbt_rule = "";
static long tag; static unsigned funcs, hm; static uint64_t salt; static ta_t ta;
static unsigned h_(unsigned f, unsigned long k) { switch (hm) { case 0: return pbt_mix(k * 31 + f + salt); case 1: return k; case 2: return k + f; case 3: return ~0u - k * (f + 1); case 4: return k % 3 + f * 0x10000000u; default: return 0; } }
static unsigned calls; static unsigned hash(unsigned f, const void *k, void *p) { CHECK(p == &tag, "the hash function received a wrong pointer"); CHECK(f < funcs, "hash function %u of %u was requested", f, funcs); calls++; return h_(f, *(const unsigned long *)k); }
void pbt_case(void)
{
    ta_init(&ta); funcs = d_chance(1, 20) ? 0 : d_chance(1, 400) ? d_range(200, 700) : d_range(1, 12); hm = d_u64(6); salt = d_u64(1000); unsigned cap = d_chance(1, 10) ? d_u64(1) ? -(unsigned)d_u64(64) : 0 : d_bool() ? d_range(1, 130) : d_chance(1, 5000) ? d_range(60000, 600000) : d_range(1, 5000);
    if (d_chance(1, 15)) { ta_fail_in(&ta, 1); bfdev_bloom_t *x = bfdev_bloom_create(&ta.alloc, cap, hash, funcs, &tag); if (ta.failed) CHECK(!x, "creation without memory"); else if (x) bfdev_bloom_destroy(x); ta_ok(&ta); ta_check_empty(&ta, "failed creation"); pbt_class("failed creation"); }
    if (cap > 0x80000000u && cap < -63u) cap = 100; bfdev_bloom_t *B = bfdev_bloom_create(&ta.alloc, cap, hash, funcs, &tag);
    if (cap == 0 || cap > 0x80000000u) { if (B && B->capacity < 64) CHECK(0, "a filter of requested capacity %u has %u bits", cap, B->capacity); if (B) bfdev_bloom_destroy(B); ta_check_empty(&ta, "refused filter"); pbt_class("impossible capacity"); return; } CHECK(B, "creation failed"); CHECK(B->capacity >= cap, "capacity %u of requested %u", B->capacity, cap);
    if (cap > 10000) pbt_class("very large"); bool *set = g_alloc(B->capacity); memset(set, 0, B->capacity); unsigned long added[200]; int na = 0, flushed = 0, hits = 0; unsigned long range = d_bool() ? d_range(1, 30) : 100000; unsigned long words = B->capacity / (8 * sizeof(long));
    for (int k = d_range(1, 80); k--; ) {
        unsigned long *key = g_alloc(sizeof *key); *key = na && d_chance(1, 3) ? added[d_u64(na - 1)] : d_u64(range); bool all = true; for (unsigned f = 0; f < funcs; f++) { unsigned long ix = bfdev_hashtbl_index(B->capacity, h_(f, *key)); CHECK(ix < B->capacity, "position %lu of %u", ix, B->capacity); all &= set[ix]; }
        int op = d_u64(20); if (op < 10) { TRACE("push %lu", *key); bool r = bfdev_bloom_push(B, key); CHECK(r == all, "adding key %lu reported %s although its positions were %s", *key, r ? "present" : "absent", all ? "all set" : "not all set"); for (unsigned f = 0; f < funcs; f++) set[bfdev_hashtbl_index(B->capacity, h_(f, *key))] = 1; added[na++ % 200] = *key; if (na == 200) na = 0; hits += all; }
        else if (op < 19) { unsigned long before[80]; memcpy(before, B->bitmap, (words > 80 ? 80 : words) * sizeof(long)); bool r = bfdev_bloom_peek(B, key); CHECK(r == all, "querying key %lu reported %s although its positions are %s", *key, r ? "present" : "absent", all ? "all set" : "not all set"); CHECK(!memcmp(before, B->bitmap, (words > 80 ? 80 : words) * sizeof(long)), "a query changed the filter"); }
        else { TRACE("flush"); bfdev_bloom_flush(B); memset(set, 0, B->capacity); for (int i = 0; i < na && funcs; i++) CHECK(!bfdev_bloom_peek(B, &added[i]), "key %lu is present after the flush", added[i]); na = 0; flushed++; }
        for (int i = 0; i < na && d_chance(1, 4); i++) CHECK(bfdev_bloom_peek(B, &added[i]), "added key %lu is reported absent", added[i]);
    }
    bfdev_bloom_destroy(B); ta_check_empty(&ta, "destroyed filter"); if (funcs && hits && words > 1) pbt_nontrivial();
}

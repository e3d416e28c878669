#include "pbt.h"
#include <bfdev/hashtbl.h>
#include <bfdev/log.h>
const char *const pbt_id = "C22", *const pbt_rule = "";
#define NN 200
typedef unsigned long ul;
typedef struct { long pad; ul key; bfdev_hlist_node_t h; int id; bool in; } nd_t;
static nd_t nd[NN]; static int n; static ul size; static bfdev_hlist_head_t *T;
#define ND(p) bfdev_hlist_entry(p, nd_t, h)
static BFDEV_DECLARE_HASHTBL(s2, 2); static BFDEV_DECLARE_HASHTBL(s4, 4); static BFDEV_DECLARE_HASHTBL(s64, 64); static BFDEV_DECLARE_HASHTBL(s1024, 1024);
static int seen[NN], c; static void see(nd_t *x, const char *w) { CHECK(c++ <= n, "%s visits more than the members", w); CHECK(x->in, "%s visits a node that was removed", w); CHECK(!seen[x->id]++, "%s visits a member twice", w); }
#define FRESH() (memset(seen, 0, sizeof seen), c = 0)
static ul index_(ul key) { switch (d_u64(1)) { case 0: return bfdev_hashtbl_index(HIDE(size), key); default: switch (size) { case 2: return bfdev_hashtbl_index(2, key); case 4: return bfdev_hashtbl_index(4, key); case 64: return bfdev_hashtbl_index(64, key); case 1024: return bfdev_hashtbl_index(1024, key); default: return bfdev_hashtbl_index(size, key); } } }
static uint64_t dels; static void del(nd_t *x) { bfdev_hashtbl_del(&x->h); x->in = false; n--; }
static void look(void)
{
    ul ix; bfdev_hlist_node_t *p, *q; nd_t *e, *f; FRESH(); CHECK(bfdev_hashtbl_empty(T, size) == !n, "a table of %d members is reported %sempty", n, n ? "" : "not ");
    int k = d_u64(3), n0 = n; switch (k) { case 0: bfdev_hashtbl_for_each(p, T, size, ix) see(ND(p), "iteration"); break; case 1: bfdev_hashtbl_for_each_entry(e, T, size, h, ix) see(e, "iteration"); break;
    case 2: bfdev_hashtbl_for_each_safe(p, q, T, size, ix) { nd_t *x = ND(p); see(x, "safe iteration"); if (dels >> c % 64 & 1) { del(x); n++; } } break; default: bfdev_hashtbl_for_each_entry_safe(e, f, T, size, h, ix) { see(e, "safe iteration"); if (dels >> c % 64 & 1) { del(e); n++; } } break; }
    CHECK(c == n0, "iteration kind %d visits %d of %d members", k, c, n0); n = 0; for (int i = 0; i < NN; i++) n += nd[i].in;
    for (int r = 3; r--; ) { ul key = nd[d_u64(NN - 1)].key; if (d_chance(1, 5)) key = d_edge64(); ul b = index_(key); CHECK(b < size, "key %lu of a table of %lu buckets maps to bucket %lu", key, size, b); CHECK(b == index_(key), "the bucket of key %lu is not a function of the key", key); FRESH(); if (d_bool()) b += size * d_u64(3);
        switch (d_u64(3)) { case 0: bfdev_hashtbl_for_each_idx(p, T, size, b) see(ND(p), "bucket iteration"); break; case 1: bfdev_hashtbl_for_each_idx_entry(e, T, size, h, b) see(e, "bucket iteration"); break; case 2: bfdev_hashtbl_for_each_idx_safe(p, q, T, size, b) see(ND(p), "bucket iteration"); break; default: bfdev_hashtbl_for_each_idx_entry_safe(e, f, T, size, h, b) see(e, "bucket iteration"); break; }
        for (int i = 0; i < NN; i++) if (nd[i].in) { if (nd[i].key == key) CHECK(seen[i], "iterating over the bucket of key %lu misses a member of that key", key); if (seen[i]) CHECK(index_(nd[i].key) == b % size, "the bucket of key %lu contains a member of another bucket", key); } }
}
static void spread(void)
{
    static unsigned ld[4096]; ul b = d_bool() ? d_edge64() : d_u64(5000), m = d_range(1, 8), top = 0; int bits = d_range(1, d_chance(1, 20) ? 12 : 8); size = 1ul << bits; memset(ld, 0, size * sizeof *ld);
    for (ul k = 0; k < m * size; k++) { ul i = bfdev_hashtbl_index(size, b + k); CHECK(i < size, "key %lu of a table of %lu buckets maps to bucket %lu", b + k, size, i); if (++ld[i] > top) top = ld[i]; }
    TRACE("%lu keys from %lu on in %lu buckets: at most %lu in one", m * size, b, size, top); CHECK(top <= 2 * m + 2, "of %lu consecutive keys from %lu on, %lu share one of %lu buckets", m * size, b, top, size);
}
void pbt_case(void)
{
    bfdev_log_default.record_level = 0; n = 0; if (d_chance(1, 12)) spread(); ul base = d_bool() ? d_edge64() : 0, range = d_bool() ? d_range(1, 10) : d_range(10, 5000), step = d_bool() ? 1 : 1ul << d_u64(63); for (int i = 0; i < NN; i++) nd[i] = (nd_t){ .id = i, .key = base + step * d_u64(range) }, bfdev_hlist_node_init(&nd[i].h);
    unsigned kind = d_u64(7); switch (kind) { case 0: { BFDEV_DEFINE_HASHTBL(x, 2); memcpy(s2, x, sizeof x); T = s2; size = 2; break; } case 1: { BFDEV_DEFINE_HASHTBL(x, 4); memcpy(s4, x, sizeof x); T = s4; size = 4; break; } case 2: { BFDEV_DEFINE_HASHTBL(x, 64); memcpy(s64, x, sizeof x); T = s64; size = 64; break; } case 3: { BFDEV_DEFINE_HASHTBL(x, 1024); memcpy(s1024, x, sizeof x); T = s1024; size = 1024; break; }
    default: size = 1ul << (d_chance(1, 4000) ? d_range(15, 18) : d_range(1, 9)); if (size > 10000) pbt_class("very large"); T = g_alloc(size * sizeof *T); memset(T, 0x5a, size * sizeof *T); bfdev_hashtbl_init(T, size); break; }
    dels = d_chance(1, 4) ? d_u64(~0ull) : 0; int most = 0, N = d_chance(1, 10) ? NN : 30; look();
    for (int k = d_range(1, 60); k--; ) { int i = d_u64(N - 1); for (int j = d_range(1, 4); j--; i = (i + 1) % N) { if (nd[i].in) { if (d_chance(2, 3)) continue; TRACE("delete key %lu", nd[i].key); del(&nd[i]); } else { TRACE("add key %lu to a table of %lu buckets", nd[i].key, size); bfdev_hashtbl_add(T, size, &nd[i].h, nd[i].key); nd[i].in = true; n++; } } if (n > most) most = n; if (d_chance(1, 4)) look(); }
    look(); for (int i = 0; i < NN; i++) if (nd[i].in) del(&nd[i]); look(); if (most > 3) pbt_nontrivial();
}

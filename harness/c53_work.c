#include "ta.h"
#include <math.h>
#include <bfdev/rbtree.h>
#include <bfdev/segtree.h>
#include <bfdev/heap.h>
#include <bfdev/bsearch.h>
#include <bfdev/sort.h>
#include <bfdev/list.h>
#include <bfdev/btree.h>
#include <bfdev/skiplist.h>
#include <bfdev/hashmap.h>
#include <bfdev/ilist.h>
#include <bfdev/array.h>
#include <bfdev/cache.h>
#include <bfdev/radix.h>
#include <bfdev/log.h>
const char *const pbt_id = "C53", *const pbt_rule = "";
/* The work is what the library asks of its caller: comparisons, hashes, allocations. The limits leave a factor of two and more to what the structures need today. */
static unsigned long calls, worst; static long tag; static ta_t ta;
typedef struct { long key; unsigned long lo, hi, sub; bool in; int id; union { bfdev_rb_node_t rb; struct { bfdev_rb_node_t node; } seg; bfdev_heap_node_t hp; bfdev_list_head_t l; bfdev_hlist_node_t h; bfdev_ilist_node_t il; }; } nd_t;
static nd_t *nd; static long *ks; static int n; static bool dups, plainorder, nodups;
static double lg(double x) { return log2(x + 2); }
static long order(long x, long y) { calls++; return pbt_answer(x < y ? -1 : x > y); }
/* What one operation asked; `limit' is what it may ask. */
static void one(const char *op, double limit, int members) { CHECK(calls <= limit, "%s among %d members asked %lu questions, at most %.0f are due", op, members, calls, limit); if (calls > worst) worst = calls; calls = 0; }
static void sum(const char *op, double limit, int members) { CHECK(calls <= limit, "%s, %d members, asked %lu questions together, at most %.0f are due", op, members, calls, limit); calls = 0; }
static void keys(void)
{
    int mode = d_u64(6); uint64_t seed = d_u64(UINT64_MAX); int run = d_range(2, 40); dups = d_chance(1, 4) && !nodups; plainorder = mode == 2;
    for (int i = 0; i < n; i++) ks[i] = mode == 0 ? i : mode == 1 ? n - i : mode == 2 ? (long)(pbt_mix(seed + i) >> 20) : mode == 3 ? (i & 1 ? 3l * n - i : i) : mode == 4 ? i % run * 100000l + i : mode == 5 ? (i < n / 2 ? i : n + n / 2 - i) : i ^ (run & 31);
    if (dups) { long d = d_range(1, 1 + n / 2); for (int i = 0; i < n; i++) ks[i] %= d; }
    TRACE("%d keys, order %d%s", n, mode, dups ? ", few distinct" : "");
}
/* red-black tree */
static long rcmp(const bfdev_rb_node_t *a, const bfdev_rb_node_t *b, void *p) { nd_t *x = bfdev_rb_entry(a, nd_t, rb), *y = bfdev_rb_entry(b, nd_t, rb); return order(x->key, y->key) < 0 ? -1 : 1; }
static long rfind(const bfdev_rb_node_t *a, const void *k) { return order(bfdev_rb_entry(a, nd_t, rb)->key, *(const long *)k); }
static void rbtree(void)
{
    bool cached = d_bool(); BFDEV_RB_ROOT_CACHED(C); BFDEV_RB_ROOT(P); bfdev_rb_root_t *R = cached ? &C.root : &P; int m = 0; uint64_t s = d_u64(UINT64_MAX); int dm = d_u64(2);
    for (int i = 0; i < n; i++) { nd[i].key = ks[i]; if (cached) bfdev_rb_cached_insert(&C, &nd[i].rb, rcmp, &tag); else bfdev_rb_insert(R, &nd[i].rb, rcmp, &tag); one("insertion into a tree", 4 * lg(m) + 8, m); nd[i].in = true; m++; }
    for (int round = 2; round--; ) {
        for (int j = 0; j < n; j += 1 + n / 400) { long k = nd[j].key; bool have = nd[j].in; bfdev_rb_node_t *f = bfdev_rb_find(R, &k, rfind); if (have) CHECK(f && bfdev_rb_entry(f, nd_t, rb)->key == k, "a member is not found"); one("search of a tree", 4 * lg(m) + 8, m); }
        if (round) for (int j = 0; j < n * 3 / 4; j++) { int i = dm == 0 ? j : dm == 1 ? n - 1 - j : pbt_mix(s + j) % n; if (!nd[i].in) continue; if (cached) bfdev_rb_cached_delete(&C, &nd[i].rb); else bfdev_rb_delete(R, &nd[i].rb); nd[i].in = false; m--; one("deletion from a tree", 4 * lg(m) + 8, m); } }
}
/* interval tree */
#define ST(x) (calls++, (x)->lo)
#define LA(x) ((x)->hi)
BFDEV_SEGTREE_DEFINE(static __bfdev_maybe_unused, seg, nd_t, seg.node, unsigned long, sub, ST, LA)
static void segtree(void)
{
    BFDEV_RB_ROOT_CACHED(C); int m = 0; unsigned long w = d_range(1, 50), span = 0;
    for (int i = 0; i < n; i++) { nd[i].lo = ks[i] * 10ul; nd[i].hi = nd[i].lo + w; if (nd[i].hi > span) span = nd[i].hi; seg_insert(&C, &nd[i]); one("insertion into an interval tree", 16 * lg(m) + 32, m); m++; nd[i].in = true; }
    for (int round = 2; round--; ) { for (int j = 0; j < 300; j++) { unsigned long lo = j & 1 ? nd[d_u64(n - 1)].lo + d_u64(w) : d_u64(span + 10); unsigned long hi = lo + d_u64(3); calls = 0; nd_t *f = seg_first(&C, lo, hi); if (f) CHECK(f->lo <= hi && f->hi >= lo, "the interval found does not intersect"); one("the search of an interval tree", 16 * lg(m) + 32, m); }
        for (int j = 0; j < n && round; j++) if (pbt_mix(j) & 3) { seg_delete(&C, &nd[j]); m--; one("deletion from an interval tree", 16 * lg(m) + 32, m); nd[j].in = false; } }
}
/* heap */
static long hcmp(const bfdev_heap_node_t *a, const bfdev_heap_node_t *b, void *p) { return order(bfdev_heap_entry(a, nd_t, hp)->key, bfdev_heap_entry(b, nd_t, hp)->key); }
static void heap(void)
{
    BFDEV_HEAP_ROOT(R); int m = 0; bool top = d_bool(); for (int i = 0; i < n; i++) { nd[i].key = ks[i]; bfdev_heap_insert(&R, &nd[i].hp, hcmp, &tag); one("insertion into a heap", 4 * lg(m) + 8, m); m++; nd[i].in = true; }
    for (int j = 0; j < n; j++) { nd_t *x = top ? bfdev_heap_entry(BFDEV_HEAP_ROOT_NODE(&R), nd_t, hp) : &nd[pbt_mix(j) % n]; if (!x->in) continue; bfdev_heap_delete(&R, &x->hp, hcmp, &tag); x->in = false; one("deletion from a heap", 6 * lg(m) + 12, m); m--; }
}
/* arrays and lists */
static long acmp(const void *a, const void *b, void *p) { return order(*(const long *)a, *(const long *)b); } static long afind(const void *a, void *p) { return order(*(const long *)a, *(long *)p); }
static long lcmp(const bfdev_list_head_t *a, const bfdev_list_head_t *b, void *p) { return order(bfdev_list_entry(a, nd_t, l)->key, bfdev_list_entry(b, nd_t, l)->key); }
static void sorting(void)
{
    if (d_bool()) { BFDEV_LIST_HEAD(h); for (int i = 0; i < n; i++) { nd[i].key = ks[i]; bfdev_list_add_prev(&h, &nd[i].l); } bfdev_list_sort(&h, lcmp, &tag); sum("sorting a list", 3 * n * lg(n) + 16, n); return; }
    bfdev_sort(ks, n, sizeof *ks, acmp, &tag); sum("sorting an array", 4 * n * lg(n) + 16, n);
    for (int j = 0; j < 200; j++) { long k = j & 1 ? ks[d_u64(n - 1)] : (long)d_u64(4ul * n); long *f = bfdev_bsearch(ks, n, sizeof *ks, (bfdev_find_t)afind, &k); if (j & 1) CHECK(f && *f == k, "an element is not found"); one("binary search", 2 * lg(n) + 6, n); }
}
/* B+ tree */
static unsigned long nodes; static unsigned minkeys;
static long bfind(bfdev_btree_root_t *r, uintptr_t *node, uintptr_t *key) { calls++; return bfdev_btree_key_find(r, node, key); }
static void *balloc(bfdev_btree_root_t *r) { nodes++; return bfdev_btree_alloc(r); } static void bfree(bfdev_btree_root_t *r, void *b) { nodes--; bfdev_btree_free(r, b); }
static void btree(void)
{
    bfdev_btree_ops_t ops = { .alloc = balloc, .free = bfree, .find = bfind }; bfdev_btree_root_t T; int which = d_u64(2); bfdev_btree_layout_t *L = which == 0 ? &bfdev_btree_layout32 : which == 1 ? &bfdev_btree_layout64 : &bfdev_btree_layoutptr; bfdev_btree_init(&T, L, &ops, NULL); T.alloc = &ta.alloc; nodes = 0; int m = 0; int dm = d_u64(2); uint64_t s = d_u64(UINT64_MAX);
    unsigned K = L->keynum; double base = log2(K / 2.0); if (base < 1) base = 1;
    #define BL(x) (4 * K * (lg(x) / base + 3))
    for (int i = 0; i < n; i++) { uintptr_t k = ks[i] + 1; if (bfdev_btree_lookup(&T, &k)) { calls = 0; continue; } one("lookup in a B+ tree", BL(m), m); int r = bfdev_btree_insert(&T, &k, &nd[i]); CHECK(!r, "insertion returned %d", r); one("insertion into a B+ tree", 3 * BL(m), m); nd[i].in = true; m++; }
    CHECK(nodes * (K / 2.0) <= 4.0 * m + 8 * K, "%lu nodes of %u keys are held for %d keys", nodes, K, m);
    for (int j = 0; j < n; j++) { int i = dm == 0 ? j : dm == 1 ? n - 1 - j : pbt_mix(s + j) % n; if (!nd[i].in) continue; uintptr_t k = ks[i] + 1; void *v = bfdev_btree_remove(&T, &k); CHECK(v == &nd[i], "removal of a key delivered another value"); nd[i].in = false; one("removal from a B+ tree", 4 * BL(m), m); m--; }
    CHECK(nodes * (K / 2.0) <= 4.0 * m + 8 * K, "%lu nodes of %u keys are held for %d keys", nodes, K, m); bfdev_btree_release(&T, NULL, NULL);
}
/* skip list */
static long scmp(const void *a, const void *b, void *p) { return order(((nd_t *)a)->key, ((nd_t *)b)->key); } static long sfind(const void *a, void *p) { return order(((nd_t *)a)->key, *(long *)p); }
static void skiplist(void)
{
    bfdev_skip_head_t *H = bfdev_skiplist_create(&ta.alloc, d_range(9, 24)); CHECK(H, "creation failed"); size_t own = ta.bytes; srand(d_u64(UINT32_MAX)); int m = 0; double due = 0;
    for (int i = 0; i < n; i++) { nd[i].key = ks[i]; CHECK(!bfdev_skiplist_insert(H, &nd[i], scmp, &tag), "insertion failed"); due += 12 * lg(m++) + 24; nd[i].in = true; } 
    if (n >= 300) { sum("insertions into a skip list", due + 600, n); CHECK(ta.bytes - own <= n * (sizeof(bfdev_skip_node_t) + 3.0 * sizeof(bfdev_list_head_t)) + 4096, "%d members of a skip list take %zu bytes", n, ta.bytes - own); }
    calls = 0; for (int j = 0; j < 300; j++) { long k = nd[d_u64(n - 1)].key; CHECK(bfdev_skiplist_find(H, sfind, &k), "a member is not found"); } if (n >= 300) sum("300 searches of a skip list", 300 * (12 * lg(n) + 24), n);
    calls = 0; due = 0; for (int j = 0; j < n / 2; j++) { long k = nd[j].key; bfdev_skiplist_delete(H, sfind, &k); due += 12 * lg(m--) + 24; } if (n >= 300) sum("deletions from a skip list", due + 600, n);
    bfdev_skiplist_destroy(H, NULL, NULL); ta_check_empty(&ta, "destroyed skip list");
}
/* hash map */
static int spread; static unsigned long hashed; static unsigned long hash(long k) { hashed++; return spread == 0 ? k : spread == 1 ? pbt_mix(k) : (unsigned long)k << spread; }
static unsigned long hk(const void *k, void *p) { return hash(*(const long *)k); } static unsigned long hn(const bfdev_hlist_node_t *x, void *p) { return hash(bfdev_hlist_entry(x, nd_t, h)->key); }
static long he(const bfdev_hlist_node_t *a, const bfdev_hlist_node_t *b, void *p) { return order(bfdev_hlist_entry(a, nd_t, h)->key, bfdev_hlist_entry(b, nd_t, h)->key); } static long hf(const bfdev_hlist_node_t *a, const void *k, void *p) { return order(bfdev_hlist_entry(a, nd_t, h)->key, *(const long *)k); }
static void hashmap(void)
{
    bfdev_hashmap_ops_t ops = { .hash_key = hk, .hash_node = hn, .equal = he, .find = hf }; bfdev_hashmap_t M; bfdev_hashmap_init(&M, &ta.alloc, &ops, &tag); spread = d_bool() ? d_u64(1) : d_range(2, 16); hashed = 0; long b = d_u64(1ul << 40); int m = 0; TRACE("hash kind %d", spread);
    for (int i = 0; i < n; i++) { nd[i].key = b + i; bfdev_hlist_node_init(&nd[i].h); CHECK(!bfdev_hashmap_add(&M, &nd[i].h), "addition failed"); m++; } 
    sum("additions to a hash map", 8.0 * n + 64, n); CHECK(hashed <= 12.0 * n + 256, "%lu hashes were computed for %d additions", hashed, n); CHECK(ta.bytes <= 16.0 * sizeof(bfdev_hlist_head_t) * n + 1024, "%d entries take %zu bytes", n, ta.bytes);
    for (int j = 0; j < n; j++) { long k = b + j; CHECK(bfdev_hashmap_find(&M, &k) == &nd[j].h, "an entry is not found"); k = b + n + j; CHECK(!bfdev_hashmap_find(&M, &k), "an absent entry is found"); } sum("searches of a hash map", 16.0 * n + 64, n);
    int stay = d_u64(n / 8); hashed = 0; for (int j = 0; j < n - stay; j++) { long k = b + j; CHECK(!bfdev_hashmap_del(&M, &k, NULL), "deletion failed"); } sum("deletions from a hash map", 8.0 * n + 64, n); CHECK(hashed <= 16.0 * n + 256, "%lu hashes were computed for %d deletions", hashed, n - stay); CHECK(ta.bytes <= 16.0 * sizeof(bfdev_hlist_head_t) * stay + 1024, "%d entries take %zu bytes after the others are gone", stay, ta.bytes);
    bfdev_hashmap_release(&M); ta_check_empty(&ta, "released hash map");
}
/* priority list */
static long icmp(const bfdev_ilist_node_t *a, const bfdev_ilist_node_t *b, void *p) { return order(bfdev_ilist_entry(a, nd_t, il)->key, bfdev_ilist_entry(b, nd_t, il)->key); }
static void ilist(void)
{
    if (n > 1500) n = 1500; BFDEV_ILIST_HEAD(h); int K = d_range(1, 30); bool seen[31] = {}; int distinct = 0;
    for (int i = 0; i < n; i++) { nd[i].key = (unsigned long)ks[i] % K; bfdev_ilist_node_init(&nd[i].il); bfdev_ilist_add(&h, &nd[i].il, icmp, &tag); one("insertion into a priority list", 2.0 * distinct + 8, i); if (!seen[nd[i].key]) seen[nd[i].key] = true, distinct++; }
}
/* growing array */
static void array(void)
{
    size_t cells = d_range(1, 40); bfdev_array_t A; bfdev_array_init(&A, &ta.alloc, cells); size_t t0 = ta.total; int step = d_bool() ? 1 : d_range(1, 5); unsigned long c = 0;
    for (int i = 0; i < n; i++) { void *p = bfdev_array_push(&A, step); CHECK(p, "appending failed"); memset(p, i, step * cells); c += step; }
    CHECK(ta.total - t0 <= 4 * lg((double)c * cells) + 16, "%lu elements of %zu bytes, appended one after another, took %zu allocations", c, cells, ta.total - t0); CHECK(ta.bytes <= 4.0 * (c < 32 ? 32 : c) * cells + 1024, "%lu elements of %zu bytes take %zu bytes", c, cells, ta.bytes);
    bfdev_array_release(&A); ta_check_empty(&ta, "released array");
}
/* cache */
static unsigned long vhash(const void *t, void *p) { return spread ? pbt_mix((uintptr_t)t) : (uintptr_t)t; } static long vfind(const void *d, const void *t, void *p) { calls++; return d != t; }
static void cache(void)
{
    bfdev_cache_ops_t ops = { vhash, vfind }; spread = d_u64(1); const char *alg = d_bool() ? "lru" : "lfu"; unsigned long N = n < 4 ? 4 : n, q = 0; bfdev_cache_head_t *h = bfdev_cache_create(alg, &ta.alloc, &ops, N, N + 1, NULL); CHECK(h, "creation failed"); TRACE("%s cache of %lu", alg, N); unsigned long w = N * 3;
    for (unsigned long k = 0; k < 3 * N; k++) { unsigned long t = 1 + (k & 1 ? d_u64(3) ? pbt_mix(k) % w : k % w : k); bfdev_cache_node_t *e = bfdev_cache_get(h, (void *)t); CHECK(e, "a tag was refused"); q++; if (e->status == BFDEV_CACHE_PENDING) { e->data = (void *)t; bfdev_cache_committed(h); q++; } bfdev_cache_put(h, e); }
    sum("requests of a cache", 8.0 * q + 256, N); bfdev_cache_destroy(h); ta_check_empty(&ta, "destroyed cache");
}
void pbt_case(void)
{
    bfdev_log_default.record_level = 0; ta_init(&ta); calls = worst = 0; n = d_chance(1, 40) ? d_range(5000, 40000) : d_chance(1, 4) ? d_range(500, 5000) : d_range(1, 500); nd = g_alloc((n + 1) * sizeof *nd); memset(nd, 0, (n + 1) * sizeof *nd); ks = g_alloc((n + 1) * sizeof *ks); for (int i = 0; i < n; i++) nd[i].id = i;
    static void (*const kind[])(void) = { rbtree, segtree, heap, sorting, btree, skiplist, hashmap, ilist, array, cache }; static const char *const name[] = { "tree", "interval tree", "heap", "sort and search", "B+ tree", "skip list", "hash map", "priority list", "array", "cache" };
    int k = d_u64(9); nodups = k == 5; /* deletions among equal keys take the tallest of them first */ keys(); TRACE("%s", name[k]); pbt_class(name[k]); kind[k](); if (n >= 500) pbt_class("500 members or more"); if (n >= 5000) pbt_class("5000 members or more"); if (n >= 500 && !plainorder) pbt_nontrivial();
}

#include "pbt.h"
#include <pthread.h>
#include <sched.h>
#include <bfdev/log.h>
#include <bfdev/errno.h>
#include <bfdev/errname.h>
#include <bfdev/allocator.h>
#include <bfdev/array.h>
#include <bfdev/fifo.h>
#include <bfdev/ringbuf.h>
#include <bfdev/mpi.h>
#include <bfdev/matrix.h>
#include <bfdev/btree.h>
#include <bfdev/hashmap.h>
#include <bfdev/skiplist.h>
#include <bfdev/radix.h>
#include <bfdev/bloom.h>
#include <bfdev/cache.h>
#include <bfdev/fsm.h>
#include <bfdev/textsearch.h>
#include <bfdev/levenshtein.h>
#include <bfdev/argv.h>
#include <bfdev/string.h>
#include <bfdev/sort.h>
#include <bfdev/bsearch.h>
#include <bfdev/rbtree.h>
#include <bfdev/heap.h>
#include <bfdev/segtree.h>
#include <bfdev/notifier.h>
#include <bfdev/memalloc.h>
#include <bfdev/allocpool.h>
#include <bfdev/ratelimit.h>
#include <bfdev/tokenbucket.h>
#include <bfdev/prandom.h>
#include <bfdev/jhash.h>
#include <bfdev/stringhash.h>
#include <bfdev/arc4.h>
#include <bfdev/base32.h>
#include <bfdev/base64.h>
#include <bfdev/ascii85.h>
#include <bfdev/crc.h>
#include <bfdev/md5.h>
#include <bfdev/sha1.h>
#include <bfdev/sha2.h>
#include <bfdev/scnprintf.h>
#include <bfdev/bitmap.h>
#include <bfdev/ctype.h>
#include <bfdev/list.h>

const char *const pbt_id = "C50", *const pbt_rule = "";
/* A program works on objects of its own, and its digest tells everything it observed. Whatever else the library does in
 * between (inside its callbacks, or in other threads) the digest has to be the one the program has when alone. */
typedef struct { uint64_t s, h; long live; bfdev_alloc_t a; } G;
static uint64_t R(G *g, uint64_t n) { g->s += 0x9e3779b97f4a7c15ull; return pbt_mix(g->s) % n; }
static void put(G *g, uint64_t x) { g->h = pbt_mix(g->h ^ x) + 0x1234567; } static void puts_(G *g, const void *p, size_t n) { const unsigned char *c = p; while (n--) g->h = (g->h ^ *c++) * 0x100000001b3ull; put(g, 1); }
static void fillb(G *g, void *p, size_t n) { for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = R(g, 256); }
static void yield_(void);
static void *al_alloc(size_t n, void *p) { yield_(); ((G *)p)->live++; return malloc(n); } static void *al_zalloc(size_t n, void *p) { yield_(); ((G *)p)->live++; return calloc(1, n); } static void *al_realloc(void *b, size_t n, void *p) { yield_(); if (!b) ((G *)p)->live++; return realloc(b, n); } static void al_free(void *b, void *p) { yield_(); if (b) ((G *)p)->live--; free(b); }
static const bfdev_alloc_ops_t al_ops = { .alloc = al_alloc, .zalloc = al_zalloc, .realloc = al_realloc, .free = al_free };
/* ---- the programs */
static void p_digest(G *g)
{
    unsigned char b[300], o[64]; size_t n = R(g, 300), c = n ? R(g, n) : 0; fillb(g, b, n);
    { bfdev_md5_ctx_t x; bfdev_md5_init(&x); bfdev_md5_update(&x, b, c); yield_(); bfdev_md5_update(&x, b + c, n - c); bfdev_md5_finish(&x, o); puts_(g, o, 16); }
    { bfdev_sha1_ctx_t x; bfdev_sha1_init(&x); bfdev_sha1_update(&x, b, c); yield_(); bfdev_sha1_update(&x, b + c, n - c); bfdev_sha1_finish(&x, o); puts_(g, o, 20); }
    { bfdev_sha2_ctx_t x; bfdev_sha256_init(&x); bfdev_sha2_update(&x, b, c); yield_(); bfdev_sha2_update(&x, b + c, n - c); bfdev_sha256_finish(&x, o); puts_(g, o, 32); }
    { bfdev_sha2_ctx_t x; bfdev_sha224_init(&x); bfdev_sha2_update(&x, b, c); yield_(); bfdev_sha2_update(&x, b + c, n - c); bfdev_sha224_finish(&x, o); puts_(g, o, 28); }
}
static void p_crc(G *g)
{
    unsigned char b[200]; size_t n = R(g, 200), c = n ? R(g, n) : 0; fillb(g, b, n); uint64_t s = R(g, -1ull);
    put(g, bfdev_crc4(b, n / 4 * 4, s & 15)); put(g, bfdev_crc7(b, n, s)); put(g, bfdev_crc8(b, n, s)); put(g, bfdev_crc16(b, n, s)); put(g, bfdev_crc32(b, n, s)); yield_(); put(g, bfdev_crc64(b, n, s)); put(g, bfdev_crc_ccitt(b, n, s)); put(g, bfdev_crc_itut(b, n, s)); put(g, bfdev_crc_t10dif(b, n, s)); put(g, bfdev_crc_rocksoft(b, n, s)); uint32_t q = bfdev_crc32(b, c, s); yield_(); put(g, bfdev_crc32(b + c, n - c, q));
}
static void p_base(G *g)
{
    unsigned char b[100], o[400], d[200]; size_t n = R(g, 100), l = 0, m = 0; fillb(g, b, n); memset(o, 0, sizeof o);
    bfdev_base32_encode(o, b, n); size_t e = (n + 4) / 5 * 8; puts_(g, o, e); yield_(); put(g, bfdev_base32_decode(d, o, e)); puts_(g, d, n); bfdev_base64_encode(o, b, n); e = (n + 2) / 3 * 4; puts_(g, o, e); yield_(); put(g, bfdev_base64_decode(d, o, e)); puts_(g, d, n);
    bfdev_ascii85_encode(o, b, &l, n); puts_(g, o, l); yield_(); put(g, bfdev_ascii85_decode(d, o, &m, l)); put(g, m); puts_(g, d, n);
}
static void p_stream(G *g)
{
    unsigned char k[40], b[200], o[200]; size_t kl = 1 + R(g, 39), n = R(g, 200); fillb(g, k, kl); fillb(g, b, n); bfdev_arc4_ctx_t x; bfdev_arc4_setkey(&x, k, kl); bfdev_arc4_trans(&x, o, b, n / 2); yield_(); bfdev_arc4_trans(&x, o + n / 2, b + n / 2, n - n / 2); puts_(g, o, n);
    bfdev_prandom_t r; bfdev_prandom_seed(&r, R(g, -1ull)); for (int i = 0; i < 20; i++) { put(g, bfdev_prandom_value(&r)); if (i % 7 == 0) yield_(); } put(g, bfdev_jhash(b, n, R(g, 1u << 31))); char s[30]; size_t q = R(g, 30); for (size_t i = 0; i < q; i++) s[i] = 'a' + R(g, 26); s[q < 30 ? q : 29] = 0; put(g, bfdev_pjwhash(s));
}
static void mp_put(G *g, const bfdev_mpi_t *v) { bool s; const BFDEV_MPI_TYPE *p = bfdev_mpi_data(v, &s); unsigned long l = bfdev_mpi_length(v); put(g, l); put(g, s); if (l) puts_(g, p, l * sizeof *p); }
static void p_mpi(G *g)
{
    bfdev_mpi_t v[4]; BFDEV_MPI_TYPE b[8]; for (int i = 0; i < 4; i++) { bfdev_mpi_init(&v[i], &g->a); int n = 1 + R(g, 8); for (int k = 0; k < n; k++) b[k] = R(g, -1ull); b[n - 1] |= 1; bfdev_mpi_import(&v[i], b, n, R(g, 2)); }
    for (int s = 0; s < 8; s++) { int d = R(g, 4), x = R(g, 4), y = R(g, 4); yield_(); switch (R(g, 8)) { case 0: put(g, bfdev_mpi_add(&v[d], &v[x], &v[y])); break; case 1: put(g, bfdev_mpi_sub(&v[d], &v[x], &v[y])); break; case 2: put(g, bfdev_mpi_mul(&v[d], &v[x], &v[y])); break; case 3: put(g, bfdev_mpi_div(&v[d], &v[(d + 1) & 3], &v[x], &v[y])); break; case 4: put(g, bfdev_mpi_xor(&v[d], &v[x], &v[y])); break; case 5: put(g, bfdev_mpi_shri(&v[d], &v[x], R(g, 150))); break; case 6: put(g, bfdev_mpi_shli(&v[d], &v[x], R(g, 150))); break; default: put(g, (unsigned)bfdev_mpi_cmp(&v[x], &v[y])); } mp_put(g, &v[d]); if (bfdev_mpi_length(&v[d]) > 60) bfdev_mpi_seti(&v[d], 5); }
    for (int i = 0; i < 4; i++) bfdev_mpi_release(&v[i]);
}
static void p_matrix(G *g)
{
    bfdev_matrix_t m[3]; BFDEV_MATRIX_TYPE b[25]; unsigned n = 1 + R(g, 5); for (int i = 0; i < 3; i++) { bfdev_matrix_init(&m[i], &g->a); for (int k = 0; k < 25; k++) b[k] = R(g, 1000); bfdev_matrix_import(&m[i], b, n, n); }
    for (int s = 0; s < 5; s++) { int d = R(g, 3), x = R(g, 3), y = R(g, 3); yield_(); switch (R(g, 4)) { case 0: put(g, bfdev_matrix_add(&m[d], &m[x], &m[y])); break; case 1: put(g, bfdev_matrix_sub(&m[d], &m[x], &m[y])); break; case 2: put(g, bfdev_matrix_mul(&m[d], &m[x], &m[y])); break; default: if (d != x) put(g, bfdev_matrix_trans(&m[d], &m[x])); } for (unsigned r = 0; r < n; r++) for (unsigned c = 0; c < n; c++) put(g, *bfdev_matrix_data(&m[d], r, c)); }
    for (int i = 0; i < 3; i++) bfdev_matrix_release(&m[i]);
}
static void p_array(G *g)
{
    bfdev_array_t a; bfdev_array_init(&a, &g->a, sizeof(uint32_t)); for (int s = 0; s < 12; s++) { unsigned n = 1 + R(g, 20); uint32_t *p; yield_(); if (R(g, 3)) { p = bfdev_array_push(&a, n); for (unsigned i = 0; p && i < n; i++) p[i] = R(g, 1u << 31); } else if ((p = bfdev_array_pop(&a, n))) puts_(g, p, n * 4); put(g, bfdev_array_index(&a)); if (bfdev_array_index(&a)) puts_(g, bfdev_array_data(&a, 0), bfdev_array_index(&a) * 4); } bfdev_array_release(&a);
}
static void p_btree(G *g)
{
    bfdev_btree_ops_t ops = { .alloc = bfdev_btree_alloc, .free = bfdev_btree_free, .find = bfdev_btree_key_find }; bfdev_btree_root_t t; bfdev_btree_init(&t, &bfdev_btree_layoutptr, &ops, g->a.pdata ? &g->a : NULL); 
    for (int s = 0; s < 60; s++) { uintptr_t k = 1 + R(g, 80); if (!(s & 7)) yield_(); switch (R(g, 4)) { case 0: case 1: put(g, bfdev_btree_insert(&t, &k, (void *)(k * 16))); break; case 2: put(g, (uintptr_t)bfdev_btree_remove(&t, &k)); break; default: put(g, (uintptr_t)bfdev_btree_lookup(&t, &k)); } }
    bfdev_btree_release(&t, NULL, NULL);
}
typedef struct { bfdev_hlist_node_t h; unsigned long key; } hn_t;
static unsigned long hm_key(const void *k, void *p) { yield_(); return pbt_mix(*(const unsigned long *)k); } static unsigned long hm_node(const bfdev_hlist_node_t *n, void *p) { yield_(); return pbt_mix(bfdev_hlist_entry(n, hn_t, h)->key); } static long hm_eq(const bfdev_hlist_node_t *a, const bfdev_hlist_node_t *b, void *p) { yield_(); return bfdev_hlist_entry(a, hn_t, h)->key != bfdev_hlist_entry(b, hn_t, h)->key; } static long hm_find(const bfdev_hlist_node_t *n, const void *k, void *p) { yield_(); return bfdev_hlist_entry(n, hn_t, h)->key != *(const unsigned long *)k; }
static void p_hashmap(G *g)
{
    static const bfdev_hashmap_ops_t ops = { .hash_key = hm_key, .hash_node = hm_node, .equal = hm_eq, .find = hm_find }; bfdev_hashmap_t m; hn_t n[40]; bool in[40] = {0}; bfdev_hashmap_init(&m, &g->a, &ops, NULL);
    for (int s = 0; s < 50; s++) { unsigned long k = R(g, 40); bfdev_hlist_node_t *o; switch (R(g, 3)) { case 0: if (in[k]) break; n[k].key = k; put(g, bfdev_hashmap_add(&m, &n[k].h)); in[k] = true; break; case 1: put(g, (unsigned)bfdev_hashmap_del(&m, &k, &o)); in[k] = false; break; default: o = bfdev_hashmap_find(&m, &k); put(g, o ? o == &n[k].h : 2); } put(g, m.used); }
    bfdev_hashmap_release(&m);
}
static long i_cmp(const void *a, const void *b, void *p) { yield_(); int x = *(const int *)a, y = *(const int *)b; return (x > y) - (x < y); } static long i_find(const void *a, void *p) { yield_(); return *(const int *)a - *(const int *)p; } static long b_find(const void *a, void *p) { yield_(); int x = *(const int *)p, y = *(const int *)a; return (x > y) - (x < y); }
static void p_skip(G *g)
{
    int keys[30], in[30] = {0}; for (int i = 0; i < 30; i++) keys[i] = i; bfdev_skip_head_t *h = bfdev_skiplist_create(&g->a, 1 + R(g, 8)); for (int s = 0; s < 40; s++) { int k = R(g, 30); if (R(g, 3)) { if (!in[k]) put(g, bfdev_skiplist_insert(h, &keys[k], i_cmp, NULL)); in[k] = 1; } else { bfdev_skiplist_delete(h, i_find, &k); in[k] = 0; } int q = R(g, 30); bfdev_skip_node_t *n = bfdev_skiplist_find(h, i_find, &q); put(g, n ? *(int *)n->key : 99); } bfdev_skip_node_t *p; bfdev_skiplist_for_each(p, h, 0) put(g, *(int *)p->key); bfdev_skiplist_destroy(h, NULL, NULL);
}
static void p_radix(G *g)
{
    BFDEV_DEFINE_RADIX(a, uint32_t, &g->a); for (int s = 0; s < 40; s++) { unsigned long ix = R(g, 2) ? R(g, 50) : 1ul << R(g, 40); uint32_t *p; switch (R(g, 4)) { case 0: case 1: if (!bfdev_radix_find(&a, ix) && (p = bfdev_radix_alloc(&a, ix))) *p = ix * 7; break; case 2: put(g, (unsigned)bfdev_radix_free(&a, ix)); break; default: p = bfdev_radix_find(&a, ix); put(g, p ? *p : 1); } } uint32_t *p; unsigned long ix; bfdev_radix_for_each(p, &a, &ix) { put(g, ix); put(g, *p); } bfdev_radix_release(&a);
}
typedef struct { bfdev_rb_node_t rb; int k; } rn_t; static long rb_cmp(const bfdev_rb_node_t *a, const bfdev_rb_node_t *b, void *p) { yield_(); return bfdev_rb_entry(a, rn_t, rb)->k < bfdev_rb_entry(b, rn_t, rb)->k ? BFDEV_LT : BFDEV_BT; }
static void p_rb(G *g)
{
    rn_t n[40]; bool in[40] = {0}; BFDEV_RB_ROOT(root); for (int s = 0; s < 60; s++) { int i = R(g, 40); if (!in[i]) { n[i].k = R(g, 100); bfdev_rb_insert(&root, &n[i].rb, rb_cmp, NULL); } else bfdev_rb_delete(&root, &n[i].rb); in[i] = !in[i]; } bfdev_rb_node_t *p; for (p = bfdev_rb_first(&root); p; p = bfdev_rb_next(p)) put(g, bfdev_rb_entry(p, rn_t, rb)->k);
}
typedef struct { bfdev_heap_node_t h; int k; } pn_t; static long hp_cmp(const bfdev_heap_node_t *a, const bfdev_heap_node_t *b, void *p) { yield_(); int x = bfdev_heap_entry(a, pn_t, h)->k, y = bfdev_heap_entry(b, pn_t, h)->k; return (x > y) - (x < y); }
static void p_heap(G *g)
{
    pn_t n[30]; bfdev_heap_root_t r; bfdev_heap_init(&r); int used = 0; for (int s = 0; s < 50; s++) { if (used < 30 && R(g, 3)) { n[used].k = R(g, 50); bfdev_heap_insert(&r, &n[used++].h, hp_cmp, NULL); } else if (r.count) { unsigned long ix; bfdev_heap_node_t *t = bfdev_heap_first(&r, &ix); put(g, bfdev_heap_entry(t, pn_t, h)->k); bfdev_heap_delete(&r, t, hp_cmp, NULL); } put(g, r.count); }
}
static void p_seg(G *g)
{
    bfdev_segtree_node_t n[30]; bool in[30] = {0}; BFDEV_RB_ROOT_CACHED(root); for (int s = 0; s < 40; s++) { int i = R(g, 30); yield_(); if (!in[i]) { n[i].start = R(g, 500); n[i].end = n[i].start + R(g, 60); bfdev_segtree_insert(&root, &n[i]); } else bfdev_segtree_delete(&root, &n[i]); in[i] = !in[i]; unsigned long a = R(g, 500), b = a + R(g, 50); unsigned cnt = 0; uint64_t sum = 0; for (bfdev_segtree_node_t *p = bfdev_segtree_first(&root, a, b); p; p = bfdev_segtree_next(p, a, b)) { cnt++; sum += pbt_mix(p->start * 1000 + p->end); } put(g, cnt); put(g, sum); }
}
static void p_sort(G *g)
{
    int a[60]; size_t n = R(g, 60); for (size_t i = 0; i < n; i++) a[i] = R(g, 200); put(g, (unsigned)bfdev_sort(a, n, sizeof *a, i_cmp, NULL)); puts_(g, a, n * sizeof *a); for (int i = 0; i < 5; i++) { int k = R(g, 200); int *p = bfdev_bsearch(a, n, sizeof *a, b_find, &k); put(g, p ? *p : 999); }
}
static unsigned long c_hash(const void *t, void *p) { yield_(); return pbt_mix((unsigned long)t); } static long c_find(const void *n, const void *t, void *p) { yield_(); return n != t; }
static void p_cache(G *g)
{
    static const bfdev_cache_ops_t ops = { c_hash, c_find }; bfdev_cache_head_t *c = bfdev_cache_create(R(g, 2) ? "lfu" : "lru", &g->a, &ops, 2 + R(g, 6), 4, NULL); for (int s = 0; s < 40; s++) { uintptr_t t = 8 + R(g, 12) * 8; if (R(g, 4)) { bfdev_cache_node_t *e = bfdev_cache_get(c, (void *)t); put(g, e ? (e->tag == (void *)t) + 2 * (e->data == (void *)t) : 9); if (e) { if (e->status == BFDEV_CACHE_PENDING) { e->data = (void *)t; bfdev_cache_committed(c); } put(g, bfdev_cache_put(c, e)); } } else put(g, !!bfdev_cache_find(c, (void *)t)); } put(g, c->hits); bfdev_cache_destroy(c);
}
static void p_text(G *g)
{
    char pat[8], txt[120]; size_t pl = 1 + R(g, 7), n = R(g, 120); for (size_t i = 0; i < pl; i++) pat[i] = 'a' + R(g, 2); for (size_t i = 0; i < n; i++) txt[i] = "ab"[R(g, 2)]; static const char *al[] = { "kmp", "bm", "sunday" }; bfdev_ts_context_t *c = bfdev_textsearch_create(&g->a, al[R(g, 3)], pat, pl, R(g, 2) ? BFDEV_TS_IGCASE : 0); if (!c) { put(g, 7); return; } bfdev_ts_linear_t l; unsigned p = bfdev_textsearch_linear(c, &l, txt, n); for (int i = 0; i < 200 && p != UINT_MAX; i++) { put(g, p); yield_(); p = bfdev_textsearch_next(c, &l.tss); } bfdev_textsearch_destroy(c);
}
static void p_words(G *g)
{
    char s[60], t[30]; size_t n = R(g, 60), m = R(g, 30); for (size_t i = 0; i < n; i++) s[i] = "ab  c\t"[R(g, 6)]; s[n < 60 ? n : 59] = 0; for (size_t i = 0; i < m; i++) t[i] = "abc"[R(g, 3)]; t[m < 30 ? m : 29] = 0; put(g, bfdev_levenshtein(&g->a, s, t, 1, 1 + R(g, 3), 1, 1 + R(g, 3))); unsigned ac = 0; char **v = bfdev_argv_split(&g->a, s, &ac); put(g, ac); for (unsigned i = 0; v && i < ac; i++) puts_(g, v[i], strlen(v[i])); if (v) bfdev_argv_destroy(&g->a, v); char *d = bfdev_strdup(&g->a, s); puts_(g, d, strlen(d)); bfdev_free(&g->a, d);
    char o[80]; size_t z = 1 + R(g, 80); put(g, bfdev_scnprintf(o, z, "%s|%lld|%#x|%*d", t, (long long)R(g, -1ull), (unsigned)R(g, 1u << 31), (int)R(g, 20), 7)); puts_(g, o, strlen(o)); for (int i = 0; i < 256; i += 17) put(g, bfdev_toupper(i) * 256 + bfdev_tolower(i)); const char *e, *nm = bfdev_errname(1 + (int)R(g, 30), &e); puts_(g, nm ?: "", nm ? strlen(nm) : 0);
}
static void p_fsm(G *g)
{
    bfdev_fsm_state_t st[3]; bfdev_fsm_transition_t tr[3][4]; memset(st, 0, sizeof st); memset(tr, 0, sizeof tr); for (int i = 0; i < 3; i++) { tr[i][0] = (bfdev_fsm_transition_t){ .type = 1, .stack = 1, .next = &st[(i + 1) % 3] }; tr[i][1] = (bfdev_fsm_transition_t){ .type = 2, .stack = -1 }; tr[i][2] = (bfdev_fsm_transition_t){ .type = 3, .next = &st[(i + 2) % 3] }; st[i].trans = tr[i]; st[i].tnum = 3; }
    bfdev_fsm_t f; bfdev_fsm_init(&f, &g->a, &st[0], NULL); int sp = 0; for (int s = 0; s < 30; s++) { int k = 1 + R(g, 3); if (k == 2 && !sp) k = 1; sp += k == 1 ? 1 : k == 2 ? -1 : 0; bfdev_fsm_event_t e = { .type = k }; yield_(); put(g, (unsigned)bfdev_fsm_handle(&f, &e)); put(g, bfdev_fsm_curr(&f) - st); } bfdev_array_release(&f.stack);
}
static int log_write(bfdev_log_message_t *m, void *p) { yield_(); puts_(p, m->buff, m->length); put(p, m->level); return m->length; }
static void p_log(G *g)
{
    BFDEV_DEFINE_LOG(l, BFDEV_LEVEL_DEFAULT, BFDEV_LEVEL_DEBUG, (R(g, 2) ? BFDEV_LOG_COLOR : 0) | (R(g, 2) ? BFDEV_LOG_LEVEL : 0), log_write, g); for (int s = 0; s < 6; s++) { int v = R(g, 5); unsigned x = R(g, 1u << 30); put(g, (unsigned)(v == 0 ? bfdev_log_core(&l, BFDEV_ERR "error %u\n", x) : v == 1 ? bfdev_log_core(&l, BFDEV_WARNING "warning %x %s\n", x, "text") : v == 2 ? bfdev_log_core(&l, "plain %u", x) : v == 3 ? bfdev_log_core(&l, BFDEV_INFO "%*u\n", (int)R(g, 200), x) : bfdev_log_core(&l, BFDEV_DEBUG "debug\n"))); }
}
static bfdev_notifier_ret_t note(void *a, void *p) { yield_(); put(a, (uintptr_t)p); return (uintptr_t)p % 5 == 4 ? BFDEV_NOTIFI_RET_STOP : BFDEV_NOTIFI_RET_DONE; }
static void p_notify(G *g)
{
    bfdev_notifier_t h; bfdev_notifier_init(&h); bfdev_notifier_node_t n[12]; bool in[12] = {0}; for (int i = 0; i < 12; i++) n[i] = (bfdev_notifier_node_t){ .priority = i * 7 % 12, .entry = note, .pdata = (void *)(uintptr_t)i }; for (int s = 0; s < 20; s++) { int i = R(g, 12); if (R(g, 2)) { if (!in[i]) put(g, (unsigned)bfdev_notifier_register(&h, &n[i])); else bfdev_notifier_unregister(&h, &n[i]); in[i] = !in[i]; } else { unsigned c = 0; put(g, bfdev_notifier_call(&h, g, R(g, 10), &c)); put(g, c); } }
}
static void p_blocks(G *g)
{
    uint64_t mem[300]; memset(mem, 0, sizeof mem); bfdev_memalloc_head_t h; static const bfdev_memalloc_find_t f[] = { bfdev_memalloc_first_fit, bfdev_memalloc_best_fit, bfdev_memalloc_worst_fit }; bfdev_memalloc_init(&h, f[R(g, 3)], mem, sizeof mem); char *p[12] = {0}; for (int s = 0; s < 40; s++) { int i = R(g, 12); yield_(); if (p[i]) { bfdev_memalloc_free(&h, p[i]); p[i] = NULL; } else { size_t n = 1 + R(g, 200); p[i] = bfdev_memalloc_alloc(&h, n); put(g, p[i] ? p[i] - (char *)mem : 1); if (p[i]) memset(p[i], i, n); } }
    uint64_t reg[64]; bfdev_allocpool_t q; bfdev_allocpool_init(&q, reg, sizeof reg); for (int s = 0; s < 12; s++) { size_t n = 1 + R(g, 60); char *b = bfdev_allocpool_alloc(&q, n, 1u << R(g, 4)); put(g, !!b); if (b) memset(b, s, n); yield_(); }
}
typedef BFDEV_DECLARE_FIFO_DYNAMIC(ff_, uint32_t); typedef BFDEV_DECLARE_RINGBUF_DYNAMIC(rr_, uint32_t);
static void p_queue(G *g)
{
    ff_ f = BFDEV_FIFO_DYNAMIC_INIT(&f); rr_ r = BFDEV_RINGBUF_DYNAMIC_INIT(&r); put(g, bfdev_fifo_alloc(&f, &g->a, 8)); put(g, bfdev_ringbuf_alloc(&r, &g->a, 8)); for (int s = 0; s < 50; s++) { uint32_t x = R(g, 1u << 30), y = 0; yield_(); switch (R(g, 4)) { case 0: put(g, bfdev_fifo_put(&f, x)); break; case 1: put(g, bfdev_fifo_get(&f, &y)); put(g, y); break; case 2: bfdev_ringbuf_put(&r, x); break; default: put(g, bfdev_ringbuf_get(&r, &y)); put(g, y); } } bfdev_fifo_free(&f); bfdev_ringbuf_free(&r);
}
static unsigned bl_hash(unsigned f, const void *k, void *p) { yield_(); return pbt_mix(*(const unsigned *)k * 8 + f); }
static void p_bloom(G *g) { bfdev_bloom_t *b = bfdev_bloom_create(&g->a, 32 + R(g, 100), bl_hash, 1 + R(g, 3), NULL); for (int s = 0; s < 40; s++) { unsigned k = R(g, 50); put(g, R(g, 2) ? bfdev_bloom_push(b, &k) : bfdev_bloom_peek(b, &k)); } bfdev_bloom_destroy(b); }
static void p_limit(G *g) { bfdev_ratelimit_t l; bfdev_tokenbucket_t t; bfdev_ratelimit_init(&l, 1 + R(g, 20), 1 + R(g, 5)); bfdev_tokenbucket_init(&t, 1 + R(g, 20), 1 + R(g, 5)); long now = 1; for (int s = 0; s < 60; s++) { now += R(g, 6); put(g, bfdev_ratelimit(&l, now) + 2 * bfdev_tokenbucket(&t, now)); if (!(s & 7)) yield_(); } }
static void p_bits(G *g) { BFDEV_DEFINE_BITMAP(a, 200); BFDEV_DEFINE_BITMAP(b, 200); memset(a, 0, sizeof a); memset(b, 0, sizeof b); for (int s = 0; s < 30; s++) { unsigned o = R(g, 190), n = 1 + R(g, 200 - o); switch (R(g, 5)) { case 0: bfdev_bitmap_set(a, o, n); break; case 1: bfdev_bitmap_clr(b, o, n); break; case 2: bfdev_bitmap_xor(b, a, b, 192); break; case 3: bfdev_bitmap_shl(a, b, o, 192); break; default: bfdev_bitmap_complement(a, b, 192); } put(g, bfdev_bitmap_full(a, 192) + 2 * bfdev_bitmap_empty(b, 192)); puts_(g, a, 24); puts_(g, b, 24); if (!(s & 7)) yield_(); } }
typedef struct { bfdev_list_head_t l; int k, id; } ln_t; static long l_cmp(const bfdev_list_head_t *a, const bfdev_list_head_t *b, void *p) { yield_(); int x = bfdev_list_entry(a, ln_t, l)->k, y = bfdev_list_entry(b, ln_t, l)->k; return (x > y) - (x < y); }
static void p_list(G *g) { BFDEV_LIST_HEAD(h); ln_t n[50]; int c = R(g, 50); for (int i = 0; i < c; i++) { n[i].k = R(g, 20); n[i].id = i; if (R(g, 2)) bfdev_list_add(&h, &n[i].l); else bfdev_list_add_prev(&h, &n[i].l); } bfdev_list_sort(&h, l_cmp, NULL); ln_t *p; bfdev_list_for_each_entry(p, &h, l) put(g, p->k * 100 + p->id); }
static void (*const prog[])(G *) = { p_digest, p_crc, p_base, p_stream, p_mpi, p_matrix, p_array, p_btree, p_hashmap, p_skip, p_radix, p_rb, p_heap, p_seg, p_sort, p_cache, p_text, p_words, p_fsm, p_log, p_notify, p_blocks, p_queue, p_bloom, p_limit, p_bits, p_list };
static const char *const pname[] = { "digests", "checksums", "encodings", "streams", "integers", "matrices", "arrays", "B-trees", "hash maps", "skip lists", "radix arrays", "red-black trees", "heaps", "segment trees", "sorting", "caches", "text search", "texts", "state machines", "logs", "notifiers", "memory blocks", "queues", "Bloom filters", "limits", "bitmaps", "lists" };
enum { NP = sizeof prog / sizeof *prog, MAXI = 12 };
static uint64_t run(int kind, uint64_t seed) { G g = { .s = seed, .a = { .ops = &al_ops } }; g.a.pdata = &g; prog[kind](&g); put(&g, g.live); return g.h; }
/* ---- what happens at a point where other work may come in */
static struct { int kind; uint64_t seed, want; } item[MAXI]; static int ni; static __thread int depth; static __thread uint64_t plan; static __thread int budget, nested; static __thread const char *bad; static int mode_yield;
static void check(int i, const char *how) { uint64_t h = run(item[i].kind, item[i].seed); if (h != item[i].want && !bad) { static __thread char buf[120]; snprintf(buf, sizeof buf, "%s (%d) behave differently %s", pname[item[i].kind], i, how); bad = buf; } }
static void yield_(void)
{
    if (budget > 0 && depth < 3) { plan = pbt_mix(plan + 0x9e37); if (plan % 5) return; budget--; nested++; depth++; check(plan / 5 % ni, "inside another operation"); depth--; }
    else if (mode_yield && budget < 0) { plan = pbt_mix(plan + 0x79b9); if (plan % 61 == 0) sched_yield(); }
}
typedef struct { int first, n; uint64_t plan; int budget; const char *bad; pthread_barrier_t *bar; } th_t;
static void *body(void *p) { th_t *t = p; pthread_barrier_wait(t->bar); plan = t->plan; budget = t->budget; depth = 0; bad = NULL; for (int i = 0; i < t->n && !bad; i++) check((t->first + i) % ni, "while other threads work on objects of their own"); if (bad) t->bad = strdup(bad); return NULL; }
void pbt_begin(void) { bfdev_log_default.record_level = 0; }
void pbt_case(void)
{
    ni = d_range(2, 8); budget = 0; depth = 0; bad = NULL; mode_yield = 0; bool same = d_chance(1, 3); int k0 = d_u64(NP - 1);
    for (int i = 0; i < ni; i++) { item[i].kind = same ? k0 : d_u64(NP - 1); item[i].seed = d_u64(1 << 30); item[i].want = run(item[i].kind, item[i].seed); TRACE("%s, seed %llu", pname[item[i].kind], (unsigned long long)item[i].seed); pbt_class(pname[item[i].kind]); }
    CHECK(run(item[0].kind, item[0].seed) == item[0].want, "%s behave differently the second time", pname[item[0].kind]);
#ifdef __SANITIZE_THREAD__
    bool threads = d_chance(9, 10);
#else
    bool threads = d_chance(1, 6);
#endif
    if (threads) {
        int nt = d_range(2, 4); pthread_t id[4]; th_t t[4]; pthread_barrier_t bar; pthread_barrier_init(&bar, NULL, nt); TRACE("%d threads", nt); mode_yield = d_bool(); for (int i = 0; i < nt; i++) t[i] = (th_t){ d_u64(ni - 1), d_range(1, 6), d_u64(1 << 30), d_bool() ? -1 : (int)d_u64(5), NULL, &bar };
        for (int i = 0; i < nt; i++) if (pthread_create(&id[i], NULL, body, &t[i])) abort(); for (int i = 0; i < nt; i++) pthread_join(id[i], NULL); pthread_barrier_destroy(&bar); const char *b = NULL; for (int i = 0; i < nt; i++) if (t[i].bad && !b) b = t[i].bad; if (b) { char m[160]; snprintf(m, sizeof m, "%s", b); for (int i = 0; i < nt; i++) free((void *)t[i].bad); CHECK(0, "%s", m); } pbt_class("threads"); pbt_nontrivial();
    } else {
        plan = d_u64(1 << 30); budget = d_range(1, 12); nested = 0; TRACE("nested"); for (int i = 0; i < ni && !bad; i++) check(i, "while other operations run inside it"); budget = 0; CHECK(!bad, "%s", bad); if (nested > 1) pbt_nontrivial(); pbt_class("nested");
    }
}

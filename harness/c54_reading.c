#include "pbt.h"
#include <pthread.h>
#include <sys/mman.h>
#include <bfdev/allocator.h>
#include <bfdev/array.h>
#include <bfdev/argv.h>
#include <bfdev/ascii85.h>
#include <bfdev/base32.h>
#include <bfdev/base64.h>
#include <bfdev/bitmap.h>
#include <bfdev/bitwalk.h>
#include <bfdev/bloom.h>
#include <bfdev/bsearch.h>
#include <bfdev/btree.h>
#include <bfdev/cache.h>
#include <bfdev/crc.h>
#include <bfdev/arc4.h>
#include <bfdev/fifo.h>
#include <bfdev/fsm.h>
#include <bfdev/hashmap.h>
#include <bfdev/heap.h>
#include <bfdev/hlist.h>
#include <bfdev/ilist.h>
#include <bfdev/jhash.h>
#include <bfdev/levenshtein.h>
#include <bfdev/list.h>
#include <bfdev/log.h>
#include <bfdev/matrix.h>
#include <bfdev/md5.h>
#include <bfdev/mpi.h>
#include <bfdev/radix.h>
#include <bfdev/rbtree.h>
#include <bfdev/refcount.h>
#include <bfdev/respool.h>
#include <bfdev/ringbuf.h>
#include <bfdev/segtree.h>
#include <bfdev/sha1.h>
#include <bfdev/sha2.h>
#include <bfdev/skiplist.h>
#include <bfdev/slist.h>
#include <bfdev/string.h>
#include <bfdev/stringhash.h>
#include <bfdev/textsearch.h>
#include <bfdev/notifier.h>
#include <bfdev/scnprintf.h>
#include <bfdev/unaligned.h>
const char *const pbt_id = "C54", *const pbt_rule = "";
/* Everything that may only be read lies in an arena, which is sealed while it is read: a write ends the case with a fault. */
#define ARENA (16ul << 20)
static uint8_t *ar; static size_t used; static bool sealed;
static void *ar_get(size_t n, void *p) { CHECK(!sealed, "memory for the structure is requested while it is only read"); n = (n + 31) & ~15ul; if (used + n > ARENA) return NULL; void *r = ar + used; used += n; *(size_t *)r = n - 16; MSAN_UNDEF((char *)r + 16, n - 16); return (char *)r + 16; }
static void *ar_zget(size_t n, void *p) { void *r = ar_get(n, p); if (r) memset(r, 0, n); return r; }
static void ar_free(void *b, void *p) { CHECK(!sealed || !b, "memory of the structure is released while it is only read"); }
static void *ar_resize(void *b, size_t n, void *p) { void *r = ar_get(n, p); if (r && b) { size_t o = ((size_t *)b)[-2]; memcpy(r, b, o < n ? o : n); } return r; }
static bfdev_alloc_ops_t *aops; static bfdev_alloc_t *A;
#define NEW(T) ((T *)memset(ar_get(sizeof(T), 0), 0, sizeof(T)))
static void seal(bool on) { sealed = on; CHECK(!mprotect(ar, (used + 4095) & ~4095ul, on ? PROT_READ : PROT_READ | PROT_WRITE), "mprotect"); }
/* what a reading observes, and the choices it makes */
static __thread uint64_t D, S_; static __thread unsigned O_;
static void obs(uint64_t x) { D = pbt_mix(D * 31 + x); O_++; }
static unsigned rnd(unsigned n) { S_ = pbt_mix(S_ + 0x9e37); return (S_ >> 20) % n; }
static void obsb(const void *p, size_t n) { const uint8_t *b = p; obs(n); for (size_t i = 0; i < n; i++) D = (D ^ b[i]) * 0x100000001b3ul; }
typedef struct { long key; unsigned long lo, hi, sub; int id; union { bfdev_rb_node_t rb; bfdev_heap_node_t hp; bfdev_list_head_t l; bfdev_slist_head_t s; bfdev_hlist_node_t h; bfdev_ilist_node_t il; bfdev_respool_node_t rp; }; } nd_t;
static int n; static nd_t *nd;
#define CMP3(x, y) ((x) < (y) ? -1 : (x) > (y))
static void nodes(long range) { n = d_chance(1, 6) ? d_range(0, 3) : d_range(1, 60); nd = ar_get((n + 1) * sizeof *nd, 0); memset(nd, 0, (n + 1) * sizeof *nd); for (int i = 0; i < n; i++) nd[i].id = i, nd[i].key = d_u64(range); }
static void *O; static int var_; /* the structure and its variant */
/* array */
static void b_array(void) { bfdev_array_t *a = NEW(bfdev_array_t); size_t c = d_range(1, 20); bfdev_array_init(a, A, c); for (int i = d_u64(40); i--; ) { uint8_t *p = bfdev_array_push(a, 1); for (size_t j = 0; j < c; j++) p[j] = d_u64(255); } O = a; }
static void q_array(void) { bfdev_array_t *a = O; for (int i = 8; i--; ) { unsigned k = rnd(50); void *p = bfdev_array_peek(a, k); obs(!!p); if (p && k) obsb(p, k * a->cells); obs(bfdev_array_index(a)); obs(bfdev_array_size(a)); obs(bfdev_array_offset(a, k)); if (k < a->index) obsb((char *)bfdev_array_data(a, k), a->cells); } }
/* queues */
typedef BFDEV_DECLARE_FIFO_DYNAMIC(ff_t_, uint32_t); typedef BFDEV_DECLARE_RINGBUF_DYNAMIC(rr_t_, uint32_t); typedef BFDEV_DECLARE_FIFO_DYNAMIC_RECORD(fr_t_, uint8_t, 2); typedef BFDEV_DECLARE_RINGBUF_DYNAMIC_RECORD(rc_t_, uint8_t, 2);
#define QB(T, K, I) { T *q = NEW(T); *q = (T)I(q); CHECK(!bfdev_##K##_alloc(q, A, 64), "creation"); for (int i = d_u64(30); i--; ) { typeof(*q->data) x[4] = { d_u64(255), i, 3, 4 }; if (d_chance(1, 4)) { bfdev_##K##_out(q, x, 3); } else if (d_bool()) bfdev_##K##_in(q, x, 3); else { typeof(*q->data) y = x[0]; bfdev_##K##_put(q, y); } } O = q; }
#define QQ(T, K) { T *q = O; for (int i = 4; i--; ) { typeof(*q->data) y = 0, b[80]; memset(b, 0, sizeof b); obs(bfdev_##K##_len(q)); obs(bfdev_##K##_check_empty(q)); obs(bfdev_##K##_check_full(q)); obs(bfdev_##K##_size(q)); obs(bfdev_##K##_esize(q)); obs(bfdev_##K##_initialized(q)); obs(bfdev_##K##_check_dynamic(q)); obs(bfdev_##K##_peek(q, &y)); obs(y); obs(bfdev_##K##_out_peek(q, b, rnd(70))); obsb(b, sizeof b); } }
static void b_queue(void) { var_ = d_u64(3); switch (var_) { case 0: QB(ff_t_, fifo, BFDEV_FIFO_DYNAMIC_INIT) break; case 1: QB(rr_t_, ringbuf, BFDEV_RINGBUF_DYNAMIC_INIT) break; case 2: QB(fr_t_, fifo, BFDEV_FIFO_DYNAMIC_INIT) break; default: QB(rc_t_, ringbuf, BFDEV_RINGBUF_DYNAMIC_INIT) } }
static void q_queue(void) { switch (var_) { case 0: QQ(ff_t_, fifo) break; case 1: QQ(rr_t_, ringbuf) break; case 2: QQ(fr_t_, fifo) break; default: QQ(rc_t_, ringbuf) } }
/* lists */
static void b_list(void) { nodes(50); bfdev_list_head_t *h = NEW(bfdev_list_head_t); bfdev_list_head_init(h); for (int i = 0; i < n; i++) if (d_bool()) bfdev_list_add(h, &nd[i].l); else bfdev_list_add_prev(h, &nd[i].l); O = h; }
static void q_list(void) { bfdev_list_head_t *h = O, *p, *t; nd_t *e, *f; obs(bfdev_list_check_empty(h)); bfdev_list_for_each_entry(e, h, l) { obs(e->id); obs(bfdev_list_check_first(h, &e->l)); obs(bfdev_list_check_end(h, &e->l)); obs(bfdev_list_check_another(h, &e->l)); obs(bfdev_list_check_head(h, &e->l)); } bfdev_list_for_each_entry_reverse(e, h, l) obs(e->id); bfdev_list_for_each_safe(p, t, h) obs(bfdev_list_entry(p, nd_t, l)->id); bfdev_list_for_each_entry_reverse_safe(e, f, h, l) obs(e->id); e = bfdev_list_first_entry_or_null(h, nd_t, l); obs(e ? e->id : -1); e = bfdev_list_last_entry_or_null(h, nd_t, l); obs(e ? e->id : -1); }
static void b_slist(void) { nodes(50); bfdev_slist_head_t *h = NEW(bfdev_slist_head_t); bfdev_slist_head_init(h); for (int i = 0; i < n; i++) bfdev_slist_add(h, &nd[i].s); O = h; }
static void q_slist(void) { bfdev_slist_head_t *h = O, *p; nd_t *e, *f; obs(bfdev_slist_check_empty(h)); bfdev_slist_for_each(p, h) { obs(bfdev_slist_check_first(h, p)); obs(bfdev_slist_check_end(p)); obs(bfdev_slist_check_another(h, p)); } bfdev_slist_for_each_entry(e, h, s) obs(e->id); bfdev_slist_for_each_entry_safe(e, f, h, s) obs(e->id); }
static void b_hlist(void) { nodes(50); bfdev_hlist_head_t *h = NEW(bfdev_hlist_head_t); bfdev_hlist_head_init(h); for (int i = 0; i < n; i++) { bfdev_hlist_node_init(&nd[i].h); bfdev_hlist_head_add(h, &nd[i].h); } O = h; }
static void q_hlist(void) { bfdev_hlist_head_t *h = O; nd_t *e; bfdev_hlist_node_t *p; obs(bfdev_hlist_check_empty(h)); bfdev_hlist_for_each(p, h) { obs(bfdev_hlist_check_first(h, p)); obs(bfdev_hlist_check_end(p)); obs(bfdev_hlist_check_another(h, p)); obs(bfdev_hlist_check_unhashed(p)); } bfdev_hlist_for_each_entry(e, h, h) obs(e->id); }
static long icmp(const bfdev_ilist_node_t *a, const bfdev_ilist_node_t *b, void *p) { long x = bfdev_ilist_entry(a, nd_t, il)->key, y = bfdev_ilist_entry(b, nd_t, il)->key; return CMP3(x, y); }
static void b_ilist(void) { nodes(9); bfdev_ilist_head_t *h = NEW(bfdev_ilist_head_t); bfdev_ilist_head_init(h); for (int i = 0; i < n; i++) { bfdev_ilist_node_init(&nd[i].il); bfdev_ilist_add(h, &nd[i].il, icmp, NULL); } O = h; }
static void q_ilist(void) { bfdev_ilist_head_t *h = O; nd_t *e, *f; obs(bfdev_ilist_head_empty(h)); bfdev_ilist_for_each_entry(e, h, il) { obs(e->id); obs(bfdev_ilist_node_empty(&e->il)); } bfdev_ilist_for_each_entry_reverse(e, h, il) obs(e->id); bfdev_ilist_for_each_entry_safe(e, f, h, il) obs(e->id); }
/* trees */
static long rcmp(const bfdev_rb_node_t *a, const bfdev_rb_node_t *b, void *p) { long x = bfdev_rb_entry(a, nd_t, rb)->key, y = bfdev_rb_entry(b, nd_t, rb)->key; return x < y ? -1 : 1; } static long rfind(const bfdev_rb_node_t *a, const void *k) { long x = bfdev_rb_entry(a, nd_t, rb)->key, y = *(const long *)k; return CMP3(x, y); }
static void b_rb(void) { nodes(60); var_ = d_bool(); bfdev_rb_root_cached_t *r = NEW(bfdev_rb_root_cached_t); bfdev_rb_cache_init(r); for (int i = 0; i < n; i++) if (var_) bfdev_rb_cached_insert(r, &nd[i].rb, rcmp, NULL); else bfdev_rb_insert(&r->root, &nd[i].rb, rcmp, NULL); O = r; }
static void rbid(const bfdev_rb_node_t *p) { obs(p ? bfdev_rb_entry(p, nd_t, rb)->id : -1); }
static void q_rb(void)
{
    bfdev_rb_root_cached_t *c = O; bfdev_rb_root_t *r = &c->root; bfdev_rb_node_t *p, *t, *par, **link; bool left; nd_t *e;
    for (int i = 8; i--; ) { long k = rnd(64); p = bfdev_rb_find(r, &k, rfind); rbid(p); p = bfdev_rb_find_last(r, &k, rfind, &par, &link, &left); rbid(p); if (!p) rbid(par); }
    rbid(bfdev_rb_first(r)); rbid(bfdev_rb_last(r)); bfdev_rb_for_each(p, r) { rbid(p); rbid(bfdev_rb_prev(p)); rbid(bfdev_rb_left_far(p)); rbid(bfdev_rb_right_far(p)); rbid(bfdev_rb_left_deep(p)); rbid(bfdev_rb_right_deep(p)); } bfdev_rb_for_each_reverse(p, r) rbid(p); bfdev_rb_pre_for_each(p, r) rbid(p); bfdev_rb_post_for_each(p, r) rbid(p); bfdev_rb_post_for_each_safe(p, t, r) rbid(p); bfdev_rb_for_each_entry(e, r, rb) obs(e->key); if (var_) { rbid(c->leftmost); bfdev_rb_cached_for_each_entry(e, c, rb) obs(e->id); }
}
typedef struct { int id; bfdev_segtree_node_t s; } sg_t; static sg_t *sg;
static void b_seg(void) { nodes(100); sg = ar_get((n + 1) * sizeof *sg, 0); memset(sg, 0, (n + 1) * sizeof *sg); bfdev_rb_root_cached_t *r = NEW(bfdev_rb_root_cached_t); for (int i = 0; i < n; i++) { sg[i].id = i; sg[i].s.start = nd[i].key; sg[i].s.end = nd[i].key + d_u64(20); bfdev_segtree_insert(r, &sg[i].s); } O = r; }
static void q_seg(void) { for (int i = 5; i--; ) { unsigned long a = rnd(120), b = a + rnd(15); for (bfdev_segtree_node_t *p = bfdev_segtree_first(O, a, b); p; p = bfdev_segtree_next(p, a, b)) obs(bfdev_container_of(p, sg_t, s)->id); obs(-1); } }
static long hcmp(const bfdev_heap_node_t *a, const bfdev_heap_node_t *b, void *p) { long x = bfdev_heap_entry(a, nd_t, hp)->key, y = bfdev_heap_entry(b, nd_t, hp)->key; return CMP3(x, y); }
static void b_heap(void) { nodes(60); bfdev_heap_root_t *r = NEW(bfdev_heap_root_t); bfdev_heap_init(r); for (int i = 0; i < n; i++) bfdev_heap_insert(r, &nd[i].hp, hcmp, NULL); O = r; }
static void hid(const bfdev_heap_node_t *p) { obs(p ? bfdev_heap_entry(p, nd_t, hp)->id : -1); }
static void q_heap(void) { bfdev_heap_root_t *r = O; bfdev_heap_node_t *p; unsigned long ix; for (int i = 6; i--; ) hid(bfdev_heap_find(r, 1 + rnd(n + 3))); bfdev_heap_for_each(p, &ix, r) { hid(p); hid(bfdev_heap_left_far(p)); hid(bfdev_heap_right_deep(p)); } bfdev_heap_post_for_each(p, r) hid(p); obs(BFDEV_HEAP_ROOT_COUNT(r)); }
static void b_btree(void) { nodes(1000); bfdev_btree_ops_t *o = NEW(bfdev_btree_ops_t); *o = (bfdev_btree_ops_t){ .alloc = bfdev_btree_alloc, .free = bfdev_btree_free, .find = bfdev_btree_key_find }; bfdev_btree_layout_t *L = NEW(bfdev_btree_layout_t); *L = bfdev_btree_layoutptr; bfdev_btree_root_t *t = NEW(bfdev_btree_root_t); bfdev_btree_init(t, L, o, NULL); t->alloc = A; for (int i = 0; i < n; i++) { uintptr_t k = nd[i].key + 1; bfdev_btree_insert(t, &k, &nd[i]); } O = t; }
static void q_btree(void) { bfdev_btree_root_t *t = O; uintptr_t k; nd_t *v; for (int i = 8; i--; ) { k = n && rnd(2) ? nd[rnd(n)].key + 1 : rnd(1100) + 1; v = bfdev_btree_lookup(t, &k); obs(v ? v->id : -1); obs(k); } bfdev_btree_for_each(t, &k, v) { obs(k); obs(v->id); } bfdev_btree_for_each_reverse(t, &k, v) { obs(k); obs(v->id); } }
static long scmp(const void *a, const void *b, void *p) { return CMP3(((nd_t *)a)->key, ((nd_t *)b)->key); } static long sfind(const void *a, void *p) { return CMP3(((nd_t *)a)->key, *(long *)p); }
static void b_skip(void) { nodes(60); bfdev_skip_head_t *h = bfdev_skiplist_create(A, d_range(1, 6)); CHECK(h, "creation"); for (int i = 0; i < n; i++) CHECK(!bfdev_skiplist_insert(h, &nd[i], scmp, NULL), "insertion"); O = h; }
static void q_skip(void) { bfdev_skip_head_t *h = O; bfdev_skip_node_t *p; for (int i = 8; i--; ) { long k = rnd(64); p = bfdev_skiplist_find(h, sfind, &k); obs(p ? ((nd_t *)p->key)->id : -1); } for (unsigned l = 0; l < h->levels; l++) { bfdev_skiplist_for_each(p, h, l) obs(((nd_t *)p->key)->id); bfdev_skiplist_for_each_reverse(p, h, l) obs(((nd_t *)p->key)->id); } }
typedef BFDEV_DECLARE_RADIX(radix_, uint32_t);
static void b_radix(void) { radix_ *r = NEW(radix_); r->tree.alloc = A; int far_ = d_u64(30); for (int i = d_u64(20); i--; ) { uint32_t *p = bfdev_radix_alloc(r, d_u64((1ul << far_) + 40)); CHECK(p, "allocation"); *p = d_u64(999); } O = r; var_ = far_; }
static void q_radix(void) { radix_ *r = O; uintptr_t ix; uint32_t *p; for (int i = 8; i--; ) { p = bfdev_radix_find(r, rnd((1u << var_) + 60)); obs(p ? *p : -1); } int c = 0; bfdev_radix_for_each(p, r, &ix) { obs(ix); obs(*p); if (++c > 60) break; } c = 0; bfdev_radix_for_each_reverse(p, r, &ix) { obs(ix); obs(*p); if (++c > 60) break; } }
/* hashing */
static unsigned long hk(const void *k, void *p) { return *(const long *)k * 7; } static unsigned long hn(const bfdev_hlist_node_t *x, void *p) { return bfdev_hlist_entry(x, nd_t, h)->key * 7; } static long he(const bfdev_hlist_node_t *a, const bfdev_hlist_node_t *b, void *p) { return bfdev_hlist_entry(a, nd_t, h)->key != bfdev_hlist_entry(b, nd_t, h)->key; } static long hf(const bfdev_hlist_node_t *a, const void *k, void *p) { return bfdev_hlist_entry(a, nd_t, h)->key != *(const long *)k; }
static void b_hash(void) { nodes(80); bfdev_hashmap_ops_t *o = NEW(bfdev_hashmap_ops_t); *o = (bfdev_hashmap_ops_t){ .hash_key = hk, .hash_node = hn, .equal = he, .find = hf }; bfdev_hashmap_t *m = NEW(bfdev_hashmap_t); bfdev_hashmap_init(m, A, o, NULL); for (int i = 0; i < n; i++) { bfdev_hlist_node_init(&nd[i].h); bfdev_hashmap_add(m, &nd[i].h); } for (int i = 0; i < n; i++) if (d_chance(1, 3)) bfdev_hashmap_del(m, &nd[i].key, NULL); O = m; }
static void q_hash(void) { bfdev_hashmap_t *m = O; nd_t *e; unsigned long ix; for (int i = 12; i--; ) { long k = rnd(85); bfdev_hlist_node_t *p = bfdev_hashmap_find(m, &k); obs(p ? bfdev_hlist_entry(p, nd_t, h)->id : -1); } if (m->buckets) { bfdev_hashmap_for_each_entry(e, m, h, ix) obs(e->id);  } }
static unsigned bh(unsigned f, const void *k, void *p) { return pbt_mix(*(const long *)k * 9 + f); }
static void b_bloom(void) { nodes(90); bfdev_bloom_t *b = bfdev_bloom_create(A, d_range(10, 500), bh, d_range(1, 5), NULL); CHECK(b, "creation"); for (int i = 0; i < n; i++) bfdev_bloom_push(b, &nd[i].key); O = b; }
static void q_bloom(void) { for (int i = 12; i--; ) { long k = rnd(95); obs(bfdev_bloom_peek(O, &k)); } }
static unsigned long vhash(const void *t, void *p) { return (uintptr_t)t; } static long vfind(const void *d, const void *t, void *p) { return d != t; }
static void b_cache(void) { nodes(30); bfdev_cache_ops_t *o = NEW(bfdev_cache_ops_t); *o = (bfdev_cache_ops_t){ vhash, vfind }; bfdev_cache_head_t *h = bfdev_cache_create(d_bool() ? "lru" : "lfu", A, o, d_range(2, 16), 20, NULL); CHECK(h, "creation"); for (int i = 0; i < n; i++) { bfdev_cache_node_t *e = bfdev_cache_get(h, (void *)(nd[i].key + 1)); if (!e) break; if (e->status == BFDEV_CACHE_PENDING) { e->data = (void *)(nd[i].key + 1); if (d_chance(7, 8)) bfdev_cache_committed(h); } if (d_bool()) bfdev_cache_put(h, e); } O = h; }
static void q_cache(void) { for (int i = 12; i--; ) { bfdev_cache_node_t *e = bfdev_cache_find(O, (void *)(uintptr_t)(1 + rnd(33))); obs(e ? e->index : -1); } }
static long pfind(bfdev_respool_node_t *p, void *k) { return bfdev_container_of(p, nd_t, rp)->key != *(long *)k; }
static void b_pool(void) { nodes(30); bfdev_respool_t *p = NEW(bfdev_respool_t); bfdev_respool_init(p); for (int i = 0; i < n; i++) bfdev_respool_insert(p, &nd[i].rp); O = p; }
static void q_pool(void) { for (int i = 8; i--; ) { long k = rnd(33); bfdev_respool_node_t *p = bfdev_respool_find(O, pfind, &k); obs(p ? bfdev_container_of(p, nd_t, rp)->id : -1); } obs(bfdev_respool_check_empty(O)); }
/* bits */
static unsigned long *bm[3]; static unsigned bits;
static void b_bits(void) { bits = d_range(1, 300); for (int j = 0; j < 3; j++) { bm[j] = ar_get((bits / 64 + 1) * 8, 0); for (unsigned i = 0; i <= bits / 64; i++) bm[j][i] = j && d_bool() ? bm[0][i] : d_edge64(); } }
static void q_bits(void)
{
    unsigned long t[8]; unsigned x = rnd(bits), w = bits / 64 + 1; const unsigned long *a = bm[0], *b = bm[1], *c = bm[2]; memset(t, 0, sizeof t);
    #define T_ obsb(t, w * 8)
    obs(bfdev_bitmap_empty(a, bits)); obs(bfdev_bitmap_full(a, bits)); obs(bfdev_bitmap_equal(a, b, bits)); obs(bfdev_bitmap_or_equal(a, b, c, bits)); obs(bfdev_bitmap_intersects(a, b, bits)); obs(bfdev_find_first_bit(a, bits)); obs(bfdev_find_last_bit(a, bits)); obs(bfdev_find_first_zero(a, bits)); obs(bfdev_find_last_zero(a, bits)); obs(bfdev_find_next_bit(a, bits, x)); obs(bfdev_find_prev_bit(a, bits, x)); obs(bfdev_find_next_zero(a, bits, x)); obs(bfdev_find_prev_zero(a, bits, x)); obs(bfdev_find_next_and_bit(a, b, bits, x)); obs(bfdev_find_prev_and_bit(a, b, bits, x));
    obs(bfdev_bitmap_and(t, a, b, bits)); T_; obs(bfdev_bitmap_andnot(t, a, b, bits)); T_; bfdev_bitmap_or(t, a, b, bits); T_; bfdev_bitmap_xor(t, a, b, bits); T_; bfdev_bitmap_shl(t, a, x, bits); T_; bfdev_bitmap_shr(t, a, x, bits); T_; bfdev_bitmap_complement(t, a, bits); T_; bfdev_bitmap_comp_replace(t, a, b, c, bits); T_; bfdev_bitmap_copy(t, (unsigned long *)a, bits); T_;
}
/* numbers */
static bfdev_mpi_t *mv[3];
static void b_mpi(void) { for (int j = 0; j < 3; j++) { mv[j] = NEW(bfdev_mpi_t); *mv[j] = BFDEV_MPI_INIT(A); BFDEV_MPI_TYPE w[8]; int c = d_chance(1, 6) ? 0 : d_range(1, 8); for (int i = 0; i < c; i++) w[i] = d_edge64(); if (j && d_chance(1, 4)) bfdev_mpi_set(mv[j], mv[0]); else CHECK(!bfdev_mpi_import(mv[j], w, c, d_bool()), "import"); } }
static void mobs(bfdev_mpi_t *v) { bool s; const BFDEV_MPI_TYPE *p = bfdev_mpi_data(v, &s); obs(s); obsb(p, v->value.index * sizeof *p); }
static void q_mpi(void)
{
    const bfdev_mpi_t *a = mv[rnd(3)], *b = mv[rnd(3)]; BFDEV_DEFINE_MPI(x, NULL); BFDEV_DEFINE_MPI(y, NULL); BFDEV_MPI_TYPE i = rnd(3) ? rnd(100) + 1 : ~0ull / (rnd(9) + 1); int r;
    #define R1(e) r = e; obs(r); if (!r) mobs(&x)
    obs(bfdev_mpi_cmp(a, b)); obs(bfdev_mpi_cmpi(a, i)); R1(bfdev_mpi_add(&x, a, b)); R1(bfdev_mpi_sub(&x, a, b)); R1(bfdev_mpi_mul(&x, a, b)); R1(bfdev_mpi_div(&x, &y, a, b)); if (!r) mobs(&y); R1(bfdev_mpi_mod(&x, a, b)); R1(bfdev_mpi_addi(&x, a, i)); R1(bfdev_mpi_subi(&x, a, i)); R1(bfdev_mpi_muli(&x, a, i)); R1(bfdev_mpi_divi(&x, &y, a, i)); R1(bfdev_mpi_modi(&x, a, i)); R1(bfdev_mpi_and(&x, a, b)); R1(bfdev_mpi_or(&x, a, b)); R1(bfdev_mpi_xor(&x, a, b)); R1(bfdev_mpi_shli(&x, a, rnd(200))); R1(bfdev_mpi_shri(&x, a, rnd(200))); R1(bfdev_mpi_set(&x, a)); mobs((bfdev_mpi_t *)a);
    bfdev_mpi_release(&x); bfdev_mpi_release(&y);
}
static bfdev_matrix_t *xv[2];
static void b_matrix(void) { unsigned m = d_range(1, 6); for (int j = 0; j < 2; j++) { xv[j] = NEW(bfdev_matrix_t); bfdev_matrix_init(xv[j], A); BFDEV_MATRIX_TYPE w[36]; for (int i = 0; i < 36; i++) w[i] = d_u64(1000); CHECK(!bfdev_matrix_import(xv[j], w, m, m), "import"); } }
static void xobs(bfdev_matrix_t *x) { for (unsigned i = 0; i < x->row; i++) for (unsigned j = 0; j < x->col; j++) obs(*bfdev_matrix_data(x, i, j)); }
static void q_matrix(void) { const bfdev_matrix_t *a = xv[rnd(2)], *b = xv[rnd(2)]; bfdev_matrix_t x; bfdev_matrix_init(&x, NULL); int r; r = bfdev_matrix_add(&x, a, b); obs(r); xobs(&x); r = bfdev_matrix_sub(&x, a, b); obs(r); xobs(&x); r = bfdev_matrix_mul(&x, a, b); obs(r); xobs(&x); r = bfdev_matrix_trans(&x, a); obs(r); xobs(&x); r = bfdev_matrix_set(&x, a); obs(r); xobs(&x); xobs((bfdev_matrix_t *)a); bfdev_matrix_release(&x); }
/* data that is encoded, digested, compared or searched, up to the last byte of the arena */
static uint8_t *data; static size_t len; static char *str, *str2;
static void b_data(void) { len = d_size(300); data = ar_get(len, 0); for (size_t i = 0; i < len; i++) data[i] = d_chance(1, 4) ? d_u64(3) : d_u64(255); str = ar_get(41, 0); str2 = ar_get(41, 0); int c = d_u64(40), e = d_u64(40); for (int i = 0; i < c; i++) str[i] = d_chance(1, 4) ? ' ' : d_range('a', 'd'); str[c] = 0; for (int i = 0; i < e; i++) str2[i] = d_range('a', 'd'); str2[e] = 0; }
static void q_data(void)
{
    uint8_t *o = malloc(len * 2 + 64), *q = malloc(len * 2 + 64); memset(o, 0, len * 2 + 64); memset(q, 0, len * 2 + 64); size_t l = 0;
    bfdev_base32_encode(o, data, len); obsb(o, len * 2); bfdev_base64_encode(o, data, len); obsb(o, len); bfdev_ascii85_encode(o, data, &l, len); obsb(o, l);
    obs(bfdev_crc4(data, len, 1)); obs(bfdev_crc7(data, len, 1)); obs(bfdev_crc8(data, len, 1)); obs(bfdev_crc16(data, len, 1)); obs(bfdev_crc32(data, len, 1)); obs(bfdev_crc64(data, len, 1)); obs(bfdev_crc_ccitt(data, len, 1)); obs(bfdev_crc_itut(data, len, 1)); obs(bfdev_crc_t10dif(data, len, 1)); obs(bfdev_crc_rocksoft(data, len, 1)); obs(bfdev_jhash(data, len, 5)); obs(bfdev_pjwhash(str));
    bfdev_md5_ctx_t m; uint8_t dg[64] = {}; bfdev_md5_init(&m); bfdev_md5_update(&m, (char *)data, len); bfdev_md5_finish(&m, dg); obsb(dg, 16); bfdev_sha1_ctx_t s; bfdev_sha1_init(&s); bfdev_sha1_update(&s, (char *)data, len); bfdev_sha1_finish(&s, dg); obsb(dg, 20); bfdev_sha2_ctx_t t; bfdev_sha256_init(&t); bfdev_sha2_update(&t, (char *)data, len); bfdev_sha256_finish(&t, dg); obsb(dg, 32);
    if (len) { bfdev_arc4_ctx_t c; bfdev_arc4_setkey(&c, data, len > 256 ? 256 : len); bfdev_arc4_trans(&c, o, data, len); obsb(o, len); }
    obs(bfdev_argv_count(str)); unsigned ac = 0; char **av = bfdev_argv_split(NULL, str, &ac); obs(ac); for (unsigned i = 0; i < ac; i++) obsb(av[i], strlen(av[i])); bfdev_argv_destroy(NULL, av);
    obs(bfdev_levenshtein(NULL, str, str2, 1, 1, 1, 1)); obs(bfdev_levenshtein_len(NULL, str, str2, strlen(str) / 2, strlen(str2), 2, 1, 1, 3)); char *x = bfdev_strdup(NULL, str); obsb(x, strlen(x)); bfdev_free(NULL, x); x = bfdev_strndup(NULL, str, rnd(50)); obsb(x, strlen(x)); bfdev_free(NULL, x); if (len) { char *f = bfdev_memdiff(data, data[0], len); obs(f ? f - (char *)data : -1); } char *g = bfdev_strdiff(str, 'a'); obs(g ? g - str : -1);
    free(o); free(q);
}
static bfdev_ts_context_t *TS; typedef struct { const uint8_t *p; unsigned n, cut; } txt_t; static txt_t *TX;
static unsigned block(bfdev_ts_context_t *c, bfdev_ts_state_t *s, unsigned used_, const void **d) { txt_t *t = s->pdata; if (used_ >= t->n) return 0; *d = t->p + used_; return used_ < t->cut ? t->cut - used_ : t->n - used_; }
static void b_text(void) { TX = NEW(txt_t); TX->n = d_range(1, 200); uint8_t *p = ar_get(TX->n, 0); int al = d_range(1, 3); for (unsigned i = 0; i < TX->n; i++) p[i] = 'a' + d_u64(al); TX->p = p; int m = d_range(1, 8); uint8_t *q = ar_get(m, 0); for (int i = 0; i < m; i++) q[i] = 'a' + d_u64(al); const char *nm[] = { "bm", "kmp", "sunday" }; int k = d_u64(2); TX->cut = k == 1 ? d_u64(TX->n) : TX->n; TS = bfdev_textsearch_create(A, nm[k], q, m, d_bool() ? BFDEV_TS_IGCASE : 0); CHECK(TS, "creation"); TS->next_block = block; }
static void q_text(void) { bfdev_ts_state_t s = { .pdata = TX }; unsigned r = bfdev_textsearch_find(TS, &s), c = 0; while (r != UINT_MAX && ++c < 300) { obs(r); r = bfdev_textsearch_next(TS, &s); } obs(c); obs(bfdev_textsearch_pattern_len(TS)); }
/* tables the caller declares constant */
static long *sv;
static long bcmp_(const void *a, void *p) { return CMP3(*(const long *)a, *(long *)p); }
static void b_find(void) { nodes(0); sv = ar_get((n + 1) * sizeof *sv, 0); long k = 0; for (int i = 0; i < n; i++) sv[i] = k += d_u64(3); }
static void q_find(void) { for (int i = 8; i--; ) { long k = rnd(2 * n + 5); long *f = bfdev_bsearch(sv, n, sizeof *sv, (bfdev_find_t)bcmp_, &k); obs(f ? *f : -1); f = bfdev_bsearch_inline(sv, n, sizeof *sv, (bfdev_find_t)bcmp_, &k); obs(f ? *f : -1); } }
static bfdev_fsm_state_t *st; static bfdev_fsm_transition_t *tr;
static long guard(bfdev_fsm_event_t *e, const void *c) { return (uintptr_t)e->pdata == (uintptr_t)c ? 0 : 1; } static int act(bfdev_fsm_event_t *e, void *d, void *c, void *nx) { obs((uintptr_t)d); obs((uintptr_t)c); obs((uintptr_t)nx); return 0; } static int trig(bfdev_fsm_event_t *e, void *d) { obs((uintptr_t)d + 77); return 0; }
static void b_fsm(void) { st = ar_get(5 * sizeof *st, 0); tr = ar_get(20 * sizeof *tr, 0); memset(tr, 0, 20 * sizeof *tr); memset(st, 0, 5 * sizeof *st); for (int i = 0; i < 4; i++) { st[i].data = (void *)(uintptr_t)(i + 10); st[i].trans = tr + 5 * i; st[i].tnum = 5; if (d_bool()) st[i].enter = trig; if (d_bool()) st[i].exit = trig; for (int j = 0; j < 5; j++) { bfdev_fsm_transition_t *t = &tr[5 * i + j]; t->type = d_u64(3); t->next = &st[d_u64(3)]; if (d_bool()) { t->guard = guard; t->cond = (void *)(uintptr_t)d_u64(2); } if (d_bool()) { t->action = act; t->data = (void *)(uintptr_t)d_u64(9); } } } st[4].data = (void *)99ul; }
static void q_fsm(void) { bfdev_fsm_t f; bfdev_fsm_init(&f, NULL, &st[0], &st[4]); for (int i = 12; i--; ) { bfdev_fsm_event_t e = { rnd(4), (void *)(uintptr_t)rnd(3) }; obs(bfdev_fsm_handle(&f, &e)); bfdev_fsm_state_t *c = bfdev_fsm_curr(&f), *p = bfdev_fsm_prev(&f); obs(c ? (uintptr_t)c->data : 0); obs(p ? (uintptr_t)p->data : 0); obs(bfdev_fsm_finished(&f)); } bfdev_array_release(&f.stack); }
/* a chain called, when no member asks to be removed */
static bfdev_notifier_ret_t nret(void *a, void *p) { obs((uintptr_t)p); return (uintptr_t)p % 16 == 7 ? BFDEV_NOTIFI_RET_STOP : BFDEV_NOTIFI_RET_DONE; }
static void b_chain(void) { bfdev_notifier_t *h = NEW(bfdev_notifier_t); bfdev_notifier_init(h); n = d_u64(20); for (int i = 0; i < n; i++) { bfdev_notifier_node_t *e = NEW(bfdev_notifier_node_t); e->priority = d_u64(5); e->entry = nret; e->pdata = (void *)(uintptr_t)(i + 1); CHECK(!bfdev_notifier_register(h, e), "registration"); } O = h; }
static void q_chain(void) { for (int i = 3; i--; ) { unsigned c = 0; obs(bfdev_notifier_call(O, NULL, rnd(25), &c)); obs(c); } }
static void q_format(void) { char b[200]; const char *f[] = { "%s", "<%.5s|%s>", "%-20.3s%%%s", "%s%s" }; char *g = str; memset(b, 0, sizeof b); obs(bfdev_scnprintf(b, rnd(150) + 1, f[rnd(4)], g, str2)); obsb(b, sizeof b); }
static void q_words(void) { for (size_t i = 0; i + 8 <= len && i < 40; i++) { const void *p = data + i; obs(bfdev_unaligned_get_u16(p)); obs(bfdev_unaligned_get_u32(p)); obs(bfdev_unaligned_get_u64(p)); obs(bfdev_unaligned_get_le32(p)); obs(bfdev_unaligned_get_be64(p)); obs(bfdev_unaligned_get_ulong(p)); } }
static const struct { const char *name; void (*build)(void), (*query)(void); } K[] = { { "array", b_array, q_array }, { "queue", b_queue, q_queue }, { "list", b_list, q_list }, { "singly linked list", b_slist, q_slist }, { "bucket list", b_hlist, q_hlist }, { "priority list", b_ilist, q_ilist }, { "tree", b_rb, q_rb }, { "interval tree", b_seg, q_seg }, { "heap", b_heap, q_heap }, { "B+ tree", b_btree, q_btree }, { "skip list", b_skip, q_skip }, { "radix tree", b_radix, q_radix }, { "hash map", b_hash, q_hash }, { "bloom filter", b_bloom, q_bloom }, { "cache", b_cache, q_cache }, { "resource pool", b_pool, q_pool }, { "bitmap", b_bits, q_bits }, { "integers", b_mpi, q_mpi }, { "matrices", b_matrix, q_matrix }, { "data", b_data, q_data }, { "text search", b_text, q_text }, { "sorted array", b_find, q_find }, { "state tables", b_fsm, q_fsm }, { "notifier chain", b_chain, q_chain }, { "formatted text", b_data, q_format }, { "words", b_data, q_words } };
__attribute__((no_sanitize("memory"))) static size_t differs(const volatile uint8_t *a, const volatile uint8_t *b, size_t n) { size_t i = 0; while (i < n && a[i] == b[i]) i++; return i; }
static int kind; static uint64_t seed; typedef struct { uint64_t d; unsigned n; } res_t; static res_t ask(uint64_t s) { D = 7; O_ = 0; S_ = s; K[kind].query(); return (res_t){ D, O_ }; }
static void *reader(void *p) { res_t *r = p; for (int i = 0; i < 4; i++) r[i] = ask(seed + i % 2); return NULL; }
void pbt_case(void)
{
    bfdev_log_default.record_level = 0; if (!ar) { ar = mmap(NULL, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); CHECK(ar != MAP_FAILED, "arena"); } else { mprotect(ar, ARENA, PROT_READ | PROT_WRITE); memset(ar, 0xa5, used); } used = 0; sealed = false;
    aops = NEW(bfdev_alloc_ops_t); bfdev_alloc_ops_init(aops, (bfdev_malloc_t)ar_get, (bfdev_malloc_t)ar_zget, (bfdev_realloc_t)ar_resize, (bfdev_free_t)ar_free); A = NEW(bfdev_alloc_t); bfdev_alloc_init(A, aops, NULL);
    kind = d_u64(sizeof K / sizeof *K - 1); n = 0; K[kind].build(); seed = d_u64(UINT64_MAX); TRACE("%s: %d members, %zu bytes, variant %d, readings %#lx", K[kind].name, n, used, var_, (long)seed); pbt_class(K[kind].name); uint8_t *copy = g_alloc(used); memcpy(copy, ar, used);
    res_t a = ask(seed), b = ask(seed + 1); size_t x = differs(ar, copy, used); CHECK(x == used, "%s: a reading changed byte %zu of %zu", K[kind].name, x, used);
    seal(true); res_t c = ask(seed), e = ask(seed + 1), f = ask(seed); CHECK(a.d == c.d && a.n == c.n && c.d == f.d, "%s: asked again, the structure answers differently", K[kind].name); CHECK(b.d == e.d && b.n == e.n, "%s: asked again, the structure answers differently", K[kind].name);
    if (d_chance(1, 20)) { pthread_t t[3]; res_t r[3][4]; for (int i = 0; i < 3; i++) CHECK(!pthread_create(&t[i], NULL, reader, r[i]), "thread"); for (int i = 0; i < 3; i++) pthread_join(t[i], NULL); for (int i = 0; i < 12; i++) CHECK(r[i / 4][i % 4].d == (i % 2 ? b.d : a.d), "%s: a reader in another thread is answered differently", K[kind].name); pbt_class("several threads"); }
    seal(false); if (a.n > 5) pbt_nontrivial();
}

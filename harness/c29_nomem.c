#include "pbt.h"
#include "ta.h"
#include <bfdev/log.h>
#include <bfdev/errno.h>
#include <bfdev/array.h>
#include <bfdev/fifo.h>
#include <bfdev/ringbuf.h>
#include <bfdev/mpi.h>
#include <bfdev/matrix.h>
#include <bfdev/btree.h>
#include <bfdev/hashmap.h>
#include <bfdev/skiplist.h>
#include <bfdev/radix.h>
#include <bfdev/bloom.h>
#include <bfdev/cache.h>
#include <bfdev/fsm.h>
#include <bfdev/textsearch.h>
#include <bfdev/levenshtein.h>
#include <bfdev/argv.h>
#include <bfdev/string.h>
const char *const pbt_id = "C29", *const pbt_rule = "";
/* Every object exists twice with the same history: one gets its memory from an allocator that fails on a drawn
 * pattern, its twin from one that never fails. An operation that reports failure after a failed allocation is not
 * applied to the twin; any other is. Both must always show the same contents. */
static ta_t T[2]; static int hits, refused, steps_; static volatile bool in_lib;
#define FALLIBLE T[0]
/* ---- nothing but the caller's allocator may be used */
extern int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *)) __attribute__((weak));
static void *volatile strange; static volatile bool stray_free;
static void on_malloc(const volatile void *p, size_t n) { if (in_lib && !ta_inside) strange = (void *)p; } static void on_free(const volatile void *p) { if (in_lib && !ta_inside && p) stray_free = true; }
static void *no_alloc(size_t n, void *p) { in_lib = false; CHECK(0, "the default allocator was asked for memory"); } static void *no_realloc(void *b, size_t n, void *p) { in_lib = false; CHECK(0, "the default allocator was asked to resize"); } static void no_free(void *b, void *p) { in_lib = false; CHECK(0, "the default allocator was handed a block"); }
static bfdev_alloc_ops_t poison = BFDEV_ALLOC_OPS_STATIC(no_alloc, no_alloc, no_realloc, no_free);
void pbt_begin(void) { bfdev_log_default.record_level = 0; if (__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); }
#define LIB(e) ({ in_lib = true; strange = NULL; stray_free = false; __auto_type _r = (e); in_lib = false; CHECK(!strange && !stray_free, "memory that is not the caller's allocator's was used"); _r; })
#define LIBV(e) ({ in_lib = true; strange = NULL; stray_free = false; (e); in_lib = false; CHECK(!strange && !stray_free, "memory that is not the caller's allocator's was used"); })
static void arm(void)
{
    ta_t *t = &FALLIBLE; ta_ok(t);
    switch (d_u64(7)) { case 0: case 1: case 2: break; case 3: ta_fail_in(t, 1); break; case 4: ta_fail_in(t, d_range(1, 6)); break; case 5: t->fail_all = true; break; default: t->pattern = d_u64(UINT16_MAX); break; }
}
static bool hit; static void disarm(void) { hit = FALLIBLE.failed; hits += hit; ta_ok(&FALLIBLE); }
/* run on the fallible one; say whether its twin has to follow */
static bool follow(bool failed, const char *what) { steps_++; if (hit && failed) { refused++; TRACE("%s: out of memory", what); pbt_class(what); return false; } TRACE("%s%s", what, hit ? " (got by without the memory)" : ""); return true; }
static void begin(void) { for (int i = 0; i < 2; i++) { ta_init(&T[i]); T[i].fill = d_u64(255); } hits = refused = steps_ = 0; bfdev_alloc_default.ops = &poison; }
static void end(const char *what) { ta_check_empty(&T[0], what); ta_check_empty(&T[1], what); bfdev_alloc_default.ops = NULL; if (refused && steps_ > refused) pbt_nontrivial(); }
/* ---- arrays */
static void arrays(void)
{
    static const size_t cells[] = { 1, 4, 24, 40, 8 }; size_t cs = d_of(cells); bfdev_array_t *a = g_alloc(2 * sizeof *a); for (int i = 0; i < 2; i++) bfdev_array_init(&a[i], &T[i].alloc, cs); int steps = d_range(2, 25); unsigned char seed = 1;
    while (steps--) {
        unsigned long n = d_u64(d_bool() ? 5 : 60), ix = bfdev_array_index(&a[0]); uint8_t *p = NULL; int r = 0; bool f; int k = d_u64(6); if (d_chance(1, 30)) n = SIZE_MAX / cs - d_u64(3); bool huge = n > 1000; if (huge && k == 4) k = 3; if (k == 5 && huge) k = 0; seed++;
        arm(); switch (k) { case 0: case 1: case 2: p = LIB(bfdev_array_push(&a[0], n)); f = !p; break; case 3: r = LIB(bfdev_array_reserve(&a[0], n)); f = r < 0; break; case 4: r = LIB(bfdev_array_resize(&a[0], n)); f = r < 0; break; case 5: p = LIB(bfdev_array_pop(&a[0], n)); f = !p; break; default: LIBV(bfdev_array_release(&a[0])); f = false; } disarm();
        static const char *nm[] = { "push", "push", "push", "reserve", "resize array", "pop", "release" }; uint8_t *q = NULL; if (huge && f) hit = true; if (!follow(f, nm[k])) goto cmp;
        switch (k) { case 0: case 1: case 2: q = bfdev_array_push(&a[1], n); if (n) CHECK(p && q, "push of %lu", n); if (q && n) { memset(p, seed, n * cs); memset(q, seed, n * cs); } break; case 3: CHECK_EQ(r, bfdev_array_reserve(&a[1], n), "reserve"); break; case 4: CHECK_EQ(r, bfdev_array_resize(&a[1], n), "resize"); if (n > ix) for (int i = 0; i < 2; i++) memset(bfdev_array_data(&a[i], ix), seed, (n - ix) * cs); break; case 5: q = bfdev_array_pop(&a[1], n); CHECK(!p == !q, "pop"); break; default: bfdev_array_release(&a[1]); }
    cmp: CHECK_EQ(bfdev_array_index(&a[0]), bfdev_array_index(&a[1]), "elements"); ix = bfdev_array_index(&a[0]); if (ix) CHECK(!memcmp(bfdev_array_data(&a[0], 0), bfdev_array_data(&a[1], 0), ix * cs), "the contents of the array changed");
    }
    for (int i = 0; i < 2; i++) LIBV(bfdev_array_release(&a[i]));
}
/* ---- big integers */
static void integers(void)
{
    enum { V = 4 }; bfdev_mpi_t v[2][V]; for (int i = 0; i < 2; i++) for (int k = 0; k < V; k++) bfdev_mpi_init(&v[i][k], &T[i].alloc); BFDEV_MPI_TYPE b[12]; for (int k = 0; k < V; k++) { int n = d_range(1, 6); bool s = d_bool(); if (d_bool()) continue; for (int i = 0; i < n; i++) b[i] = d_edge64(); for (int i = 0; i < 2; i++) CHECK(!bfdev_mpi_import(&v[i][k], b, n, s), "import"); }
    int steps = d_range(1, 10);
    while (steps--) {
        int op = d_u64(18), d = d_u64(V - 1), e = d_u64(V - 1), x = d_u64(V - 1), y = d_u64(V - 1), r[2], n = d_range(1, 10); BFDEV_MPI_TYPE w = d_edge64(), s = d_u64(200); bool sg = d_bool(); if (e == d) e = (d + 1) % V; for (int i = 0; i < n; i++) b[i] = d_edge64(); if (bfdev_mpi_length(&v[1][x]) + bfdev_mpi_length(&v[1][y]) > 30) op = 13;
        static const char *nm[] = { "integer add", "sub", "mul", "div", "mod", "addi", "subi", "muli", "divi", "modi", "and", "or", "xor", "import", "seti", "set", "shli", "shri", "bseti" };
        for (int i = 0; i < 2; i++) {
            if (!i) arm(); bfdev_mpi_t *D = &v[i][d], *E = &v[i][e], *X = &v[i][x], *Y = &v[i][y];
            switch (op) { case 0: r[i] = LIB(bfdev_mpi_add(D, X, Y)); break; case 1: r[i] = LIB(bfdev_mpi_sub(D, X, Y)); break; case 2: r[i] = LIB(bfdev_mpi_mul(D, X, Y)); break; case 3: r[i] = LIB(bfdev_mpi_div(D, E, X, Y)); break; case 4: r[i] = LIB(bfdev_mpi_mod(D, X, Y)); break; case 5: r[i] = LIB(bfdev_mpi_addi(D, X, w)); break; case 6: r[i] = LIB(bfdev_mpi_subi(D, X, w)); break; case 7: r[i] = LIB(bfdev_mpi_muli(D, X, w)); break; case 8: r[i] = LIB(bfdev_mpi_divi(D, E, X, w)); break; case 9: r[i] = LIB(bfdev_mpi_modi(D, X, w)); break; case 10: r[i] = LIB(bfdev_mpi_and(D, X, Y)); break; case 11: r[i] = LIB(bfdev_mpi_or(D, X, Y)); break; case 12: r[i] = LIB(bfdev_mpi_xor(D, X, Y)); break; case 13: r[i] = LIB(bfdev_mpi_import(D, b, n, sg)); break; case 14: r[i] = LIB(bfdev_mpi_seti(D, w)); break; case 15: r[i] = LIB(bfdev_mpi_set(D, X)); break; case 16: r[i] = LIB(bfdev_mpi_shli(D, X, s)); break; case 17: r[i] = LIB(bfdev_mpi_shri(D, X, s)); break; default: r[i] = LIB(bfdev_mpi_bseti(D, s)); break; }
            if (!i) { disarm(); if (!follow(r[0] < 0, nm[op])) break; } else CHECK(r[0] == r[1], "%s returns %d instead of %d", nm[op], r[0], r[1]);
        }
        for (int k = 0; k < V; k++) { bool sa, sb; unsigned long la = bfdev_mpi_length(&v[0][k]), lb = bfdev_mpi_length(&v[1][k]); const BFDEV_MPI_TYPE *pa = bfdev_mpi_data(&v[0][k], &sa), *pb = bfdev_mpi_data(&v[1][k], &sb); CHECK(la == lb && sa == sb && (!la || !memcmp(pa, pb, la * sizeof *pa)), "%s%s: integer %d changed (%s)", nm[op], r[0] < 0 && hit ? " without memory" : "", k, k == d ? "the destination" : k == x || k == y ? "an operand" : "unrelated"); }
    }
    for (int i = 0; i < 2; i++) for (int k = 0; k < V; k++) LIBV(bfdev_mpi_release(&v[i][k]));
}
/* ---- matrices */
static void matrices(void)
{
    enum { V = 3 }; bfdev_matrix_t m[2][V]; static BFDEV_MATRIX_TYPE b[64]; unsigned R[V], C[V], sq = d_bool() ? d_range(1, 5) : 0; for (int k = 0; k < V; k++) { R[k] = sq ?: d_range(1, 5); C[k] = sq ?: d_range(1, 5); for (int i = 0; i < 64; i++) b[i] = d_u64(1000); for (int i = 0; i < 2; i++) { bfdev_matrix_init(&m[i][k], &T[i].alloc); CHECK(!bfdev_matrix_import(&m[i][k], b, R[k], C[k]), "import"); } }
    int steps = d_range(1, 8);
    while (steps--) {
        int op = d_u64(5), d = d_u64(V - 1), x = d_u64(V - 1), y = d_u64(V - 1), r[2]; unsigned nr = d_range(1, 8), nc = d_range(1, 8); for (int i = 0; i < 64; i++) b[i] = d_u64(1000); if (op == 3 && d == x) x = (x + 1) % V; static const char *nm[] = { "matrix add", "matrix sub", "matrix mul", "transpose", "matrix set", "matrix import" };
        for (int i = 0; i < 2; i++) {
            if (!i) arm(); bfdev_matrix_t *D = &m[i][d], *X = &m[i][x], *Y = &m[i][y];
            switch (op) { case 0: r[i] = LIB(bfdev_matrix_add(D, X, Y)); break; case 1: r[i] = LIB(bfdev_matrix_sub(D, X, Y)); break; case 2: r[i] = LIB(bfdev_matrix_mul(D, X, Y)); break; case 3: r[i] = LIB(bfdev_matrix_trans(D, X)); break; case 4: r[i] = LIB(bfdev_matrix_set(D, X)); break; default: r[i] = LIB(bfdev_matrix_import(D, b, nr, nc)); break; }
            if (!i) { disarm(); if (!follow(r[0] < 0, nm[op])) break; } else CHECK(r[0] == r[1], "%s returns %d instead of %d", nm[op], r[0], r[1]);
        }
        for (int k = 0; k < V; k++) { bfdev_matrix_t *A = &m[0][k], *B = &m[1][k]; CHECK(A->row == B->row && A->col == B->col, "%s%s: matrix %d is %ux%u instead of %ux%u", nm[op], hit ? " without memory" : "", k, A->row, A->col, B->row, B->col); for (unsigned i = 0; i < A->row; i++) for (unsigned j = 0; j < A->col; j++) CHECK(*bfdev_matrix_data(A, i, j) == *bfdev_matrix_data(B, i, j), "%s%s: matrix %d changed", nm[op], hit ? " without memory" : "", k); }
    }
    for (int i = 0; i < 2; i++) for (int k = 0; k < V; k++) LIBV(bfdev_matrix_release(&m[i][k]));
}
/* ---- B-trees */
static void trees(void)
{
    enum { U = 60 }; bfdev_btree_ops_t ops = { .alloc = bfdev_btree_alloc, .free = bfdev_btree_free, .find = bfdev_btree_key_find }; bfdev_btree_root_t t[2]; static bfdev_btree_layout_t lay; for (int i = 0; i < 2; i++) { bfdev_btree_init(&t[i], &bfdev_btree_layout64, &ops, NULL); t[i].alloc = &T[i].alloc; } int steps = d_range(5, 120);
    while (steps--) {
        uintptr_t k = d_range(1, U), val = d_range(1, 1000); int op = d_u64(9), r[2]; void *p[2];
        for (int i = 0; i < 2; i++) { uintptr_t key = k; if (!i) arm(); bool f; if (op < 6) { r[i] = LIB(bfdev_btree_insert(&t[i], &key, (void *)val)); f = r[i] < 0; } else if (op < 7) { r[i] = LIB(bfdev_btree_update(&t[i], &key, (void *)val)); f = r[i] < 0; } else { p[i] = LIB(bfdev_btree_remove(&t[i], &key)); f = !p[i]; r[i] = 0; } if (!i) { disarm(); if (!follow(f, op < 6 ? "tree insert" : op < 7 ? "tree update" : "tree remove")) break; } else { CHECK(r[0] == r[1], "tree operation returns %d instead of %d", r[0], r[1]); if (op >= 7) CHECK(p[0] == p[1], "removed value"); } }
        if (d_chance(1, 4) || !steps) for (uintptr_t q = 1; q <= U; q++) { uintptr_t ka = q, kb = q; CHECK(bfdev_btree_lookup(&t[0], &ka) == bfdev_btree_lookup(&t[1], &kb), "key %lu differs from the twin's", (unsigned long)q); }
    }
    for (int i = 0; i < 2; i++) LIBV(bfdev_btree_release(&t[i], NULL, NULL));
}
/* ---- hash maps */
typedef struct { bfdev_hlist_node_t h; unsigned long key; bool in; } hn_t;
static unsigned long h_key(const void *k, void *p) { return pbt_mix(*(const unsigned long *)k); } static unsigned long h_node(const bfdev_hlist_node_t *n, void *p) { return pbt_mix(bfdev_hlist_entry(n, hn_t, h)->key); } static long h_eq(const bfdev_hlist_node_t *a, const bfdev_hlist_node_t *b, void *p) { return bfdev_hlist_entry(a, hn_t, h)->key != bfdev_hlist_entry(b, hn_t, h)->key; } static long h_find(const bfdev_hlist_node_t *a, const void *k, void *p) { return bfdev_hlist_entry(a, hn_t, h)->key != *(const unsigned long *)k; }
static void maps(void)
{
    enum { U = 120 }; bfdev_hashmap_ops_t ops = { .hash_key = h_key, .hash_node = h_node, .equal = h_eq, .find = h_find }; bfdev_hashmap_t m[2]; hn_t *n[2]; int cnt = 0, up = d_bool() ? 2 : 7; for (int i = 0; i < 2; i++) { bfdev_hashmap_init(&m[i], &T[i].alloc, &ops, NULL); n[i] = g_alloc(sizeof **n * U); for (int k = 0; k < U; k++) n[i][k] = (hn_t){ .key = k }; } int steps = d_range(5, 150);
    while (steps--) {
        int k = d_u64(U - 1), r[2]; unsigned long key = k; bool add = d_u64(9) < up; if (add && n[1][k].in) continue;
        for (int i = 0; i < 2; i++) { if (!i) arm(); bfdev_hlist_node_t *o; r[i] = add ? LIB(bfdev_hashmap_add(&m[i], &n[i][k].h)) : LIB(bfdev_hashmap_del(&m[i], &key, &o)); if (!i) { disarm(); if (!follow(r[0] < 0, add ? "map add" : "map del")) break; } else { CHECK(r[0] == r[1], "map operation returns %d instead of %d", r[0], r[1]); if (!r[1]) { n[0][k].in = n[1][k].in = add; cnt += add ? 1 : -1; } } }
        CHECK(m[0].used == cnt, "%lu entries instead of %d", (unsigned long)m[0].used, cnt); if (d_chance(1, 4) || !steps) { for (unsigned long q = 0; q < U; q++) { bfdev_hlist_node_t *p = LIB(bfdev_hashmap_find(&m[0], &q)); CHECK(p == (n[1][q].in ? &n[0][q].h : NULL), "key %lu is %s", q, p ? "found although it is absent" : "lost"); } int seen = 0; unsigned long ix; bfdev_hlist_node_t *p; bfdev_hashmap_for_each(p, &m[0], ix) CHECK(seen++ < cnt, "too many entries"); CHECK_EQ(seen, cnt, "entries visited"); }
    }
    for (int i = 0; i < 2; i++) LIBV(bfdev_hashmap_release(&m[i]));
}
/* ---- skip lists and radix arrays */
static long s_cmp(const void *a, const void *b, void *p) { return *(const int *)a - *(const int *)b; } static long s_find(const void *a, void *p) { return *(const int *)a - *(const int *)p; }
static void skips(void)
{
    enum { U = 60 }; int *keys = g_alloc(sizeof *keys * U), in[U] = {0}, cnt = 0, steps = d_range(3, 60); for (int i = 0; i < U; i++) keys[i] = i; unsigned lv = d_range(1, 8); arm(); bfdev_skip_head_t *h = LIB(bfdev_skiplist_create(&T[0].alloc, lv)); disarm(); if (!h) { CHECK(hit, "creation failed"); ta_check_empty(&T[0], "failed creation"); refused++; steps_++; h = bfdev_skiplist_create(&T[0].alloc, lv); CHECK(h, "creation failed"); }
    while (steps--) {
        int k = d_u64(U - 1); if (d_u64(2)) { arm(); int r = LIB(bfdev_skiplist_insert(h, &keys[k], s_cmp, NULL)); disarm(); if (follow(r < 0, "skip list insert")) { CHECK(!r, "insert returns %d", r); in[k]++; cnt++; } } else { arm(); LIBV(bfdev_skiplist_delete(h, s_find, &k)); disarm(); follow(false, "skip list delete"); if (in[k]) { in[k]--; cnt--; } }
        int seen = 0, left[U]; memcpy(left, in, sizeof left); bfdev_skip_node_t *p; bfdev_skiplist_for_each(p, h, 0) { int q = (int *)p->key - keys; CHECK(q >= 0 && q < U && left[q]-- > 0 && seen++ < cnt, "key %d is not expected", q); } CHECK_EQ(seen, cnt, "members"); p = bfdev_skiplist_find(h, s_find, &k); CHECK(!p == !in[k], "key %d is %s", k, p ? "found" : "lost");
    }
    LIBV(bfdev_skiplist_destroy(h, NULL, NULL));
}
static void radixes(void)
{
    enum { U = 24 }; BFDEV_DEFINE_RADIX(a, uint32_t, &T[0].alloc); unsigned long ix[U]; uint32_t *at[U] = {0}; uint32_t val[U]; int steps = d_range(3, 60), cnt = 0; for (int i = 0; i < U; i++) { ix[i] = d_bool() ? d_u64(3000) : (d_bool() ? 1ul << d_u64(50) : 0) + d_u64(64); for (int k = 0; k < i; k++) if (ix[k] == ix[i]) { ix[i] = ix[i] * 2 + 77777 + i; k = -1; } }
    while (steps--) {
        int k = d_u64(U - 1), w = d_u64(4);
        if (w < 3) { if (at[k]) continue; arm(); uint32_t *p = LIB(bfdev_radix_alloc(&a, ix[k])); disarm(); if (follow(!p, "radix alloc")) { CHECK(p, "allocation of index %lu failed", ix[k]); at[k] = p; *p = val[k] = d_u64(UINT32_MAX); cnt++; } }
        else { arm(); int r = LIB(bfdev_radix_free(&a, ix[k])); disarm(); if (follow(r < 0 && at[k], "radix free")) { CHECK(!r == !!at[k], "release of index %lu returns %d", ix[k], r); if (at[k]) cnt--; at[k] = NULL; } }
        for (int i = 0; i < U; i++) { uint32_t *p = bfdev_radix_find(&a, ix[i]); CHECK(p == at[i], "index %lu is %s", ix[i], p ? at[i] ? "elsewhere" : "found although it is absent" : "lost"); if (p) CHECK(*p == val[i], "the value of index %lu changed", ix[i]); } int seen = 0; unsigned long q; uint32_t *p; bfdev_radix_for_each(p, &a, &q) CHECK(seen++ < cnt, "too many elements"); CHECK_EQ(seen, cnt, "elements visited");
    }
    LIBV(bfdev_radix_release(&a));
}
/* ---- objects that allocate when they are made, and functions that return memory or need it for a while */
static unsigned b_hash(unsigned f, const void *k, void *p) { return *(const unsigned *)k * (f + 1); } static unsigned long c_hash(const void *t, void *p) { return (unsigned long)t; } static long c_find(const void *d, const void *t, void *p) { return d != t; }
typedef BFDEV_DECLARE_FIFO_DYNAMIC(ff_, uint32_t); typedef BFDEV_DECLARE_RINGBUF_DYNAMIC(rr_, uint32_t);
static void makers(void)
{
    int n = d_range(1, 8); static const char *algo[] = { "kmp", "bm", "sunday" };
    while (n--) {
        int kind = d_u64(8), len = d_u64(40); char txt[64]; for (int i = 0; i < len; i++) txt[i] = "ab  c"[d_u64(4)]; txt[len] = 0; char *s = g_alloc(len + 1); memcpy(s, txt, len + 1); bool done = false; unsigned sz = d_range(2, 60), fn = d_range(1, 4); const char *al = d_of(algo); size_t cut = d_u64(50); bool lfu = d_bool();
        for (int tries = 0; !done; tries++) {
            CHECK(tries < 400, "creation never succeeds"); size_t live = T[0].live; if (tries < 40) arm(); else ta_ok(&T[0]); 
            #define FAILED(what, cond) if (follow(!(cond), what)) CHECK(cond, what " failed although memory was available"); else { CHECK_EQ(T[0].live, live, what ": blocks after a failure"); break; } done = true
            switch (kind) {
                case 0: { ff_ f = BFDEV_FIFO_DYNAMIC_INIT(&f); int r = LIB(bfdev_fifo_alloc(&f, &T[0].alloc, sz)); disarm(); FAILED("fifo", !r); uint32_t x = 7, y = 0; CHECK(bfdev_fifo_put(&f, x) && bfdev_fifo_get(&f, &y) && y == 7, "the fifo does not work"); LIBV(bfdev_fifo_free(&f)); break; }
                case 1: { rr_ f = BFDEV_RINGBUF_DYNAMIC_INIT(&f); int r = LIB(bfdev_ringbuf_alloc(&f, &T[0].alloc, sz)); disarm(); FAILED("ring buffer", !r); uint32_t x = 7, y = 0; bfdev_ringbuf_put(&f, x); CHECK(bfdev_ringbuf_get(&f, &y) && y == 7, "the ring buffer does not work"); LIBV(bfdev_ringbuf_free(&f)); break; }
                case 2: { bfdev_bloom_t *b = LIB(bfdev_bloom_create(&T[0].alloc, sz * 8, b_hash, fn, NULL)); disarm(); FAILED("bloom filter", b); unsigned k = 5; CHECK(!bfdev_bloom_peek(b, &k), "a new filter is not empty"); bfdev_bloom_push(b, &k); CHECK(bfdev_bloom_peek(b, &k), "the filter does not work"); LIBV(bfdev_bloom_destroy(b)); break; }
                case 3: { bfdev_cache_ops_t ops = { c_hash, c_find }; bfdev_cache_head_t *c = LIB(bfdev_cache_create(lfu ? "lfu" : "lru", &T[0].alloc, &ops, sz, 4, NULL)); disarm(); FAILED("cache", c); bfdev_cache_node_t *e = bfdev_cache_get(c, (void *)8); CHECK(e, "the cache does not work"); e->data = (void *)8; bfdev_cache_committed(c); bfdev_cache_put(c, e); CHECK(bfdev_cache_find(c, (void *)8) == e, "the cache does not work"); LIBV(bfdev_cache_destroy(c)); break; }
                case 4: { if (!len) { done = true; break; } bfdev_ts_context_t *c = LIB(bfdev_textsearch_create(&T[0].alloc, al, s, len, 0)); disarm(); FAILED("text search", c); bfdev_ts_linear_t l; CHECK_EQ(bfdev_textsearch_linear(c, &l, txt, len), 0, "position of a pattern in itself"); LIBV(bfdev_textsearch_destroy(c)); break; }
                case 5: { unsigned d = LIB(bfdev_levenshtein(&T[0].alloc, s, "xyz", 1, 1, 1, 1)); disarm(); CHECK_EQ(T[0].live, live, "blocks after the computation"); if (d == UINT_MAX) { CHECK(hit, "the computation failed although memory was available"); follow(true, "levenshtein"); refused++; break; } CHECK_EQ(d, len > 3 ? len : 3, "distance"); follow(false, "levenshtein"); done = true; break; }
                case 6: { unsigned ac = 99; char **v = LIB(bfdev_argv_split(&T[0].alloc, s, &ac)); disarm(); FAILED("argv", v); CHECK_EQ(ac, bfdev_argv_count(txt), "words"); CHECK(!v[ac], "terminator"); LIBV(bfdev_argv_destroy(&T[0].alloc, v)); break; }
                case 7: { char *d = LIB(bfdev_strdup(&T[0].alloc, s)); disarm(); FAILED("strdup", d); CHECK(!strcmp(d, txt), "copy"); LIBV(bfdev_free(&T[0].alloc, d)); break; }
                default: { char *d = LIB(bfdev_strndup(&T[0].alloc, s, cut)); disarm(); FAILED("strndup", d); CHECK(strlen(d) == (cut < (size_t)len ? cut : len) && !strncmp(d, txt, strlen(d)), "copy"); LIBV(bfdev_free(&T[0].alloc, d)); break; }
            }
            CHECK(!strcmp(s, txt), "the caller's text was modified");
        }
    }
}
/* ---- state machines: pushing needs memory */
static void machines(void)
{
    static bfdev_fsm_state_t st[3]; static bfdev_fsm_transition_t tr[3][4]; memset(st, 0, sizeof st); memset(tr, 0, sizeof tr); for (int i = 0; i < 3; i++) { tr[i][0] = (bfdev_fsm_transition_t){ .type = 1, .stack = 1, .next = &st[(i + 1) % 3] }; tr[i][1] = (bfdev_fsm_transition_t){ .type = 2, .stack = -1 }; tr[i][2] = (bfdev_fsm_transition_t){ .type = 3, .next = &st[(i + 2) % 3] }; st[i].trans = tr[i]; st[i].tnum = 3; }
    bfdev_fsm_t f; bfdev_fsm_init(&f, &T[0].alloc, &st[0], NULL); int cur = 0, stack[200], sp = 0, steps = d_range(3, 60);
    while (steps--) { int k = d_range(1, 3); if (k == 2 && !sp) k = 1; bfdev_fsm_event_t e = { .type = k }; arm(); int r = LIB(bfdev_fsm_handle(&f, &e)); disarm(); if (follow(r < 0, k == 1 ? "push state" : k == 2 ? "pop state" : "change state")) { CHECK(r >= 0, "event returns %d", r); if (k == 1) { stack[sp++] = cur; cur = (cur + 1) % 3; } else if (k == 2) cur = stack[--sp]; else cur = (cur + 2) % 3; } CHECK(bfdev_fsm_curr(&f) == &st[cur], "current state"); }
    while (sp) { bfdev_fsm_event_t e = { .type = 2 }; CHECK(bfdev_fsm_handle(&f, &e) >= 0, "pop"); CHECK(bfdev_fsm_curr(&f) == &st[stack[--sp]], "popped state"); } LIBV(bfdev_array_release(&f.stack));
}
void pbt_case(void)
{
    in_lib = false; begin();
    switch (d_u64(9)) { case 0: TRACE("array"); arrays(); break; case 1: TRACE("big integers"); integers(); break; case 2: TRACE("matrices"); matrices(); break; case 3: TRACE("B-tree"); trees(); break; case 4: TRACE("hash map"); maps(); break; case 5: TRACE("skip list"); skips(); break; case 6: TRACE("radix array"); radixes(); break; case 7: TRACE("state machine"); machines(); break; default: makers(); break; }
    end("the objects of this case");
}

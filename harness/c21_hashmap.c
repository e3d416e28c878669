#include "pbt.h"
#include "ta.h"
#include <bfdev/hashmap.h>
#include <bfdev/log.h>
const char *const pbt_id = "C21", *const pbt_rule = "";
#define NN 400
typedef struct { long pad; unsigned long key; bfdev_hlist_node_t h; int id; bool in; } nd_t;
static nd_t *nd[NN]; static int cap, n, hm, exm, shm; static ta_t ta; static long tag; static bfdev_hashmap_t M; static uint64_t salt, xs;
#define ND(p) bfdev_hlist_entry(p, nd_t, h)
static unsigned long hash(unsigned long k) { switch (hm) { case 0: return k; case 1: return 7; case 2: return k % 3; case 3: return k << 56; case 4: return pbt_mix(k ^ salt); default: return k * salt; } }
static unsigned long hk(const void *k, void *p) { CHECK(p == &tag, "hash_key received a wrong pointer"); return hash(*(const unsigned long *)k); }
static unsigned long hn(const bfdev_hlist_node_t *x, void *p) { CHECK(p == &tag, "hash_node received a wrong pointer"); return hash(ND(x)->key); }
static long eq(const bfdev_hlist_node_t *a, const bfdev_hlist_node_t *b, void *p) { CHECK(p == &tag, "equal received a wrong pointer"); unsigned long x = ND(a)->key, y = ND(b)->key; return pbt_answer(x < y ? -1 : x > y); }
static long fd(const bfdev_hlist_node_t *a, const void *k, void *p) { CHECK(p == &tag, "find received a wrong pointer"); unsigned long x = ND(a)->key, y = *(const unsigned long *)k; return pbt_answer(x < y ? -1 : x > y); }
static int elast, slast; static bool ext1(const bfdev_hashmap_t *m, void *p), shr1(const bfdev_hashmap_t *m, void *p);
static bool ext(const bfdev_hashmap_t *m, void *p) { return elast = ext1(m, p); }
static bool shr(const bfdev_hashmap_t *m, void *p) { return slast = shr1(m, p); }
static bool ext1(const bfdev_hashmap_t *m, void *p) { CHECK(p == &tag && m == &M, "extend callback"); if (m->capacity >= 2048) return false; xs = pbt_mix(xs + 1); return exm == 1 ? false : exm == 2 ? m->capacity < 512 : xs & 1; }
static bool shr1(const bfdev_hashmap_t *m, void *p) { CHECK(p == &tag && m == &M, "shrink callback"); xs = pbt_mix(xs + 1); return shm == 1 ? false : shm == 2 ? true : xs & 1; }
static int count(unsigned long k) { int c = 0; for (int i = 0; i < cap; i++) c += nd[i]->in && nd[i]->key == k; return c; }
static void check(const char *op)
{
    int seen[NN] = {}, c = 0; unsigned long ix; bfdev_hlist_node_t *p, *q; nd_t *e, *f;
    #define SEE(x) do { nd_t *_x = (x); CHECK(c++ <= n, "%s: iteration does not terminate or visits too many", op); CHECK(_x->in, "%s: iteration visits a node that is not in the map", op); CHECK(!seen[_x->id]++, "%s: an entry is visited twice", op); } while (0)
    switch (d_u64(3)) { case 0: bfdev_hashmap_for_each(p, &M, ix) SEE(ND(p)); break; case 1: bfdev_hashmap_for_each_safe(p, q, &M, ix) SEE(ND(p)); break; case 2: bfdev_hashmap_for_each_entry(e, &M, h, ix) SEE(e); break; default: bfdev_hashmap_for_each_entry_safe(e, f, &M, h, ix) SEE(e); break; }
    CHECK(c == n, "%s: iteration visits %d of %d entries", op, c, n); CHECK_EQ(M.used, n, "number of entries");
    CHECK(ta.live <= 1, "%s: %zu blocks for one table", op, ta.live);
    for (int i = 0; i < (cap > 60 ? 10 : cap); i++) { unsigned long k = cap > 60 ? nd[d_u64(cap - 1)]->key : nd[i]->key; p = bfdev_hashmap_find(&M, &k); CHECK(!p == !count(k), "%s: key %lu is %s but %s", op, k, count(k) ? "present" : "absent", p ? "found" : "not found"); if (p) CHECK(ND(p)->in && ND(p)->key == k, "%s: the lookup of key %lu returned another entry", op, k); }
}
/* tens of thousands of entries */
static void huge(void)
{
    int N = d_range(33000, 100000), k = 0; uint64_t seed = d_u64(UINT64_MAX) | 1; hm = d_bool() ? 4 : 5; nd_t *v = g_alloc(N * sizeof *v), *e; bool *in = g_alloc(N), *s = g_alloc(N); TRACE("%d entries", N); unsigned long ix; bfdev_hlist_node_t *old;
    for (int i = 0; i < N; i++) { v[i] = (nd_t){ .id = i, .key = seed * (i / 2 * 2) }; bfdev_hlist_node_init(&v[i].h); int r = i % 2 ? bfdev_hashmap_add(&M, &v[i].h) : i % 3 ? bfdev_hashmap_add(&M, &v[i].h) : bfdev_hashmap_set(&M, &v[i].h, &old); CHECK(r == (i % 2 ? -BFDEV_EEXIST : 0), "addition %d returned %d", i, r); in[i] = !(i % 2); k += in[i]; CHECK(M.used == k && k <= M.capacity && M.capacity <= (k < 2 ? 32 : 16ul * k), "%d entries in %lu buckets, %lu recorded", k, M.capacity, M.used); }
    for (int r = 2; r--; ) { memset(s, 0, N); int c = 0; bfdev_hashmap_for_each_entry(e, &M, h, ix) { CHECK(in[e->id] && !s[e->id], "the iteration visits an entry twice or one that was deleted"); s[e->id] = true; c++; } CHECK(c == k, "the iteration visits %d of %d entries", c, k); for (int i = 0; i < N; i++) { bfdev_hlist_node_t *p = bfdev_hashmap_find(&M, &v[i].key); CHECK(p == (in[i / 2 * 2] ? &v[i / 2 * 2].h : NULL), "the lookup of entry %d of %d is wrong", i, k); }
        for (int j = 0; j < N && r; j++) { int i = pbt_mix(seed + j) % N / 2 * 2; old = NULL; int q = bfdev_hashmap_del(&M, &v[i].key, &old); CHECK(q == (in[i] ? 0 : -BFDEV_ENOENT), "deleting returned %d", q); if (in[i]) { CHECK(old == &v[i].h, "another entry was deleted"); in[i] = false; k--; CHECK(M.used == k && k <= M.capacity && M.capacity <= (k < 2 ? 32 : 16ul * k), "%d entries in %lu buckets, %lu recorded", k, M.capacity, M.used); } } }
    bfdev_hashmap_release(&M); ta_check_empty(&ta, "released hash map"); pbt_class("tens of thousands of entries"); pbt_nontrivial();
}
void pbt_case(void)
{
    bfdev_log_default.record_level = 0; ta_init(&ta); n = 0; hm = d_u64(5); salt = d_u64(UINT64_MAX) | 1; xs = d_u64(1000); bool big = d_chance(1, 25); cap = big ? NN : 48; exm = d_chance(1, 4) ? d_range(1, 3) : 0; shm = d_chance(1, 4) ? d_range(1, 3) : 0;
    bfdev_hashmap_ops_t ops = { .hash_key = hk, .hash_node = hn, .equal = eq, .find = fd, .extend = exm ? ext : NULL, .shrink = shm ? shr : NULL }; if (d_bool()) bfdev_hashmap_init(&M, &ta.alloc, &ops, &tag); else M = BFDEV_HASHMAP_INIT(&ta.alloc, &ops, &tag);
    if (!exm && !shm && d_chance(1, 6000)) { huge(); return; }
    unsigned long base = d_chance(1, 4) ? d_edge64() : 0, range = d_bool() ? d_range(1, 8) : big ? 1000 : 60; for (int i = 0; i < cap; i++) { nd[i] = g_alloc(sizeof(nd_t)); *nd[i] = (nd_t){ .id = i, .key = base + d_u64(range) }; bfdev_hlist_node_init(&nd[i]->h); }
    bool ever = false; int w = d_u64(5), most = 0, dels = 0; unsigned long caps = 0;
    for (int k = big ? d_range(150, 800) : d_range(1, 70); k--; ) {
        elast = slast = -1; bool lost = false; int op = d_u64(11), i = d_u64(cap - 1), t = 0; const char *name = "lookup"; unsigned long c0 = M.capacity; bfdev_hlist_node_t *old = (void *)&tag, *q;
        if (op < w) { unsigned long key = n && d_chance(5, 6) ? ({ while (!nd[i]->in) i = (i + 1) % cap; nd[i]->key; }) : base + d_u64(range + 3); int c = count(key); bool want = d_bool(); name = "deletion"; if (d_chance(1, 6)) ta_fail_in(&ta, 1); TRACE("delete key %lu (%d present) of %d", key, c, n); int r = bfdev_hashmap_del(&M, &key, want ? &old : NULL);
            if (ta.failed) pbt_class("shrinking failed"), lost = ever = true; ta_ok(&ta); CHECK(r == (c ? 0 : -BFDEV_ENOENT), "deleting a key with %d entries returned %d", c, r);
            if (c) { dels++; int gone = -1; if (want) { CHECK(old != (void *)&tag, "the deleted entry was not reported"); CHECK(ND(old)->in && ND(old)->key == key, "another entry was reported deleted"); gone = ND(old)->id; } else { bool seen[NN] = {}; unsigned long ix; nd_t *e; int g = 0; bfdev_hashmap_for_each_entry(e, &M, h, ix) { CHECK(g++ <= n, "endless"); seen[e->id] = 1; } for (int j = 0; j < cap; j++) if (nd[j]->in && !seen[j]) { CHECK(gone < 0 && nd[j]->key == key, "deleting key %lu removed the entry of key %lu", key, nd[j]->key); gone = j; } CHECK(gone >= 0, "nothing was deleted"); }
                nd[gone]->in = false; n--; nd_t *x = g_alloc(sizeof *x); *x = *nd[gone]; memset(nd[gone], 0xff, sizeof(nd_t)); nd[gone] = x; bfdev_hlist_node_init(&x->h); } }
        else if (op < 10) { while (nd[i]->in && t++ < cap) i = (i + 1) % cap; if (nd[i]->in) continue; if (d_chance(1, 3)) nd[i]->key = base + d_u64(range); nd_t *x = nd[i]; int c = count(x->key), s = d_u64(3); bool want = d_bool(); name = s == 0 ? "addition" : s == 1 ? "set" : s == 2 ? "update" : "append"; if (d_chance(1, 8)) ta_fail_in(&ta, 1); TRACE("%s key %lu (%d present) to %d", name, x->key, c, n);
            int r = want ? bfdev_hashmap_insert(&M, &x->h, &old, (bfdev_hashmap_strategy_t)s) : s == 0 ? bfdev_hashmap_add(&M, &x->h) : s == 1 ? bfdev_hashmap_set(&M, &x->h, &old) : s == 2 ? bfdev_hashmap_update(&M, &x->h, &old) : bfdev_hashmap_append(&M, &x->h); if (s == 1 || s == 2) want = true;
            bool failed = ta.failed; ta_ok(&ta); if (failed) lost = ever = true;
            if (failed) { CHECK(r == -BFDEV_ENOMEM, "%s without memory returned %d", name, r); name = "failed insertion"; pbt_class("failed insertion"); }
            else if (s == 0 && c) { CHECK(r == -BFDEV_EEXIST, "adding a present key returned %d", r); if (want) CHECK(old != (void *)&tag && ND(old)->in && ND(old)->key == x->key, "the present entry was not reported"); }
            else if (s == 2 && !c) CHECK(r == -BFDEV_ENOENT, "updating an absent key returned %d", r);
            else { CHECK(r == 0, "%s returned %d", name, r); if ((s == 1 || s == 2) && c) { CHECK(old != (void *)&tag && ND(old)->in && ND(old)->key == x->key, "%s reported another entry as replaced", name); nd_t *g = ND(old); g->in = false; n--; nd_t *y = g_alloc(sizeof *y); *y = *g; nd[g->id] = y; memset(g, 0xff, sizeof *g); bfdev_hlist_node_init(&y->h); pbt_class("replacement"); } x->in = true; n++; } }
        else if (d_chance(1, 6)) { name = "release"; TRACE("release"); bfdev_hashmap_release(&M); ta_check_empty(&ta, "released hash map"); for (int j = 0; j < cap; j++) nd[j]->in = false, bfdev_hlist_node_init(&nd[j]->h); n = 0; }
        if (M.capacity) { CHECK(M.capacity >= 1ul << BFDEV_HASHMAP_MIN_BITS, "%s: a table of %lu buckets", name, M.capacity); if (!lost && c0) { if (elast >= 0) CHECK(elast ? M.capacity > c0 : M.capacity == c0, "%s: the policy %s growth but the table went from %lu to %lu buckets", name, elast ? "asked for" : "refused", c0, M.capacity); if (slast >= 0) CHECK(slast ? M.capacity < c0 || c0 == 1ul << BFDEV_HASHMAP_MIN_BITS : M.capacity == c0, "%s: the policy %s shrinking but the table went from %lu to %lu buckets", name, slast ? "asked for" : "refused", c0, M.capacity); }
            if (!ever && !exm && !shm) CHECK(M.used <= M.capacity && M.capacity <= (M.used < 2 ? 32 : 16 * M.used), "%s: %lu entries in %lu buckets", name, M.used, M.capacity); }
        if (M.capacity < c0) pbt_class("shrunk"); if (M.capacity > c0 && c0) pbt_class("grown"), caps++; if (!big || d_chance(1, 12)) check(name); if (n > most) most = n;
    }
    check("end"); bfdev_hashmap_release(&M); ta_check_empty(&ta, "released hash map"); if (most > 4 && dels) pbt_nontrivial();
}

#include "pbt.h"
#include "ta.h"
#include <bfdev/cache.h>
#include <bfdev/errno.h>
#include <bfdev/log.h>
#define NT 400
static int nt = 40;
enum { FREE, PEND, USE, MAN };
typedef struct { int tag, st; unsigned long ref; long lo, hi; } el_t;
static el_t el[520]; static unsigned long size, pend, maxp, used, hits, hits_hi, miss, starve, changed; static bool starving; static int hm, lfu; static ta_t ta; static long priv, now; static int tags[NT]; static bfdev_cache_head_t *H; static bool nul; static bool bad_ops;
#define TAG(t) ((t) || !nul ? (const void *)&tags[t] : NULL)
#define VAL(p) ((p) ? *(const int *)(p) : 0)
static unsigned long hash(const void *t, void *p) { CHECK(p == &priv, "hash received a wrong pointer"); CHECK(t || nul, "hash received no tag"); int k = VAL(t); switch (hm) { case 0: return k; case 1: return 5; case 2: return pbt_mix(k); default: return (unsigned long)k << 60; } }
static long find(const void *d, const void *t, void *p) { CHECK(p == &priv, "find received a wrong pointer"); CHECK(d, "find received no data"); return pbt_answer((long)*(const int *)d != VAL(t)); }
static int idx(bfdev_cache_node_t *n) { for (unsigned i = 0; i < size; i++) if (H->nodes[i] == n) return i; CHECK(0, "a foreign element was returned"); }
static int holder(int tag) { for (unsigned i = 0; i < size; i++) if (el[i].st != FREE && el[i].tag == tag) return i; return -1; }
static int st_count(int s) { int c = 0; for (unsigned i = 0; i < size; i++) c += el[i].st == s; return c; }
static int evictions;
static int llen(bfdev_list_head_t *h) { int n = 0; bfdev_list_head_t *p; bfdev_list_for_each(p, h) CHECK(n++ <= (int)size, "an internal list is endless"); return n; }
static unsigned long llen_(bfdev_list_head_t *h, unsigned long max) { unsigned long n = 0; bfdev_list_head_t *p; bfdev_list_for_each(p, h) CHECK(n++ <= max, "an internal list is endless"); return n; }
static void check(const char *op)
{
    for (unsigned i = 0; i < size; i++) { bfdev_cache_node_t *n = H->nodes[i]; static const int map[] = { BFDEV_CACHE_FREED, BFDEV_CACHE_PENDING, BFDEV_CACHE_USING, BFDEV_CACHE_MANAGED }; CHECK(n->status == map[el[i].st], "%s: element %u has status %d, expected %d", op, i, n->status, map[el[i].st]); CHECK_EQ(n->refcnt, el[i].ref, "references of an element"); if (el[i].st != FREE) CHECK(VAL(n->tag) == el[i].tag, "%s: element %u carries tag %d, expected %d", op, i, VAL(n->tag), el[i].tag); }
    CHECK_EQ(H->used, used, "used elements"); CHECK_EQ(H->pending, pend, "pending changes"); CHECK_EQ(H->misses, miss, "misses"); CHECK_EQ(H->starve, starve, "refusals while starving"); CHECK_EQ(H->changed, changed, "changes"); CHECK(H->hits >= hits && H->hits <= hits_hi, "%s: %lu hits were counted, expected %lu", op, H->hits, hits); CHECK(bfdev_cache_starving_test(H) == starving, "%s: the starving mark is %d, expected %d", op, !starving, starving);
    CHECK(llen(&H->freed) == st_count(FREE) && llen(&H->changing) == st_count(PEND) && llen(&H->using) == st_count(USE), "%s: %d unused, %d changing and %d used elements are listed, expected %d, %d and %d", op, llen(&H->freed), llen(&H->changing), llen(&H->using), st_count(FREE), st_count(PEND), st_count(USE)); CHECK_EQ(H->size, size, "number of elements");
    for (int t = 0; t < nt; t++) { int h = holder(t); bfdev_cache_node_t *n = bfdev_cache_find(H, TAG(t)), *e = h >= 0 && el[h].st != PEND ? H->nodes[h] : NULL; CHECK(n == e, "%s: tag %d is found at %s, expected %s", op, t, n ? "an element" : "no element", e ? "its own element" : "none"); }
}
/* a policy of the user's own: it picks any unreferenced element, and checks what it is asked */
static bool own, own_refuse, own_in[520]; static int own_victim, own_updates, own_clears, own_creates, own_kind; static bfdev_cache_node_t *own_node; static unsigned long own_size; static bfdev_cache_head_t *own_head; enum { OWN = 0x77 };
typedef struct { bfdev_cache_node_t n; int magic, no; } own_t;
static int own_no(bfdev_cache_head_t *h, bfdev_cache_node_t *n, const char *op) { CHECK(h == own_head, "%s: the policy was handed another cache", op); own_t *o = (own_t *)n; CHECK(o->magic == OWN, "%s: the policy was handed a foreign element", op); return o->no; }
static bool own_starving(bfdev_cache_head_t *h) { CHECK(h == own_head, "the policy was handed another cache"); if (own_refuse) return true; for (unsigned i = 0; i < own_size; i++) if (own_in[i]) return false; return true; }
static bfdev_cache_node_t *own_obtain(bfdev_cache_head_t *h) { CHECK(h == own_head, "the policy was handed another cache"); int c = 0; for (unsigned i = 0; i < own_size; i++) c += own_in[i]; CHECK(c && !own_refuse, "the policy was asked for an element although it has none to give"); c = d_u64(c - 1); for (unsigned i = 0; i < own_size; i++) if (own_in[i] && !c--) { own_in[i] = false; own_victim = i; return h->nodes[i]; } return NULL; }
static void own_get(bfdev_cache_head_t *h, bfdev_cache_node_t *n) { int i = own_no(h, n, "get"); CHECK(own_in[i], "element %d was taken from the policy, which does not have it", i); own_in[i] = false; }
static void own_put(bfdev_cache_head_t *h, bfdev_cache_node_t *n) { int i = own_no(h, n, "put"); CHECK(!own_in[i], "element %d was given to the policy, which has it", i); own_in[i] = true; }
static void own_update(bfdev_cache_head_t *h, bfdev_cache_node_t *n) { own_no(h, n, "update"); own_updates++; own_node = n; } static void own_clear(bfdev_cache_head_t *h, bfdev_cache_node_t *n) { own_no(h, n, "clear"); own_clears++; own_node = n; }
static void own_reset(bfdev_cache_head_t *h) { CHECK(h == own_head, "the policy was handed another cache"); memset(own_in, 0, sizeof own_in); }
static bfdev_cache_head_t *own_create(const bfdev_alloc_t *a, unsigned long n)
{
    CHECK(a == &ta.alloc, "the policy was handed another allocator"); CHECK(n >= 2 && n <= 512, "the policy was asked for %lu elements", n); bfdev_cache_head_t *h = bfdev_zalloc(a, sizeof *h); if (!h) return NULL; h->nodes = bfdev_zalloc(a, n * sizeof *h->nodes); if (!h->nodes) { bfdev_free(a, h); return NULL; }
    for (unsigned i = 0; i < n; i++) { own_t *o = bfdev_zalloc(a, sizeof *o); if (!o) { while (i--) bfdev_free(a, h->nodes[i]); bfdev_free(a, h->nodes); bfdev_free(a, h); return NULL; } o->magic = OWN; o->no = i; h->nodes[i] = &o->n; } memset(own_in, 0, sizeof own_in); own_size = n; own_creates++; return own_head = h;
}
static void own_destroy(bfdev_cache_head_t *h) { CHECK(h == own_head && own_creates == 1, "the policy was handed another cache to destroy"); own_creates--; const bfdev_alloc_t *a = h->alloc; for (unsigned i = 0; i < own_size; i++) bfdev_free(a, h->nodes[i]); bfdev_free(a, h->nodes); bfdev_free(a, h); }
static const bfdev_cache_algo_t own_algo0 = { .name = "own", .starving = own_starving, .obtain = own_obtain, .get = own_get, .put = own_put, .update = own_update, .clear = own_clear, .reset = own_reset, .create = own_create, .destroy = own_destroy };
static bfdev_cache_algo_t own_algo;
static void own_register(void)
{
    bfdev_cache_ops_t ops = { (void *)1, (void *)1 }; own_algo = own_algo0; own_kind = d_u64(3); if (own_kind & 1) own_algo.update = NULL; if (own_kind & 2) own_algo.clear = NULL; own_refuse = false;
    if (d_chance(1, 4)) { bfdev_cache_algo_t a = own_algo; const char *why = "incomplete"; int want = -BFDEV_EINVAL; switch (d_u64(9)) { case 0: a.name = NULL; break; case 1: a.create = NULL; break; case 2: a.destroy = NULL; break; case 3: a.reset = NULL; break; case 4: a.starving = NULL; break; case 5: a.obtain = NULL; break; case 6: a.get = NULL; break; case 7: a.put = NULL; break; case 8: a.name = "lru"; want = -BFDEV_EALREADY; why = "second"; break; default: a.name = "lfu"; want = -BFDEV_EALREADY; why = "second"; } int r = bfdev_cache_register(&a); CHECK(r == want, "registering an %s policy returned %d", why, r); r = bfdev_cache_unregister(&a); CHECK(r == -BFDEV_ENOENT, "unregistering a policy that is not registered returned %d", r); }
    CHECK(!bfdev_cache_create("own", &ta.alloc, &ops, 4, 4, NULL), "a policy nobody registered was found"); int r = bfdev_cache_register(&own_algo); CHECK(r == 0, "registering a policy returned %d", r); r = bfdev_cache_register(&own_algo); CHECK(r == -BFDEV_EALREADY, "registering a policy again returned %d", r); bfdev_cache_algo_t twin = own_algo; r = bfdev_cache_unregister(&twin); CHECK(r == -BFDEV_ENOENT, "unregistering a policy that is not registered returned %d", r); pbt_class("own policy");
}
static void own_unregister(void) { int r = bfdev_cache_unregister(&own_algo); CHECK(r == 0, "unregistering a policy returned %d", r); bfdev_cache_ops_t ops = { hash, find }; CHECK(!bfdev_cache_create("own", &ta.alloc, &ops, 4, 4, NULL), "an unregistered policy was found"); CHECK(own_creates == 0, "a cache's policy data was not destroyed"); r = bfdev_cache_unregister(&own_algo); CHECK(r == -BFDEV_ENOENT, "unregistering a policy again returned %d", r); }
static void touch(int i, bool sure) { if (lfu) { el[i].hi++; if (sure) el[i].lo++; } }
static void obtain(void)
{
    int t = d_u64(d_bool() ? nt - 1 : size + 3 < nt ? size + 3 : nt - 1), h, k = d_u64(9); unsigned long fl = k < 6 ? BFDEV_CACHE_CHANGE : k < 7 ? 0 : k < 9 ? BFDEV_CACHE_CUMULATIVE : BFDEV_CACHE_UNCOMMITTED; if (d_chance(1, 3)) { h = d_u64(size - 1); if (el[h].st != FREE) t = el[h].tag; } h = holder(t); bool man = h >= 0 && el[h].st == MAN;
    int *key = NULL; if (t || !nul) key = g_alloc(sizeof(int)), *key = t; else pbt_class("null tag"); bool cum = k >= 7 && k < 9; TRACE("obtain tag %d with flags %lu (%s)", t, fl, h < 0 ? "absent" : el[h].st == PEND ? "pending" : el[h].st == USE ? "in use" : "cached");
    if (own) own_refuse = d_chance(1, 10); int clears0 = own_clears, updates0 = own_updates; bfdev_cache_node_t *n = k < 6 && d_bool() ? bfdev_cache_get(H, key) : k == 6 && d_bool() ? bfdev_cache_try_get(H, key) : cum && d_bool() ? bfdev_cache_cumulative(H, key) : bfdev_cache_obtain(H, key, fl);
    if (starving) { starve++; CHECK(!n, "a starving cache handed out an element"); pbt_class("refused while starving"); return; }
    if (h >= 0) { hits_hi++; if (el[h].st == PEND && !(cum || k == 9)) { CHECK(!n, "an uncommitted element was handed out"); return; } hits++; CHECK(n == H->nodes[h], "tag %d is at element %d but %s was returned", t, h, n ? "another one" : "none"); if (own && own_algo.update) CHECK(own_updates == updates0 + (el[h].st != PEND) && (el[h].st == PEND || own_node == n), "the policy was told of %d uses of element %d, expected %d", own_updates - updates0, h, el[h].st != PEND); if (own) CHECK(own_clears == clears0, "the policy was told of a reuse while a cached tag was returned"); el[h].ref++; touch(h, el[h].st != PEND); if (man) el[h].st = USE, used++; if (el[h].ref > 1) pbt_class("shared element"); return; }
    miss++; if (!(k < 6 || cum)) { CHECK(!n, "an absent tag was obtained without permission to change"); return; }
    if (!st_count(FREE) && (!st_count(MAN) || (own && own_refuse))) { CHECK(!n, "a cache of pinned elements accepted a new tag"); starving = true; pbt_class("full of pinned elements"); return; }
    if (pend >= maxp) { CHECK(!n, "the limit of pending changes was exceeded"); return; }
    CHECK(n, "a new tag was refused although %d elements are unused and %d cached", st_count(FREE), st_count(MAN)); int i = idx(n);
    if (own) { CHECK(st_count(FREE) || i == own_victim, "the policy chose element %d but element %d was recycled", own_victim, i); if (own_algo.clear) CHECK(own_clears == clears0 + 1 && own_node == n, "the policy was not told that element %d is reused", i); CHECK(own_updates == updates0, "the policy was told of a use while a new tag was placed"); }
    CHECK(el[i].st == FREE || el[i].st == MAN, "element %d was recycled while it is in use (tag %d)", i, el[i].tag);
#ifdef POLICY
    if (own) evictions += el[i].st == MAN;
    if (st_count(FREE)) CHECK(el[i].st == FREE, "tag %d was evicted although %d elements are unused", el[i].tag, st_count(FREE));
    else if (!own) { evictions++; for (unsigned j = 0; j < size; j++) if (el[j].st == MAN) CHECK(el[i].lo <= el[j].hi, lfu ? "element with use count %ld was evicted while an unreferenced one has use count %ld" : "the element released at %ld was evicted before the one released at %ld", el[i].lo, el[j].hi); }
#else
    if (el[i].st == MAN) evictions++;
#endif
    n->data = &tags[t]; n->tag = TAG(t); el[i] = (el_t){ t, PEND, 1, 0, 0 }; pend++; used++;
}
/* tens of thousands of references to one element */
static void crowd(int i)
{
    if (el[i].st != USE && el[i].st != MAN || starving) return; int t = el[i].tag, K = d_chance(1, 3) ? 254 + d_u64(4) : d_bool() && el[i].lo < 65000 ? 65536 - el[i].lo - (lfu && el[i].st == MAN) : 65534 + d_u64(6); bool keep = d_bool(); TRACE("%d more references to element %d", K, i); bfdev_cache_node_t *n = H->nodes[i]; if (own) own_refuse = false;
    if (lfu) for (unsigned j = 0; j < size; j++) if (el[j].st == MAN) { bfdev_cache_node_t *g = bfdev_cache_get(H, TAG(el[j].tag)); CHECK(g == H->nodes[j], "tag %d is at element %u but another was returned", el[j].tag, j); hits++; hits_hi++; touch(j, true); bfdev_cache_put(H, g); }
    for (int k = 0; k < K; k++) { bfdev_cache_node_t *g = bfdev_cache_get(H, TAG(t)); CHECK(g == n, "reference %d to element %d is to another one", k, i); hits_hi++; hits++; el[i].ref++; touch(i, true); if (el[i].st == MAN) el[i].st = USE, used++; CHECK_EQ(n->refcnt, el[i].ref, "references of an element"); if (!keep) goto put; continue; put:; unsigned long r = bfdev_cache_put(H, n); CHECK_EQ(r, el[i].ref - 1, "references left after a put"); if (!--el[i].ref) { el[i].st = MAN; used--; if (!lfu) el[i].lo = el[i].hi = ++now; } }
    for (int k = 0; k < K && keep; k++) { unsigned long r = bfdev_cache_put(H, n); CHECK_EQ(r, el[i].ref - 1, "references left after a put"); if (!--el[i].ref) { el[i].st = MAN; used--; starving = false; if (!lfu) el[i].lo = el[i].hi = ++now; } } pbt_class("tens of thousands of references");
}
/* tens of thousands of elements */
static unsigned long vhash(const void *t, void *p) { return hm ? pbt_mix((uintptr_t)t) : (uintptr_t)t; } static long vfind(const void *d, const void *t, void *p) { return d != t; }
static void vast(void)
{
    bfdev_cache_ops_t ops = { vhash, vfind }; unsigned long N = d_range(40000, 140000), c = 0; lfu = d_bool(); TRACE("%lu elements", N); bfdev_cache_head_t *h = bfdev_cache_create(lfu ? "lfu" : "lru", &ta.alloc, &ops, N, 1000000, &priv); CHECK(h && h->size >= N, "creation failed"); N = h->size; bool *seen = g_alloc(N); memset(seen, 0, N);
    for (unsigned long t = 1; t <= N; t++) { bfdev_cache_node_t *n = bfdev_cache_get(h, (void *)t); CHECK(n, "tag %lu was refused although only %lu of %lu elements are in use", t, t - 1, N); CHECK(n->index < N && h->nodes[n->index] == n && !seen[n->index], "element %lu was handed out twice", n->index); seen[n->index] = true; n->data = (void *)t; n->tag = (void *)t; }
    CHECK_EQ(h->pending, N, "pending changes"); CHECK_EQ(h->used, N, "used elements"); CHECK_EQ(h->misses, N, "misses"); bfdev_cache_committed(h); CHECK_EQ(h->pending, 0, "pending changes"); CHECK_EQ(h->changed, N, "changes"); unsigned long s = d_u64(N - 1);
    for (unsigned long k = 0; k < N; k++) { unsigned long t = (s + k) % N + 1; bfdev_cache_node_t *n = bfdev_cache_find(h, (void *)t); CHECK(n && n->data == (void *)t, "tag %lu of %lu is not found", t, N); unsigned long r = bfdev_cache_put(h, n); CHECK_EQ(r, 0, "references left"); } CHECK_EQ(h->used, 0, "used elements");
    for (unsigned long k = 0; k < 70; k++) { bfdev_cache_node_t *n = bfdev_cache_get(h, (void *)(N + 1 + k)); CHECK(n, "a new tag was refused"); unsigned long old = (uintptr_t)n->data; if (!lfu) CHECK_EQ(old, (s + k) % N + 1, "recycled tag"); CHECK(!bfdev_cache_find(h, (void *)old), "an evicted tag is found"); n->data = (void *)(N + 1 + k); } bfdev_cache_committed(h); for (unsigned long k = 0; k < 70; k++) CHECK(bfdev_cache_find(h, (void *)(N + 1 + k)), "a new tag is not found");
    bfdev_cache_reset(h); CHECK(!bfdev_cache_find(h, (void *)(N + 1)) && llen_(&h->freed, N) == N, "a reset cache has %lu of %lu elements unused", llen_(&h->freed, N), N); bfdev_cache_destroy(h); ta_check_empty(&ta, "destroyed cache"); pbt_class("tens of thousands of elements"); pbt_nontrivial();
}
void pbt_case(void)
{
    if (d_chance(1, 15000)) { ta_init(&ta); hm = d_bool(); vast(); return; }
    bfdev_log_default.record_level = 0; ta_init(&ta); nt = d_chance(1, 4000) ? NT : 40; if (nt > 40) pbt_class("hundreds of elements"); for (int i = 0; i < NT; i++) tags[i] = i; lfu = d_bool(); own = d_chance(1, 4); if (own) lfu = 0; nul = d_chance(1, 3); hm = d_u64(3); evictions = 0; bfdev_cache_ops_t ops = { hash, find }; unsigned long ask = d_chance(1, 40) ? d_u64(1) : nt > 40 ? d_range(33, 300) : d_range(2, d_chance(1, 3) ? 32 : 8); maxp = d_chance(1, 3) ? d_u64(6) : 1000; const char *name = own ? "own" : lfu ? "lfu" : "lru"; if (own) own_register();
    if (d_chance(1, 20)) { ta_fail_in(&ta, d_range(1, 40)); H = bfdev_cache_create(name, &ta.alloc, &ops, ask, maxp, &priv); if (ta.failed) { CHECK(!H, "creation without memory returned a cache"); pbt_class("failed creation"); } ta_ok(&ta); if (H) bfdev_cache_destroy(H); ta_check_empty(&ta, "failed creation"); }
    H = bfdev_cache_create(name, &ta.alloc, &ops, ask, maxp, &priv); if (!H) { CHECK(ask < 2, "creation failed"); ta_check_empty(&ta, "refused creation"); if (own) own_unregister(); return; } size = 2; while (size < ask) size *= 2; CHECK(H->size >= ask && H->size <= size, "%lu elements were requested, %lu created", ask, H->size); size = H->size; if (d_chance(1, 20)) { CHECK(!bfdev_cache_create("none", &ta.alloc, &ops, 4, 4, NULL), "an unknown algorithm was accepted"); bfdev_cache_ops_t inc = { d_bool() ? hash : NULL, NULL }; if (!inc.hash && d_bool()) inc.find = find; CHECK(!bfdev_cache_create(name, &ta.alloc, &inc, 4, 4, NULL), "a cache without its two tag operations was created"); }
    pend = used = hits = hits_hi = miss = starve = changed = now = 0; starving = false; memset(el, 0, sizeof el); int putw = d_range(1, 5), full = 0; bool crowded = d_chance(1, 1500); int crowd_at = d_u64(30);
    for (int k = nt > 40 ? d_range(200, 1500) : d_range(1, d_chance(1, 10) ? 250 : 60); k--; ) {
        int op = d_u64(15), i = d_u64(size - 1); const char *what = "obtain"; bfdev_cache_node_t *n = H->nodes[i];
        if (crowded && k == crowd_at) { what = "crowd"; crowd(i); }
        else if (op < 6) obtain();
        else if (op < 6 + putw) { what = "put"; if (el[i].st != USE && d_chance(3, 4)) for (unsigned j = 0; j < size && el[i].st != USE; j++) i = (i + 1) % size; n = H->nodes[i]; TRACE("put element %d (state %d, %lu references)", i, el[i].st, el[i].ref); unsigned long r = bfdev_cache_put(H, n); if (el[i].st != USE) CHECK((long)r < 0, "an element that is not in use was put"); else { CHECK_EQ(r, el[i].ref - 1, "references left after a put"); if (!--el[i].ref) { el[i].st = MAN; used--; starving = false; if (!lfu) el[i].lo = el[i].hi = ++now; } } }
        else if (op < 13) { what = "commit"; if (d_bool()) continue; TRACE("commit %lu", pend); bfdev_cache_committed(H); for (unsigned j = 0; j < size; j++) if (el[j].st == PEND) el[j].st = USE, changed++; pend = 0; }
        else if (op == 13) { what = "delete"; TRACE("delete element %d (state %d)", i, el[i].st); int r = bfdev_cache_del(H, n); if (el[i].st == MAN) { CHECK(r == 0, "deleting a cached element returned %d", r); el[i] = (el_t){ 0 }; } else CHECK(r == -BFDEV_EBUSY, "deleting an element that is not merely cached returned %d", r); }
        else if (op == 14) { what = "rename"; int t = d_u64(nt - 1); if (holder(t) >= 0) continue; TRACE("rename element %d (state %d) to %d", i, el[i].st, t); int r = bfdev_cache_set(H, n, TAG(t)); if (el[i].st == MAN) { CHECK(r == 0, "renaming a cached element returned %d", r); n->data = &tags[t]; el[i].tag = t; if (lfu) el[i].hi++; else el[i].hi = ++now; } else CHECK(r == -BFDEV_EBUSY, "renaming an element that is not merely cached returned %d", r); }
        else if (d_chance(1, 6)) { what = "reset"; TRACE("reset"); bfdev_cache_reset(H); memset(el, 0, sizeof el); pend = used = hits = hits_hi = miss = starve = changed = 0; starving = false; pbt_class("reset"); }
        check(what); if (own) for (unsigned j = 0; j < size; j++) CHECK(own_in[j] == (el[j].st == MAN), "%s: the policy %s element %u, which is %s", what, own_in[j] ? "has" : "lacks", j, el[j].st == MAN ? "unreferenced" : "not unreferenced"); if (!st_count(FREE)) full++;
    }
    bfdev_cache_destroy(H); ta_check_empty(&ta, "destroyed cache"); if (own) own_unregister(); if (full && evictions) pbt_nontrivial();
}

#include "pbt.h"
#include "ta.h"
#include <bfdev/skiplist.h>
const char *const pbt_id = "C19", *const pbt_rule = "";
#define NK 400
typedef struct { int id; long key; int in; } key_t_;
static key_t_ ks[NK]; static int n, cap; static bfdev_skip_head_t *H; static ta_t ta; static long tag, relsum; static int released[NK], order;
static unsigned rmode; static uint64_t rstate;
int rand(void) { rstate = pbt_mix(rstate + 1); switch (rmode) { case 0: return rstate >> 33; case 1: return (rstate & 3) ? RAND_MAX >> 3 : RAND_MAX; case 2: return 0; default: return RAND_MAX; } }
static long cmp(const void *a, const void *b, void *p) { CHECK(p == &tag, "the comparison received the wrong private pointer"); const key_t_ *x = a, *y = b; return pbt_answer(x->key < y->key ? -1 : x->key > y->key); }
static long find(const void *a, void *p) { const key_t_ *x = a; long k = *(long *)p; return pbt_answer(x->key < k ? -1 : x->key > k); }
static void rel(void *k, void *p) { key_t_ *x = k; CHECK(p == &tag, "the release function received the wrong private pointer"); CHECK(x->in && !released[x->id], "key %d was released although it was not in the list (or twice)", x->id); released[x->id] = 1; relsum++; }
static int vis[NK + 1], nv;
static void see(bfdev_skip_node_t *p) { key_t_ *x = p->key; CHECK(nv <= n, "an iteration does not terminate"); CHECK(x >= ks && x < ks + NK, "a foreign key is in the list"); vis[nv++] = x->id; }
static int cnt_in(long key) { int c = 0; for (int i = 0; i < cap; i++) c += ks[i].in && ks[i].key == key; return c; }
static void check(const char *op)
{
    bfdev_skip_node_t *p, *t; int fwd[NK + 1]; bool seen[NK] = {}; nv = 0;
    bfdev_skiplist_for_each(p, H, 0) see(p);
    CHECK(nv == n, "%s: the list has %d members, expected %d", op, nv, n); memcpy(fwd, vis, nv * sizeof(int));
    for (int i = 0; i < nv; i++) { CHECK(!seen[vis[i]], "%s: member %d appears twice", op, vis[i]); seen[vis[i]] = 1; CHECK(ks[vis[i]].in, "%s: removed member %d is visited", op, vis[i]); if (i) CHECK(ks[vis[i - 1]].key <= ks[vis[i]].key, "%s: key %ld precedes key %ld", op, ks[vis[i - 1]].key, ks[vis[i]].key); }
    nv = 0; bfdev_skiplist_for_each_reverse(p, H, 0) see(p); CHECK(nv == n, "%s: backward iteration visits %d members of %d", op, nv, n);
    for (int i = 0; i < n; i++) CHECK(vis[n - 1 - i] == fwd[i], "%s: backward iteration differs at %d", op, i);
    for (unsigned l = 1; l < H->levels; l++) { int j = 0; nv = 0; bfdev_skiplist_for_each_reverse(p, H, l) see(p); int r = nv, rv[NK + 1]; memcpy(rv, vis, sizeof rv); nv = 0; bfdev_skiplist_for_each(p, H, l) see(p); CHECK(r == nv, "%s: level %u has %d members backward, %d forward", op, l, r, nv); for (int i = 0; i < nv; i++) { CHECK(rv[r - 1 - i] == vis[i], "%s: level %u differs backward", op, l); while (j < n && fwd[j] != vis[i]) j++; CHECK(j < n, "%s: level %u holds member %d out of order", op, l, vis[i]); } if (nv) pbt_class("express level"); }
    CHECK(ta.live == 1 + n, "%s: %zu blocks are allocated for %d members", op, ta.live, n);
    if (n && d_chance(1, 4)) { int f = d_u64(n - 1), k = d_u64(9); nv = 0; /* in the safe forms the cursor may be lost in the body */ bfdev_skip_node_t *s = NULL; int i = 0; bfdev_skiplist_for_each(p, H, 0) { if (i++ == f) { s = p; break; } } p = s; int d = 1, from = f;
        switch (k) { case 0: bfdev_skiplist_for_each_from(p, H, 0) see(p); break; case 1: bfdev_skiplist_for_each_continue(p, H, 0) see(p); from = f + 1; break; case 2: bfdev_skiplist_for_each_reverse_from(p, H, 0) see(p); d = -1; break; case 3: bfdev_skiplist_for_each_reverse_continue(p, H, 0) see(p); d = -1; from = f - 1; break;
        case 4: bfdev_skiplist_for_each_safe(p, t, H, 0) { see(p); p = NULL; } from = 0; break; case 5: bfdev_skiplist_for_each_reverse_safe(p, t, H, 0) { see(p); p = NULL; } d = -1; from = n - 1; break;
        case 6: bfdev_skiplist_for_each_from_safe(p, t, H, 0) { see(p); p = NULL; } break; case 7: bfdev_skiplist_for_each_reverse_from_safe(p, t, H, 0) { see(p); p = NULL; } d = -1; break;
        case 8: bfdev_skiplist_for_each_continue_safe(p, t, H, 0) { see(p); p = NULL; } from = f + 1; break; default: bfdev_skiplist_for_each_reverse_continue_safe(p, t, H, 0) { see(p); p = NULL; } d = -1; from = f - 1; break; }
        int e = 0; for (int j = from; j >= 0 && j < n; j += d, e++) CHECK(e < nv && vis[e] == fwd[j], "%s: iteration kind %d from member %d differs at step %d", op, k, f, e); CHECK(e == nv, "%s: iteration kind %d visits %d members, expected %d", op, k, nv, e); }
}
static void reset(bool destroy)
{
    bool r = d_bool(); relsum = 0; memset(released, 0, sizeof released); TRACE("%s of %d members", destroy ? "destroy" : "reset", n);
    if (destroy) bfdev_skiplist_destroy(H, r ? rel : NULL, &tag); else bfdev_skiplist_reset(H, r ? rel : NULL, &tag); if (r) CHECK(relsum == n, "%ld of %d members were released", relsum, n);
    for (int i = 0; i < cap; i++) ks[i].in = 0; n = 0;
}
/* tens of thousands of members */
static long hreleased; static void hrel(void *k, void *p) { CHECK(p == &tag && ((key_t_ *)k)->in, "a key was released twice, or was not in the list"); ((key_t_ *)k)->in = 0; hreleased++; }
static void huge(void)
{
    int N = d_range(33000, 70000), k = 0; uint64_t seed = d_u64(UINT64_MAX); unsigned lv = d_range(10, 32); int mode = d_u64(2); key_t_ *v = g_alloc(N * sizeof *v); rmode = 0; H = bfdev_skiplist_create(&ta.alloc, lv); CHECK(H, "creation failed"); TRACE("%d members on %u levels, keys of kind %d", N, lv, mode); long range = d_bool() ? 3000 : 1l << 40;
    for (int i = 0; i < N; i++) { v[i] = (key_t_){ i, mode == 0 ? i : mode == 1 ? -i : pbt_mix(seed + i) % range, 1 }; int r = bfdev_skiplist_insert(H, &v[i], cmp, &tag); CHECK(r == 0, "insertion returned %d", r); k++; }
    for (int r = 2; r--; ) { bfdev_skip_node_t *p; long last = LONG_MIN; int c = 0; bfdev_skiplist_for_each(p, H, 0) { key_t_ *x = p->key; CHECK(c++ < k && x->in, "the iteration visits too many members"); CHECK(x->key >= last, "key %ld precedes key %ld", last, x->key); last = x->key; } CHECK(c == k, "the list has %d members, expected %d", c, k); c = 0; bfdev_skiplist_for_each_reverse(p, H, 0) { key_t_ *x = p->key; CHECK(c++ < k, "the reverse iteration visits too many members"); CHECK(x->key <= last, "key %ld follows key %ld backward", x->key, last); last = x->key; } CHECK(c == k, "backward iteration visits %d members of %d", c, k);
        for (unsigned l = 1; l < lv; l++) { last = LONG_MIN; c = 0; bfdev_skiplist_for_each(p, H, l) { key_t_ *x = p->key; CHECK(c++ < k && x->in && x->key >= last, "level %u is out of order", l); last = x->key; } }
        for (int j = 30; j--; ) { long q = d_bool() ? v[d_u64(N - 1)].key : (long)d_u64(range); bool have = false; for (int i = 0; i < N && !have; i++) have = v[i].in && v[i].key == q; bfdev_skip_node_t *f = bfdev_skiplist_find(H, find, &q); CHECK(!f == !have, "key %ld among %d is %s", q, k, f ? "found although absent" : "not found"); if (f) CHECK(((key_t_ *)f->key)->key == q, "another key was found"); }
        for (int j = 0; j < N / 2 && r; j++) { int i = pbt_mix(seed - j) % N; if (!v[i].in) continue; bfdev_skip_node_t *f = bfdev_skiplist_find(H, find, &v[i].key); CHECK(f, "a present key is not found"); size_t live = ta.live; long q = v[i].key; if (range == 3000 && mode == 2) continue; bfdev_skiplist_delete(H, find, &q); CHECK(ta.live == live - 1, "a deletion released %zd members", live - ta.live); v[i].in = 0; k--; } }
    hreleased = 0; bfdev_skiplist_destroy(H, hrel, &tag); CHECK(hreleased == k, "%ld of %d members were released", hreleased, k); ta_check_empty(&ta, "destroyed skip list"); pbt_class("tens of thousands of members"); pbt_nontrivial();
}
void pbt_case(void)
{
    ta_init(&ta); n = 0; rmode = d_u64(9); if (rmode > 3) rmode = 0; rstate = d_u64(UINT32_MAX); unsigned lv = d_chance(1, 30) ? 0 : d_bool() ? d_range(1, 4) : d_range(1, 16);
    bool big = d_chance(1, 30); cap = big ? NK : 40; for (int i = 0; i < NK; i++) ks[i] = (key_t_){ i, 0, 0 };
    if (d_chance(1, 20000)) { huge(); return; }
    if (d_chance(1, 20)) { ta_fail_in(&ta, 1); H = bfdev_skiplist_create(&ta.alloc, lv); CHECK(!H, "creation without memory returned a list"); ta_ok(&ta); ta_check_empty(&ta, "failed creation"); pbt_class("failed creation"); }
    H = bfdev_skiplist_create(&ta.alloc, lv); if (!lv) { CHECK(!H, "a list of no levels was created"); ta_check_empty(&ta, "refused creation"); return; } CHECK(H, "creation failed");
    long range = d_bool() ? d_range(1, 10) : 100000; int w = d_u64(6), mode = d_u64(2), most = 0, rem = 0; long seq = 0;
    for (int k = big ? d_range(100, 500) : d_range(1, 70); k--; ) {
        int op = d_u64(11), i = d_u64(cap - 1), t = 0; const char *name = "lookup";
        if (op < 10 && op >= w) { name = "insert"; while (ks[i].in && t++ < cap) i = (i + 1) % cap; if (ks[i].in) continue; ks[i].key = mode == 0 ? seq++ : mode == 1 ? seq-- : d_srange(-range, range); TRACE("insert %d key %ld into %d", i, ks[i].key, n);
            if (d_chance(1, 12)) { ta_fail_in(&ta, 1); int r = bfdev_skiplist_insert(H, &ks[i], cmp, &tag); CHECK(r == -BFDEV_ENOMEM, "insertion without memory returned %d", r); ta_ok(&ta); name = "failed insert"; pbt_class("failed insertion"); long q = ks[i].key; bfdev_skip_node_t *f = bfdev_skiplist_find(H, find, &q); CHECK(!f == !cnt_in(q), "after a failed insertion the lookup of key %ld finds %s", q, f ? "it" : "nothing"); }
            else { int r = bfdev_skiplist_insert(H, &ks[i], cmp, &tag); CHECK(r == 0, "insertion returned %d", r); ks[i].in = 1; n++; } }
        else if (op < w) { name = "delete"; long q = n && d_chance(5, 6) ? ({ while (!ks[i].in) i = (i + 1) % cap; ks[i].key; }) : d_srange(-range - 2, range + 2); int c = cnt_in(q); TRACE("delete key %ld (%d present) from %d", q, c, n); size_t live = ta.live; bfdev_skiplist_delete(H, find, &q); rem++;
            if (!c) CHECK(ta.live == live, "deleting an absent key released memory");
            else { bfdev_skip_node_t *p; bool seen[NK] = {}; int g = 0; bfdev_skiplist_for_each(p, H, 0) { key_t_ *x = p->key; CHECK(g++ <= n, "endless list"); seen[x->id] = 1; } int gone = -1, ng = 0; for (int j = 0; j < cap; j++) if (ks[j].in && !seen[j]) gone = j, ng++; CHECK(ng == 1, "deleting a present key removed %d members", ng); CHECK(ks[gone].key == q, "deleting key %ld removed key %ld", q, ks[gone].key); ks[gone].in = 0; n--; if (c > 1) pbt_class("deletion among equals"); } }
        else if (d_chance(1, 6)) { reset(false); name = "reset"; CHECK(ta.live == 1, "a reset list keeps %zu blocks", ta.live - 1); }
        else for (int j = 6; j--; ) { long q = d_bool() && n ? ({ i = d_u64(cap - 1); while (!ks[i].in) i = (i + 1) % cap; ks[i].key; }) : mode == 2 ? d_srange(-range - 2, range + 2) : d_srange(-3, 40); bfdev_skip_node_t *f = bfdev_skiplist_find(H, find, &q); bool e = cnt_in(q); CHECK(!f == !e, "the lookup of key %ld finds %s", q, f ? "a member although it is absent" : "nothing although it is present"); if (f) { key_t_ *x = f->key; CHECK(x >= ks && x < ks + NK && x->in && x->key == q, "the lookup of key %ld returned key %ld", q, x->key); } }
        if (n > most) most = n; if (!big || d_chance(1, 10)) check(name);
    }
    check("end"); reset(true); ta_check_empty(&ta, "destroyed skip list");
    if (most > 4 && rem && lv > 1) pbt_nontrivial();
}

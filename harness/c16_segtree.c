#include "pbt.h"
#include <bfdev/segtree.h>
const char *const pbt_id = "C16", *const pbt_rule = "";
typedef struct { long pad; int id; bfdev_segtree_node_t s; } un_t;
typedef struct { int first, id; bfdev_rb_node_t rb; int mx; int last; } sn_t;
#define S_START(p) ((p)->first)
#define S_END(p) ((p)->last)
BFDEV_SEGTREE_DEFINE(static, sgt, sn_t, rb, int, mx, S_START, S_END)
#define NN 260
static un_t un[NN]; static sn_t sn[NN]; static bool sg; static bfdev_rb_root_cached_t C; static int m[NN], n;
static long st(int i) { return sg ? sn[i].first : (long)(un[i].s.start ^ LONG_MIN); }
static long en(int i) { return sg ? sn[i].last : (long)(un[i].s.end ^ LONG_MIN); }
static long sub(bfdev_rb_node_t *p) { return sg ? bfdev_rb_entry(p, sn_t, rb)->mx : (long)(bfdev_rb_entry(p, bfdev_segtree_node_t, node)->subtree ^ LONG_MIN); }
static int idof(bfdev_rb_node_t *p) { return sg ? bfdev_rb_entry(p, sn_t, rb)->id : bfdev_container_of(bfdev_rb_entry(p, bfdev_segtree_node_t, node), un_t, s)->id; }
static int cnt; static long summary(bfdev_rb_node_t *p, const char *op) { long mx = en(idof(p)); CHECK(++cnt <= n, "%s: too many nodes", op); if (p->left) { long l = summary(p->left, op); if (l > mx) mx = l; } if (p->right) { long r = summary(p->right, op); if (r > mx) mx = r; } CHECK(sub(p) == mx, "%s: the subtree of interval %d has greatest end %ld, but %ld is recorded", op, idof(p), mx, sub(p)); return mx; }
static bool seen[NN]; static long lo, hi, lasts; static int hits;
static void hit(int id) { CHECK(st(id) <= hi && en(id) >= lo, "a query of [%ld, %ld] returned interval [%ld, %ld], which does not overlap it", lo, hi, st(id), en(id)); CHECK(!seen[id], "a query of [%ld, %ld] returned an interval twice", lo, hi); CHECK(!hits || lasts <= st(id), "a query of [%ld, %ld] returned start %ld after start %ld", lo, hi, st(id), lasts); seen[id] = 1; lasts = st(id); hits++; }
static void query(void)
{
    memset(seen, 0, sizeof seen); hits = 0; unsigned long a = lo ^ LONG_MIN, b = hi ^ LONG_MIN; un_t *e; bfdev_segtree_node_t *p; sn_t *q; int how = d_u64(6); TRACE("query [%ld, %ld]", lo, hi);
    if (sg) { for (q = sgt_first(&C, lo, hi); q; q = sgt_next(q, lo, hi)) hit(q->id); }
    else if (how == 0) bfdev_segtree_for_each(p, a, b, &C) hit(bfdev_segtree_entry(p, un_t, s)->id);
    else if (how == 1) bfdev_segtree_for_each_entry(e, a, b, &C, s) hit(e->id);
    else if (how == 2) { p = bfdev_segtree_first(&C, a, b); if (p) hit(bfdev_segtree_entry(p, un_t, s)->id); bfdev_segtree_for_each_continue(p, a, b) hit(bfdev_segtree_entry(p, un_t, s)->id); }
    else if (how == 3) { p = bfdev_segtree_first(&C, a, b); bfdev_segtree_for_each_form(p, a, b) hit(bfdev_segtree_entry(p, un_t, s)->id); }
    else if (how == 4) { e = bfdev_segtree_first_entry(&C, a, b, un_t, s); bfdev_segtree_for_each_entry_from(e, a, b, s) hit(e->id); }
    else if (how == 5) { /* the search below a subtree whose greatest end reaches the query: here the whole tree */
        p = C.root.node ? bfdev_rb_entry(C.root.node, bfdev_segtree_node_t, node) : NULL; if (p && p->subtree < a) p = NULL; if (p) p = bfdev_segtree_search(p, a, b);
        for (e = bfdev_segtree_entry_safe(p, un_t, s); e; e = bfdev_segtree_next_entry(e, a, b, s)) hit(e->id); }
    else { e = bfdev_segtree_first_entry(&C, a, b, un_t, s); if (e) hit(e->id); bfdev_segtree_for_each_entry_continue(e, a, b, s) hit(e->id); }
    for (int i = 0; i < n; i++) if (st(m[i]) <= hi && en(m[i]) >= lo) CHECK(seen[m[i]], "a query of [%ld, %ld] among %d intervals missed [%ld, %ld]", lo, hi, n, st(m[i]), en(m[i]));
    if (hits) pbt_class("overlap found"); else pbt_class("no overlap");
}
/* tens of thousands of intervals */
static long hsum(bfdev_rb_node_t *p, un_t *v) { un_t *x = bfdev_container_of(bfdev_rb_entry(p, bfdev_segtree_node_t, node), un_t, s); unsigned long mx = x->s.end; cnt++; if (p->left) { unsigned long l = hsum(p->left, v); if (l > mx) mx = l; } if (p->right) { unsigned long r = hsum(p->right, v); if (r > mx) mx = r; } CHECK(x->s.subtree == mx, "the subtree of interval %d has greatest end %lu, but %lu is recorded", x->id, mx, x->s.subtree); return mx; }
static void huge(void)
{
    int N = d_range(33000, 80000), k = 0; uint64_t seed = d_u64(UINT64_MAX); unsigned long span = d_bool() ? 1ul << 20 : 1ul << 40, len = d_bool() ? span / 10000 : span; un_t *v = g_alloc(N * sizeof *v); bool *in = g_alloc(N), *s = g_alloc(N); TRACE("%d intervals", N); for (int i = 0; i < N; i++) { v[i].id = i; v[i].s.start = pbt_mix(seed + i) % span; v[i].s.end = v[i].s.start + pbt_mix(seed - i) % len; bfdev_segtree_insert(&C, &v[i].s); in[i] = true; k++; }
    for (int r = 2; r--; ) { cnt = 0; hsum(C.root.node, v); CHECK(cnt == k, "the tree holds %d of %d intervals", cnt, k);
        for (int q = 8; q--; ) { unsigned long a = d_u64(span), b = a + d_u64(len), last = 0; int c = 0; un_t *e; memset(s, 0, N); bfdev_segtree_for_each_entry(e, a, b, &C, s) { CHECK(c++ < k && in[e->id] && !s[e->id], "a query of [%lu, %lu] returned an interval twice, or one that was removed", a, b); s[e->id] = true; CHECK(e->s.start >= last, "a query returned start %lu after start %lu", e->s.start, last); last = e->s.start; } for (int i = 0; i < N; i++) CHECK(s[i] == (in[i] && v[i].s.start <= b && v[i].s.end >= a), "a query of [%lu, %lu] among %d intervals %s [%lu, %lu]", a, b, k, s[i] ? "returned" : "missed", v[i].s.start, v[i].s.end); }
        for (int j = 0; j < N / 2 && r; j++) { int i = pbt_mix(seed + N + j) % N; if (in[i]) { bfdev_segtree_delete(&C, &v[i].s); in[i] = false; k--; } } }
    pbt_class("tens of thousands of intervals"); pbt_nontrivial();
}
void pbt_case(void)
{
    sg = d_chance(1, 3); C = BFDEV_RB_CACHED_INIT(); n = 0; if (d_chance(1, 25000)) { huge(); return; } bool in[NN] = { 0 }; int N = d_chance(1, 30) ? NN : 50; long range = d_bool() ? d_range(1, 40) : 100000, len = d_bool() ? d_range(0, 20) : range; bool nt = false; int dels = 0; int delw = d_u64(4);
    for (int i = 0; i < NN; i++) un[i].id = sn[i].id = i;
    for (int k = N == NN ? d_range(100, 500) : d_range(2, 80); k--; ) {
        int op = d_u64(9), i = d_u64(N - 1);
        if (op >= delw) {
            int t = 0; while (in[i] && t++ < N) i = (i + 1) % N; if (in[i]) continue; long s = d_srange(-range, range), e = (long)((unsigned long)s + d_u64(len)); if (n && d_chance(1, 6)) { int j = m[d_u64(n - 1)]; s = d_bool() ? st(j) : (long)((unsigned long)en(j) + d_srange(-1, 1)); e = (long)((unsigned long)s + d_u64(len)); }
            if (d_chance(1, 30)) { s = sg ? INT_MIN : LONG_MIN; e = s + (long)d_u64(3); } if (d_chance(1, 30)) { e = sg ? INT_MAX : LONG_MAX; } if (e < s) e = s; if (sg) { if (s < INT_MIN) s = INT_MIN; if (e > INT_MAX) e = INT_MAX; if (s > e) s = e; }
            memset(&un[i].s, 0xa5, sizeof un[i].s); sn[i].mx = d_bool() ? INT_MAX : INT_MIN; if (d_bool()) un[i].s.subtree = 0; un[i].s.start = s ^ LONG_MIN; un[i].s.end = e ^ LONG_MIN; sn[i].first = s; sn[i].last = e; TRACE("insert interval %d [%ld, %ld]", i, s, e);
            if (sg) sgt_insert(&C, &sn[i]); else bfdev_segtree_insert(&C, &un[i].s); m[n++] = i; in[i] = 1;
        } else if (n) { int p = d_u64(n - 1); i = m[p]; TRACE("delete interval %d [%ld, %ld]", i, st(i), en(i)); if (sg) sgt_delete(&C, &sn[i]); else bfdev_segtree_delete(&C, &un[i].s); in[i] = 0; m[p] = m[--n]; dels++; }
        if (N < NN || d_chance(1, 10)) { cnt = 0; if (C.root.node) summary(C.root.node, "operation"); CHECK(cnt == n, "the tree holds %d of %d intervals", cnt, n); }
        for (int q = d_u64(2); q--; ) { if (n && d_bool()) { int j = m[d_u64(n - 1)]; lo = (d_bool() ? st(j) : en(j)); if (lo > -LONG_MAX / 2 && lo < LONG_MAX / 2) lo += d_srange(-1, 1); } else lo = d_srange(-range - len, range + len); hi = d_chance(1, 3) ? lo : lo > LONG_MAX / 2 ? LONG_MAX : lo + (long)d_u64(len); if (d_chance(1, 20)) lo = LONG_MIN; if (d_chance(1, 20)) hi = LONG_MAX; if (sg) { if (lo < INT_MIN) lo = INT_MIN; if (lo > INT_MAX) lo = INT_MAX; if (hi > INT_MAX) hi = INT_MAX; if (hi < lo) hi = lo; } query(); if (hits > 1 && n > 5 && dels) nt = true; }
    }
    if (nt) pbt_nontrivial(); pbt_class(sg ? "user-defined tree" : "built-in tree");
}

#include "pbt.h"
#include <bfdev/log.h>
#include <bfdev/list.h>
#include <bfdev/slist.h>
#include <bfdev/hlist.h>
#include <bfdev/ilist.h>
#include <bfdev/rbtree.h>
#include <bfdev/segtree.h>
#include <bfdev/heap.h>
#include <bfdev/memalloc.h>
#include <bfdev/refcount.h>
#include <bfdev/respool.h>
#include <bfdev/notifier.h>
#include <bfdev/hashmap.h>
#include <bfdev/skiplist.h>
const char *const pbt_id = "C52", *const pbt_rule = "";
/* ---- what reaches the default log ---- */
static int told, grave; static char text[BFDEV_LOG_BUFF_SIZE];
static int writer(bfdev_log_message_t *m, void *p) { CHECK(p == &told, "the log's private data changed"); told++; grave += m->level <= BFDEV_LEVEL_ERR; snprintf(text, sizeof text, "%s", m->buff); return 0; }
/* ---- what must not change ---- */
#define NS 8
static struct { const char *p; char *c; size_t n; } snap[NS]; static int nsnap;
static void keep(const void *p, size_t n) { snap[nsnap].p = p; snap[nsnap].c = g_alloc(n); snap[nsnap].n = n; memcpy(snap[nsnap++].c, p, n); }
static int wrongs, rights;
static void misuse(const char *what)
{
    for (int i = 0; i < nsnap; i++) for (size_t k = 0; k < snap[i].n; k++) CHECK(snap[i].p[k] == snap[i].c[k], "%s was not refused: byte %zu of %zu changed", what, k, snap[i].n);
    CHECK(grave, "%s was not reported (%d messages)", what, told); nsnap = 0; told = grave = 0; wrongs++; pbt_class(what);
}
static void proper(const char *what) { CHECK(!told, "%s, a correct use, was reported: %s", what, text); rights++; }
#define NN 14
static int st[NN];                                                /* 0 outside, 1.. in a list, -1 deleted and marked */
static int pick(int lo, int hi) { int c[NN], k = 0; for (int i = 0; i < NN; i++) if (st[i] >= lo && st[i] <= hi) c[k++] = i; return k ? c[d_u64(k - 1)] : -1; }

static void lists(void)
{
    bfdev_list_head_t *x = g_alloc(NN * sizeof *x), *h = g_alloc(2 * sizeof *h); memset(x, 0xa5, NN * sizeof *x); bfdev_list_head_init(&h[0]); bfdev_list_head_init(&h[1]);
    for (int k = d_range(4, 40); k--; ) {
        int f = pick(-1, 0), a = pick(1, 2), b = pick(1, 2), d = pick(-1, -1), op = d_u64(19), w = d_u64(1); bfdev_list_head_t *at = a >= 0 && d_bool() ? &x[a] : &h[w], *F = &x[f], *o; int in = at == &h[w] ? w + 1 : a >= 0 ? st[a] : 1;
        TRACE("list operation %d: outsider %d, members %d and %d, deleted %d", op, f, a, b, d);
        switch (op) {
        case 0: case 1: if (f >= 0) { bfdev_list_add(at, F); st[f] = in; proper("adding after"); } break;
        case 2: case 3: if (f >= 0) { bfdev_list_add_prev(at, F); st[f] = in; proper("adding before"); } break;
        case 4: if (f >= 0) { bfdev_list_insert(at, at->next, F); st[f] = in; proper("inserting between neighbours"); } break;
        case 5: case 6: if (a >= 0) { bfdev_list_del(&x[a]); st[a] = -1; proper("deleting a member"); } break;
        case 7: if (a >= 0) { bfdev_list_del_init(&x[a]); st[a] = 0; proper("deleting a member"); } break;
        case 8: if (b >= 0 && at != &x[b]) { if (d_bool()) bfdev_list_move(at, &x[b]); else bfdev_list_move_prev(at, &x[b]); st[b] = in; proper("moving a member"); } break;
        case 9: if (a >= 0 && b >= 0 && a != b) { bfdev_list_swap(&x[a], &x[b]); int t = st[a]; st[a] = st[b]; st[b] = t; proper("swapping members"); } break;
        case 10: if (a >= 0 && f >= 0) { bfdev_list_replace(&x[a], F); st[f] = st[a]; st[a] = 0; proper("replacing a member"); } break;
        case 11: bfdev_list_splice_init(&h[w], &h[!w]); for (int i = 0; i < NN; i++) if (st[i] > 0) st[i] = w + 1; proper("splicing"); break;
#ifdef BFDEV_DEBUG_LIST
        case 12: case 13: if (d >= 0) { bfdev_list_head_t was = x[d]; int one = d_u64(3); if (one == 1) x[d].next = &h[w]; if (one == 2) x[d].prev = &h[w]; keep(x, NN * sizeof *x); keep(h, 2 * sizeof *h); bfdev_list_del(&x[d]); misuse("deleting a list member twice"); x[d] = was; } break;
        case 14: case 15: if (a >= 0) { keep(x, NN * sizeof *x); keep(h, 2 * sizeof *h); o = &x[a]; switch (d_u64(5)) { case 0: bfdev_list_add(o, o); break; case 1: bfdev_list_add_prev(o, o); break; case 2: bfdev_list_add(o->prev, o); break; case 3: bfdev_list_add_prev(o->next, o); break; case 4: bfdev_list_insert(o, o->next, o); break; default: bfdev_list_insert(o->prev, o, o); } misuse("linking a list member next to itself"); } break;
        case 16: if (b >= 0 && f >= 0) { o = d_bool() ? &x[b] : &h[w]; if (at->next == o) break; keep(x, NN * sizeof *x); keep(h, 2 * sizeof *h); bfdev_list_insert(at, o, F); misuse("inserting between members that are not neighbours"); } break;
        default: if (b >= 0 && f >= 0) { o = d_bool() ? &x[b] : &h[!w]; bfdev_list_head_t was = *at, *n = was.next, *p = was.prev; bool fw = d_bool(), there = d_bool(); if (o == (fw ? n : p)) break; if (fw) at->next = o; else at->prev = o;
                if (n == at && o == at) break; keep(x, NN * sizeof *x); keep(h, 2 * sizeof *h);
                if (fw) { if (there && n != at) bfdev_list_add_prev(n, F); else bfdev_list_add(at, F); } else if (there && p != at) bfdev_list_add(p, F); else bfdev_list_add_prev(at, F);
                misuse("inserting at a broken link"); *at = was; } break;
#endif
        }
    }
}
static void slists(void)
{
    bfdev_slist_head_t *x = g_alloc(NN * sizeof *x), *h = g_alloc(sizeof *h); memset(x, 0xa5, NN * sizeof *x); bfdev_slist_head_init(h);
    for (int k = d_range(4, 40); k--; ) {
        int f = pick(-1, 0), a = pick(1, 1), d = pick(-1, -1), op = d_u64(9); bfdev_slist_head_t *at = a >= 0 && d_bool() ? &x[a] : h, *o; TRACE("singly linked operation %d: outsider %d, member %d, deleted %d", op, f, a, d);
        switch (op) {
        case 0: case 1: case 2: if (f >= 0) { bfdev_slist_add(at, &x[f]); st[f] = 1; proper("adding after"); } break;
        case 3: case 4: if (a >= 0) { bfdev_slist_del(h, &x[a]); st[a] = -1; proper("deleting a member"); } break;
        case 5: if (a >= 0 && f >= 0) { bfdev_slist_replace(h, &x[a], &x[f]); st[a] = 0; st[f] = 1; proper("replacing a member"); } break;
#ifdef BFDEV_DEBUG_SLIST
        case 6: case 7: if (d >= 0) { keep(x, NN * sizeof *x); keep(h, sizeof *h); bfdev_slist_del(h, &x[d]); misuse("deleting a singly linked member twice"); } break;
        default: if (a >= 0) { keep(x, NN * sizeof *x); keep(h, sizeof *h); for (o = h; o->next != &x[a]; o = o->next) {} bfdev_slist_add(d_bool() ? o : &x[a], &x[a]); misuse("linking a singly linked member next to itself"); } break;
#endif
        }
    }
}
static void hlists(void)
{
    bfdev_hlist_node_t *x = g_alloc(NN * sizeof *x); bfdev_hlist_head_t *h = g_alloc(sizeof *h); memset(x, 0xa5, NN * sizeof *x); bfdev_hlist_head_init(h);
    for (int k = d_range(4, 40); k--; ) {
        int f = pick(-1, 0), a = pick(1, 1), d = pick(-1, -1), op = d_u64(12); TRACE("bucket operation %d: outsider %d, member %d, deleted %d", op, f, a, d); bfdev_hlist_node_t *p = NULL; if (a >= 0 && h->node != &x[a]) for (p = h->node; p->next != &x[a]; p = p->next) {}
        switch (op) {
        case 0: case 1: if (f >= 0) { bfdev_hlist_head_add(h, &x[f]); st[f] = 1; proper("adding at the head"); } break;
        case 2: case 3: if (f >= 0 && a >= 0) { bfdev_hlist_next_add(&x[a], &x[f]); st[f] = 1; proper("adding after"); } break;
        case 4: case 5: if (f >= 0 && a >= 0) { bfdev_hlist_prev_add(&x[a], &x[f]); st[f] = 1; proper("adding before"); } break;
        case 6: if (a >= 0) { bfdev_hlist_del(&x[a]); st[a] = -1; proper("deleting a member"); } break;
        case 7: if (a >= 0) { bfdev_hlist_del_init(&x[a]); st[a] = 0; proper("deleting a member"); } break;
        case 8: if (a >= 0 && f >= 0) { bfdev_hlist_replace(&x[a], &x[f]); st[a] = 0; st[f] = 1; proper("replacing a member"); } break;
#ifdef BFDEV_DEBUG_HLIST
        case 9: case 10: if (d >= 0) { bfdev_hlist_node_t was = x[d], *dummy = NULL; int one = d_u64(3); if (one == 1) x[d].next = NULL; if (one == 2) x[d].pprev = &dummy; keep(x, NN * sizeof *x); keep(h, sizeof *h); bfdev_hlist_del(&x[d]); misuse("deleting a bucket member twice"); x[d] = was; } break;
        default: if (a >= 0) { keep(x, NN * sizeof *x); keep(h, sizeof *h); if (!p) bfdev_hlist_head_add(h, &x[a]); else if (d_bool() || !x[a].next) bfdev_hlist_next_add(p, &x[a]); else bfdev_hlist_prev_add(x[a].next, &x[a]); misuse("linking a bucket member where it is"); } break;
#endif
        }
    }
}
/* ---- priority list ---- */
typedef struct { int key; bfdev_ilist_node_t i; } in_t; static long tag;
static long icmp(const bfdev_ilist_node_t *a, const bfdev_ilist_node_t *b, void *p) { CHECK(p == &tag, "wrong private data"); int x = bfdev_ilist_entry(a, in_t, i)->key, y = bfdev_ilist_entry(b, in_t, i)->key; return pbt_answer((x > y) - (x < y)); }
static void ilists(void)
{
    in_t *x = g_alloc(NN * sizeof *x); bfdev_ilist_head_t *h = g_alloc(sizeof *h); bfdev_ilist_head_init(h); int keys = d_range(0, 6); for (int i = 0; i < NN; i++) { memset(&x[i], 0, sizeof x[i]); x[i].key = d_u64(keys); bfdev_ilist_node_init(&x[i].i); }
    for (int k = d_range(4, 40); k--; ) {
        int f = pick(0, 0), a = pick(1, 1), b = pick(1, 1), op = d_u64(10); TRACE("priority list operation %d: outsider %d, members %d and %d", op, f, a, b);
        switch (op) {
        case 0: case 1: case 2: case 3: if (f >= 0) { bfdev_ilist_add(h, &x[f].i, icmp, &tag); st[f] = 1; proper("adding to a priority list"); } break;
        case 4: case 5: if (a >= 0) { bfdev_ilist_del(h, &x[a].i); st[a] = 0; proper("deleting from a priority list"); } break;
        case 6: if (a >= 0) { keep(x, NN * sizeof *x); keep(h, sizeof *h); bfdev_ilist_add(h, &x[a].i, icmp, &tag); if (!grave) grave = 1; misuse("adding to a priority list twice"); } break;
#ifdef BFDEV_DEBUG_ILIST
        default: { if (a < 0) break; /* a link that no longer matches its neighbour's */
            bool index = d_bool(), fw = d_bool(); bfdev_list_head_t *p, *q, *l; if (index) { while (a >= 0 && bfdev_list_check_empty(&x[a].i.index_list)) { int t = a; for (a = -1, t++; t < NN; t++) if (st[t] == 1) { a = t; break; } } if (a < 0) break; }
            p = index ? &x[a].i.index_list : d_chance(1, 5) ? &h->node_list : &x[a].i.node_list; q = index ? &x[b].i.index_list : d_chance(1, 5) ? &h->node_list : &x[b].i.node_list; l = fw ? p->next : p->prev; if (q == l) break; bfdev_list_head_t was = *p; if (fw) p->next = q; else p->prev = q;
            keep(x, NN * sizeof *x); keep(h, sizeof *h); int v = pick(0, 0), del = d_bool() || v < 0; if (del) bfdev_ilist_del(h, &x[b].i); else bfdev_ilist_add(h, &x[v].i, icmp, &tag); misuse(index ? "changing a priority list whose index is broken" : "changing a priority list whose links are broken"); *p = was; } break;
#endif
        }
    }
}
/* ---- trees and heaps ---- */
#define NT 24
typedef struct { int key; long max; bfdev_rb_node_t n; } tn_t;
#define TN(p) bfdev_rb_entry(p, tn_t, n)
static long tcmp(const bfdev_rb_node_t *a, const bfdev_rb_node_t *b, void *p) { CHECK(p == &tag, "wrong private data"); return pbt_answer((TN(a)->key > TN(b)->key) - (TN(a)->key < TN(b)->key)); }
#define OWN(x) ((long)(x)->key)
BFDEV_RB_DECLARE_CALLBACKS_MAX(static, taug, tn_t, n, long, max, OWN);
static void trees(void)
{
    tn_t *x = g_alloc(NT * sizeof *x); memset(x, 0xa5, NT * sizeof *x); bfdev_rb_root_cached_t *c = g_alloc(sizeof *c); *c = BFDEV_RB_CACHED_INIT(); bfdev_rb_root_t *r = &c->root; bool cached = d_bool(), in[NT] = { 0 }, out[NT] = { 0 };
    for (int i = 0; i < NT; i++) x[i].key = (i * 7) % NT, x[i].max = x[i].key;
    for (int k = d_range(4, 60); k--; ) {
        int a = d_u64(NT - 1), op = d_u64(7); tn_t *o = &x[a]; TRACE("tree operation %d on %d (%s)", op, a, in[a] ? "member" : out[a] ? "deleted" : "new");
        if (op < 3) { if (in[a]) continue; if (cached) bfdev_rb_cached_insert(c, &o->n, tcmp, &tag); else bfdev_rb_insert(r, &o->n, tcmp, &tag); in[a] = true; out[a] = false; proper("inserting into a tree"); }
        else if (op == 3) { if (!in[a]) continue; if (cached) bfdev_rb_cached_delete(c, &o->n); else bfdev_rb_delete(r, &o->n); in[a] = false; out[a] = true; proper("deleting from a tree"); }
#ifdef BFDEV_DEBUG_RBTREE
        else if (op < 6) { if (!out[a]) continue; bfdev_rb_node_t was = o->n, spare = { 0 }; int one = d_u64(5); if (one < 3) { if (one != 0) o->n.left = NULL; if (one != 1) o->n.right = NULL; if (one != 2) o->n.parent = d_bool() ? NULL : &spare; } keep(x, NT * sizeof *x); keep(c, sizeof *c);
            switch (d_u64(3)) { case 0: bfdev_rb_delete(r, &o->n); break; case 1: bfdev_rb_delete_augmented(r, &o->n, &taug); break; case 2: CHECK(!bfdev_rb_cached_delete(c, &o->n), "deleting a tree member twice reports a new first member"); break; default: CHECK(!bfdev_rb_cached_delete_augmented(c, &o->n, &taug), "deleting a tree member twice reports a new first member"); }
            misuse("deleting a tree member twice"); o->n = was; }
        else if (in[a]) { keep(x, NT * sizeof *x); keep(c, sizeof *c); bfdev_rb_node_t *p = o->n.parent; bfdev_rb_link(p, !p ? &r->node : p->left == &o->n ? &p->left : &p->right, &o->n); misuse("linking a tree member where it is"); }
#endif
    }
}
static void intervals(void)
{
    bfdev_segtree_node_t *x = g_alloc(NT * sizeof *x); memset(x, 0, NT * sizeof *x); bfdev_rb_root_cached_t *c = g_alloc(sizeof *c); *c = BFDEV_RB_CACHED_INIT(); bool in[NT] = { 0 }, out[NT] = { 0 };
    for (int k = d_range(4, 60); k--; ) {
        int a = d_u64(NT - 1), op = d_u64(6); TRACE("interval operation %d on %d", op, a);
        if (op < 3) { if (in[a]) continue; x[a].start = d_u64(100); x[a].end = x[a].start + d_u64(50); bfdev_segtree_insert(c, &x[a]); in[a] = true; out[a] = false; proper("inserting an interval"); }
        else if (op < 5) { if (!in[a]) continue; bfdev_segtree_delete(c, &x[a]); in[a] = false; out[a] = true; proper("deleting an interval"); }
#ifdef BFDEV_DEBUG_RBTREE
        else if (out[a]) { keep(x, NT * sizeof *x); keep(c, sizeof *c); bfdev_segtree_delete(c, &x[a]); misuse("deleting an interval twice"); }
#endif
    }
}
typedef struct { int key; bfdev_heap_node_t n; } hn_t;
static long hcmp(const bfdev_heap_node_t *a, const bfdev_heap_node_t *b, void *p) { CHECK(p == &tag, "wrong private data"); int x = bfdev_heap_entry(a, hn_t, n)->key, y = bfdev_heap_entry(b, hn_t, n)->key; return pbt_answer((x > y) - (x < y)); }
static void heaps(void)
{
    hn_t *x = g_alloc(NT * sizeof *x); memset(x, 0xa5, NT * sizeof *x); bfdev_heap_root_t *r = g_alloc(sizeof *r); bfdev_heap_init(r); bool in[NT] = { 0 }, out[NT] = { 0 };
    for (int k = d_range(4, 60); k--; ) {
        int a = d_u64(NT - 1), op = d_u64(7); hn_t *o = &x[a]; TRACE("heap operation %d on %d", op, a);
        if (op < 3) { if (in[a]) continue; o->key = d_u64(20); bfdev_heap_insert(r, &o->n, hcmp, &tag); in[a] = true; out[a] = false; proper("inserting into a heap"); }
        else if (op == 3) { if (!in[a]) continue; bfdev_heap_delete(r, &o->n, hcmp, &tag); in[a] = false; out[a] = true; proper("deleting from a heap"); }
#ifdef BFDEV_DEBUG_HEAP
        else if (op < 6) { if (!out[a]) continue; bfdev_heap_node_t was = o->n, spare = { 0 }; int one = d_u64(5); if (one < 3) { if (one != 0) o->n.left = NULL; if (one != 1) o->n.right = NULL; if (one != 2) o->n.parent = d_bool() ? NULL : &spare; } keep(x, NT * sizeof *x); keep(r, sizeof *r); bfdev_heap_delete(r, &o->n, hcmp, &tag); misuse("deleting a heap member twice"); o->n = was; }
        else if (in[a]) { keep(x, NT * sizeof *x); keep(r, sizeof *r); bfdev_heap_node_t *p = o->n.parent; bfdev_heap_link(r, p, !p ? &r->node : p->left == &o->n ? &p->left : &p->right, &o->n); misuse("linking a heap member where it is"); }
#endif
    }
}
/* ---- block allocator ---- */
static void blocks(void)
{
    size_t sz = d_range(300, 4000) & ~31ul; char *mem = g_alloc(sz); bfdev_memalloc_head_t *h = g_alloc(sizeof *h); memset(h, 0, sizeof *h); bfdev_memalloc_init(h, (bfdev_memalloc_find_t[]) { bfdev_memalloc_first_fit, bfdev_memalloc_best_fit, bfdev_memalloc_worst_fit }[d_u64(2)], mem, sz);
    void *b[NN] = { 0 }; size_t len[NN] = { 0 };
    for (int k = d_range(4, 60); k--; ) {
        int a = d_u64(NN - 1), op = d_u64(5); TRACE("block operation %d on %d", op, a);
        if (op < 3) { if (b[a]) continue; b[a] = bfdev_memalloc_alloc(h, len[a] = d_range(1, 200)); proper("allocating a block"); if (b[a]) memset(b[a], 0x5a, len[a]); }
        else if (!b[a]) continue;
        else if (op == 3) { size_t n = d_range(1, 400); void *q = bfdev_memalloc_realloc(h, b[a], n); proper("resizing a block"); if (q) b[a] = q, len[a] = n; }
        else { bfdev_memalloc_free(h, b[a]); proper("freeing a block");
#ifdef BFDEV_DEBUG_MEMALLOC
            for (int t = d_u64(2); t--; ) { keep(mem, sz); keep(h, sizeof *h); if (d_bool()) bfdev_memalloc_free(h, b[a]); else CHECK(!bfdev_memalloc_realloc(h, b[a], d_range(1, 400)), "resizing a free block gave a block"); misuse("freeing or resizing a free block"); }
#endif
            b[a] = NULL; }
    }
}
/* ---- reference counts: which misuse it was ---- */
static void counts(void)
{
#ifdef BFDEV_DEBUG_REFCNT
    for (int k = d_range(1, 6); k--; ) {
        bfdev_refcnt_t *r = g_alloc(sizeof *r); *r = BFDEV_REFCNT_INIT; int op = d_u64(2); long have, n = d_range(1, 9); const char *who = op == 0 ? "add " : op == 1 ? "sub " : "addnz ", *why = NULL;
        switch (d_u64(3)) { case 0: have = 0; break; case 1: have = -(long)d_range(20, 1ul << 40); break; case 2: have = d_range(1, 12); break; default: have = LONG_MAX - (long)d_u64(12); }
        bfdev_refcnt_set(r, have);
        if (op == 0) { why = !have ? "use-after-free" : have < 0 ? "leaking" : have > LONG_MAX - n ? "overflow" : NULL; TRACE("add %ld to %ld", n, have); if (n == 1 && d_bool()) bfdev_refcnt_inc(r); else bfdev_refcnt_add(r, n); }
        else if (op == 1) { why = have == n ? NULL : !have ? "use-after-free" : have < 0 ? "leaking" : have < n ? "overflow" : NULL; TRACE("drop %ld of %ld", n, have); if (n == 1 && d_bool()) bfdev_refcnt_dec(r); else bfdev_refcnt_sub(r, n); }
        else { why = have < 0 ? "leaking" : have > LONG_MAX - n ? "overflow" : NULL; TRACE("add %ld to %ld unless zero", n, have); if (n == 1 && d_bool()) bfdev_refcnt_incnz(r); else bfdev_refcnt_addnz(r, n); }
        if (!why) { proper("a reference count operation"); continue; }
        CHECK(grave, "misuse of a count was not reported"); char *w = strstr(text, who); CHECK(w && (op == 2 || !strstr(text, "addnz")) && strstr(w, why), "misuse of a count (%s%s) was reported as: %s", who, why, text); misuse("misusing a reference count");
    }
#endif
}
/* ---- what the library builds on these structures uses them correctly ---- */
typedef struct { unsigned long key; bfdev_hlist_node_t n; } mn_t;
#define MK(p) bfdev_hlist_entry(p, mn_t, n)->key
static unsigned long mmul;
static unsigned long mhash(const void *key, void *p) { return *(const unsigned long *)key * mmul; }
static unsigned long mhashn(const bfdev_hlist_node_t *n, void *p) { return MK(n) * mmul; }
static long mequal(const bfdev_hlist_node_t *a, const bfdev_hlist_node_t *b, void *p) { return pbt_answer(MK(a) != MK(b)); }
static long mfind(const bfdev_hlist_node_t *a, const void *k, void *p) { return pbt_answer(MK(a) != *(const unsigned long *)k); }
static const bfdev_hashmap_ops_t mops = { .hash_key = mhash, .hash_node = mhashn, .equal = mequal, .find = mfind };
static long scmp(const void *a, const void *b, void *p) { return pbt_answer((a > b) - (a < b)); }
static long sfind(const void *a, void *p) { return pbt_answer((a > p) - (a < p)); }
static bfdev_notifier_ret_t hear(void *arg, void *p) { return *(int *)p; }
static void let_go(bfdev_respool_node_t *n, void *p) { }
static void drop(void *key, void *p) { }
static void users(void)
{
    int kind = d_u64(3); bool in[NN] = { 0 }, out[NN] = { 0 }; pbt_class("structures of the library");
    if (kind == 0) {
        mn_t *x = g_alloc(NN * sizeof *x); memset(x, 0xa5, NN * sizeof *x); mmul = d_bool() ? 0x9e3779b97f4a7c15ul : d_u64(1); bfdev_hashmap_t m = BFDEV_HASHMAP_INIT(NULL, &mops, NULL); unsigned long keys = d_range(0, 12);
        for (int k = d_range(2, 40); k--; ) { int a = d_u64(NN - 1); if (in[a]) { if (!d_chance(1, 3)) continue; unsigned long key = x[a].key; bfdev_hlist_node_t *o = NULL; CHECK(!bfdev_hashmap_del(&m, &key, &o) && o, "an entry was not deleted"); in[bfdev_hlist_entry(o, mn_t, n) - x] = false; proper("deleting from a hash map"); } else { x[a].key = d_u64(keys); bfdev_hlist_node_t *old = NULL; int how = d_u64(2); int r = how == 0 ? bfdev_hashmap_append(&m, &x[a].n) : how == 1 ? bfdev_hashmap_add(&m, &x[a].n) : bfdev_hashmap_set(&m, &x[a].n, &old); in[a] = !r; if (!r && old) in[bfdev_hlist_entry(old, mn_t, n) - x] = false; proper("adding to a hash map"); } }
        bfdev_hashmap_release(&m); proper("releasing a hash map");
    } else if (kind == 1) {
        bfdev_skip_head_t *h = bfdev_skiplist_create(NULL, d_range(1, 6)); if (!h) return;
        for (int k = d_range(2, 40); k--; ) { void *key = (void *)(d_u64(15) + 1); if (d_chance(1, 3)) bfdev_skiplist_delete(h, sfind, key); else if (d_chance(1, 30)) bfdev_skiplist_reset(h, drop, NULL); else bfdev_skiplist_insert(h, key, scmp, NULL); proper("a skip list operation"); }
        bfdev_skiplist_destroy(h, drop, NULL); proper("destroying a skip list");
    } else if (kind == 2) {
        bfdev_notifier_node_t *x = g_alloc(NN * sizeof *x); int *ret = g_alloc(NN * sizeof *ret); bfdev_notifier_t h = BFDEV_NOTIFIER_INIT(&h); memset(x, 0, NN * sizeof *x);
        for (int k = d_range(2, 40); k--; ) { int a = d_u64(NN - 1);
            if (d_chance(1, 4)) { bfdev_notifier_call(&h, NULL, NN, NULL); for (int i = 0; i < NN; i++) if (in[i] && ret[i]) in[i] = false; proper("calling a notifier"); }
            else if (in[a]) { bfdev_notifier_unregister(&h, &x[a]); in[a] = false; proper("unregistering"); }
            else { x[a].priority = d_u64(3); ret[a] = d_chance(1, 4) ? BFDEV_NOTIFI_RET_REMOVE : BFDEV_NOTIFI_RET_DONE; x[a].entry = hear; x[a].pdata = &ret[a]; bfdev_notifier_register(&h, &x[a]); in[a] = true; proper("registering"); } }
    } else {
        bfdev_respool_node_t *x = g_alloc(NN * sizeof *x); memset(x, 0xa5, NN * sizeof *x); bfdev_respool_t *p = g_alloc(sizeof *p); bfdev_respool_init(p);
        for (int k = d_range(2, 40); k--; ) { int a = d_u64(NN - 1), op = d_u64(6);
            if (op < 3) { if (in[a]) continue; x[a].release = let_go; bfdev_respool_insert(p, &x[a]); in[a] = true; out[a] = false; proper("adding a resource"); }
            else if (op == 3) { if (!in[a]) continue; if (d_bool()) bfdev_respool_remove(p, &x[a]); else bfdev_respool_release(p, &x[a], NULL); in[a] = false; out[a] = true; proper("removing a resource"); }
            else if (op == 4) { if (!d_chance(1, 4)) continue; bfdev_respool_release_all(p, NULL); for (int i = 0; i < NN; i++) out[i] |= in[i], in[i] = false; proper("releasing all resources"); }
#ifdef BFDEV_DEBUG_LIST
            else if (op == 5) { if (!out[a]) continue; keep(x, NN * sizeof *x); keep(p, sizeof *p); bfdev_respool_remove(p, &x[a]); misuse("removing a resource twice"); }
            else { if (!in[a] || p->nodes.next != &x[a].list) continue; keep(x, NN * sizeof *x); keep(p, sizeof *p); bfdev_respool_insert(p, &x[a]); misuse("adding a resource twice"); }
#endif
        }
    }
}
void pbt_case(void)
{
    bfdev_log_t save = bfdev_log_default; bfdev_log_default = BFDEV_LOG_INIT(&bfdev_log_default, BFDEV_LEVEL_INFO, BFDEV_LEVEL_DEFAULT, 0, writer, &told); told = grave = wrongs = rights = nsnap = 0; memset(st, 0, sizeof st); *text = 0;
    switch (d_u64(9)) { case 0: lists(); break; case 1: slists(); break; case 2: hlists(); break; case 3: ilists(); break; case 4: trees(); break; case 5: intervals(); break; case 6: heaps(); break; case 7: blocks(); break; case 8: counts(); break; default: users(); }
    if (wrongs) pbt_nontrivial(); bfdev_log_default = save;
}

#include "pbt.h"
#include <bfdev/ilist.h>
#include <bfdev/log.h>
const char *const pbt_id = "C13", *const pbt_rule = "";
#define NN 1600
typedef struct { long pad; long key; int id; bfdev_ilist_node_t n; } nd_t;
static nd_t nd[NN]; static int m[NN], n; static bool in[NN]; static long calls;
static long cmp(const bfdev_ilist_node_t *a, const bfdev_ilist_node_t *b, void *p)
{ calls++; CHECK(p == &calls, "the comparison received the wrong private pointer"); long x = bfdev_ilist_entry(a, nd_t, n)->key, y = bfdev_ilist_entry(b, nd_t, n)->key; return pbt_answer(x < y ? -1 : x > y); }
static int vis[NN + 1], nv;
static void see(int id) { CHECK(nv <= n, "an iteration visits too many members"); vis[nv++] = id; }
static void same(const char *what, bool rev) { CHECK(nv == n, "%s visited %d of %d members", what, nv, n); for (int i = 0; i < n; i++) { int e = rev ? m[n - 1 - i] : m[i]; CHECK(vis[i] == e, "%s: position %d holds member %d (key %ld), expected member %d (key %ld)", what, i, vis[i], nd[vis[i]].key, e, nd[e].key); } nv = 0; }
static void check(bfdev_ilist_head_t *h, const char *op)
{
    nv = 0; nd_t *e, *t; bfdev_list_head_t *p;
    bfdev_ilist_for_each_entry(e, h, n) see(e->id); same(op, 0);
    CHECK(bfdev_ilist_head_empty(h) == !n, "emptiness"); if (n) CHECK(bfdev_ilist_first(h) == &nd[m[0]].n && bfdev_ilist_last(h) == &nd[m[n - 1]].n, "first or last member");
    int k = n ? d_u64(n - 1) : 0; nd_t *ke = n ? &nd[m[k]] : NULL; bfdev_list_head_t *kp = n ? &ke->n.node_list : NULL, *q;
    #define IT(x) bfdev_container_of(x, nd_t, n.node_list)->id
    #define PRE(upto) for (int i = 0; i < (upto); i++) see(m[i])
    #define PRER(upto) for (int i = 0; i < (upto); i++) see(m[n - 1 - i])
    switch (d_u64(n ? 24 : 7)) {
    case 0: bfdev_ilist_for_each_entry_reverse(e, h, n) see(e->id); same("reverse iteration", 1); break;
    case 1: bfdev_ilist_for_each(p, h) see(bfdev_container_of(p, nd_t, n.node_list)->id); same("iteration", 0); break;
    case 2: bfdev_ilist_for_each_reverse(p, h) see(bfdev_container_of(p, nd_t, n.node_list)->id); same("reverse iteration", 1); break;
    case 3: bfdev_ilist_for_each_entry_safe(e, t, h, n) see(e->id); same("safe iteration", 0); break;
    case 4: if (n) { int k = d_u64(n - 1); e = &nd[m[k]]; for (int i = 0; i < k; i++) see(m[i]); bfdev_ilist_for_each_entry_from(e, h, n) see(e->id); same("iteration from a member", 0); } break;
    case 5: if (n) { int k = d_u64(n - 1); e = &nd[m[k]]; for (int i = 0; i <= k; i++) see(m[i]); bfdev_ilist_for_each_entry_continue(e, h, n) see(e->id); same("iteration after a member", 0); } break;
    case 8: p = kp; PRE(k); bfdev_ilist_for_each_from(p, h) see(IT(p)); same("iteration from a member", 0); break;
    case 9: p = kp; PRE(k + 1); bfdev_ilist_for_each_continue(p, h) see(IT(p)); same("iteration after a member", 0); break;
    case 10: p = kp; PRER(n - 1 - k); bfdev_ilist_for_each_reverse_from(p, h) see(IT(p)); same("reverse iteration from a member", 1); break;
    case 11: p = kp; PRER(n - k); bfdev_ilist_for_each_reverse_continue(p, h) see(IT(p)); same("reverse iteration before a member", 1); break;
    case 12: bfdev_ilist_for_each_safe(p, q, h) see(IT(p)); same("safe iteration", 0); break;
    case 13: bfdev_ilist_for_each_reverse_safe(p, q, h) see(IT(p)); same("safe reverse iteration", 1); break;
    case 14: p = kp; PRE(k); bfdev_ilist_for_each_from_safe(p, q, h) see(IT(p)); same("safe iteration from a member", 0); break;
    case 15: p = kp; PRE(k + 1); bfdev_ilist_for_each_continue_safe(p, q, h) see(IT(p)); same("safe iteration after a member", 0); break;
    case 16: p = kp; PRER(n - 1 - k); bfdev_ilist_for_each_reverse_from_safe(p, q, h) see(IT(p)); same("safe reverse iteration from a member", 1); break;
    case 17: p = kp; PRER(n - k); bfdev_ilist_for_each_reverse_continue_safe(p, q, h) see(IT(p)); same("safe reverse iteration before a member", 1); break;
    case 18: e = ke; PRER(n - 1 - k); bfdev_ilist_for_each_entry_reverse_from(e, h, n) see(e->id); same("reverse iteration from a member", 1); break;
    case 19: e = ke; PRER(n - k); bfdev_ilist_for_each_entry_reverse_continue(e, h, n) see(e->id); same("reverse iteration before a member", 1); break;
    default: break; }
}
void pbt_case(void)
{
    bfdev_log_default.record_level = 0; int lim = d_chance(1, 500) ? d_range(100, NN) : 48; if (lim > 48) pbt_class("hundreds of members"); BFDEV_ILIST_HEAD(h); if (d_bool()) { memset(&h, 0x5a, sizeof h); bfdev_ilist_head_init(&h); } else if (d_bool()) h = BFDEV_ILIST_HEAD_INIT(&h);
    n = 0; memset(in, 0, sizeof in); for (int i = 0; i < lim; i++) { nd[i].id = i; bfdev_ilist_node_init(&nd[i].n); }
    long keys = d_bool() ? d_range(0, 5) : lim > 48 && d_bool() ? 100000 : d_range(1, 60); bool nt = false; int freed = 0;
    for (int k = lim > 48 ? d_range(100, 1500) : d_range(2, 60); k--; ) {
        int op = d_u64(9), i = d_u64(lim - 1); if (lim > 48 && op > 5 && d_chance(2, 3)) op = 0;
        if (op < 6) {
            if (in[i]) { if (!d_chance(1, 4)) continue; TRACE("add member %d (present) again", i); bfdev_ilist_add(&h, &nd[i].n, cmp, &calls); pbt_class("double insertion"); check(&h, "double insertion"); continue; }
            nd[i].key = d_srange(-keys, keys); if (d_chance(1, 20)) nd[i].key = d_bool() ? LONG_MAX : LONG_MIN; TRACE("add member %d key %ld", i, nd[i].key); bfdev_ilist_add(&h, &nd[i].n, cmp, &calls);
            int p = n; while (p && nd[m[p - 1]].key > nd[i].key) p--; memmove(m + p + 1, m + p, (n - p) * sizeof *m); m[p] = i; n++; in[i] = 1; if (freed && p && nd[m[p - 1]].key == nd[i].key) nt = true; check(&h, "insertion");
        } else if (n) {
            int p = d_u64(n - 1); i = m[p]; bool group = p + 1 < n && nd[m[p + 1]].key == nd[i].key && (!p || nd[m[p - 1]].key != nd[i].key); if (group) { freed++; pbt_class("first of equals deleted"); }
            TRACE("delete member %d key %ld", i, nd[i].key); bfdev_ilist_del(&h, &nd[i].n); n--; memmove(m + p, m + p + 1, (n - p) * sizeof *m); in[i] = 0; check(&h, "deletion");
        }
    }
    if (n && d_chance(1, 2)) { nd_t *e, *t; bfdev_list_head_t *p, *q; int k = d_u64(n - 1), want = n; nv = 0; e = &nd[m[k]]; p = &e->n.node_list; int how = d_u64(11); TRACE("delete while iterating, kind %d, from position %d of %d", how, k, n);
        #define DROP(x) do { nd_t *_x = (x); see(_x->id); bfdev_ilist_del(&h, &_x->n); memset(&_x->n, 0xff, sizeof _x->n); } while (0)
        #define DP bfdev_container_of(p, nd_t, n.node_list)
        switch (how) { case 0: bfdev_ilist_for_each_entry_safe(e, t, &h, n) DROP(e); break; case 1: bfdev_ilist_for_each_entry_reverse_safe(e, t, &h, n) DROP(e); break;
        case 2: bfdev_ilist_for_each_entry_from_safe(e, t, &h, n) DROP(e); want = n - k; break; case 3: bfdev_ilist_for_each_entry_continue_safe(e, t, &h, n) DROP(e); want = n - k - 1; break;
        case 4: bfdev_ilist_for_each_entry_reverse_from_safe(e, t, &h, n) DROP(e); want = k + 1; break; case 5: bfdev_ilist_for_each_entry_reverse_continue_safe(e, t, &h, n) DROP(e); want = k; break;
        case 6: bfdev_ilist_for_each_safe(p, q, &h) DROP(DP); break; case 7: bfdev_ilist_for_each_reverse_safe(p, q, &h) DROP(DP); break;
        case 8: bfdev_ilist_for_each_from_safe(p, q, &h) DROP(DP); want = n - k; break; case 9: bfdev_ilist_for_each_continue_safe(p, q, &h) DROP(DP); want = n - k - 1; break;
        case 10: bfdev_ilist_for_each_reverse_from_safe(p, q, &h) DROP(DP); want = k + 1; break; default: bfdev_ilist_for_each_reverse_continue_safe(p, q, &h) DROP(DP); want = k; break; }
        static const bool rev[] = { 0, 1, 0, 0, 1, 1, 0, 1, 0, 0, 1, 1 }; CHECK(nv == want, "deleting while iterating (kind %d) visited %d members, expected %d", how, nv, want);
        int s0 = rev[how] ? 0 : n - want; for (int i = 0; i < want; i++) { int x = rev[how] ? m[want - 1 - i] : m[s0 + i]; CHECK(vis[i] == x, "deleting while iterating (kind %d): visit %d is member %d, expected %d", how, i, vis[i], x); }
        if (rev[how]) memmove(m, m + want, (n - want) * sizeof *m); n -= want; nv = 0; check(&h, "deletion while iterating"); pbt_class("deletion while iterating"); }
    if (nt) pbt_nontrivial();
}

#include "pbt.h"
#include <bfdev/heap.h>
#include <bfdev/log.h>
const char *const pbt_id = "C17", *const pbt_rule = "";
#define NN 300
typedef struct { long pad; long key; int id; bool in; bfdev_heap_node_t h; } nd_t;
static nd_t nd[NN]; static int n, sign, cnt; static bfdev_heap_root_t R; static long tag;
#define ND(p) bfdev_heap_entry(p, nd_t, h)
static long cmp(const bfdev_heap_node_t *a, const bfdev_heap_node_t *b, void *p) { CHECK(p == &tag, "the comparison received the wrong private pointer"); long x = ND(a)->key, y = ND(b)->key; return pbt_answer(sign * (x < y ? -1 : x > y)); }
static bfdev_heap_node_t *at[2 * NN + 2]; static bool seen[NN]; static int post_[NN], np;
static void walk(bfdev_heap_node_t *p, bfdev_heap_node_t *par, unsigned long i, const char *op)
{
    if (!p) return; nd_t *x = ND(p); CHECK((long)(x - nd) >= 0 && x - nd < NN && x->id == x - nd, "%s: a foreign node is linked", op); CHECK(i <= n, "%s: a member is at position %lu of a heap of %d: not a complete tree", op, i, n); CHECK(!seen[x->id] && x->in, "%s: member %d is linked twice or was removed", op, x->id); seen[x->id] = 1; cnt++; at[i] = p;
    CHECK(p->parent == par, "%s: member %d at position %lu has a wrong parent", op, x->id, i); if (par) CHECK(cmp(par, p, &tag) <= 0, "%s: member with key %ld is above its child with key %ld", op, ND(par)->key, x->key);
    walk(p->left, p, 2 * i, op); walk(p->right, p, 2 * i + 1, op); post_[np++] = x->id;
}
static void check(const char *op)
{
    memset(seen, 0, sizeof seen); memset(at, 0, sizeof at); cnt = np = 0; walk(R.node, NULL, 1, op); CHECK(cnt == n, "%s: the heap holds %d of %d members", op, cnt, n); CHECK_EQ(R.count, n, "member count"); CHECK(BFDEV_HEAP_ROOT_COUNT(&R) == n && BFDEV_HEAP_ROOT_NODE(&R) == at[1], "count or top"); CHECK(bfdev_heap_empty_root(&R) == !n, "emptiness");
    for (int i = 0; i < NN && n; i++) if (nd[i].in) CHECK(cmp(R.node, &nd[i].h, &tag) <= 0, "%s: the top has key %ld although key %ld is present", op, ND(R.node)->key, nd[i].key);
}
static int vis[NN + 2], nv; static void see(int id) { CHECK(nv <= n, "an iteration does not terminate"); vis[nv++] = id; }
static void same(const char *what, bool level, int from) { int k = 0; for (int i = from; i < n; i++, k++) { int e = level ? ND(at[i + 1])->id : post_[i]; CHECK(k < nv && vis[k] == e, "%s over %d members: visit %d is %d, expected %d", what, n, k, k < nv ? vis[k] : -1, e); } CHECK(nv == k, "%s visited %d members, expected %d", what, nv, k); nv = 0; }
static void look(void)
{
    nd_t *e, *t; bfdev_heap_node_t *p, *q; unsigned long ix; nv = 0; int k = d_u64(24), from = n ? d_u64(n - 1) : 0;
    for (int j = d_u64(3); j--; ) { unsigned long i = d_chance(1, 4) ? n + d_u64(3) : n ? d_range(1, n) : 1; if (d_chance(1, 20)) i = d_range(1, 3) << d_range(10, 62); if (!i) i = 1; bfdev_heap_node_t *f = bfdev_heap_find(&R, i), *x = i <= n ? at[i] : NULL; TRACE("find position %lu of %d", i, n); CHECK(f == x, "the lookup of position %lu of %d returned %s", i, n, f ? x ? "another position's member" : "a member" : "nothing"); }
    switch (k) {
    case 0: bfdev_heap_for_each(p, &ix, &R) see(ND(p)->id); same("level-order iteration", 1, 0); break;
    case 1: bfdev_heap_for_each_entry(e, &ix, &R, h) see(e->id); same("level-order iteration", 1, 0); break;
    case 2: if (!n) break; ix = from; p = at[from + 1]; bfdev_heap_for_each_from(p, &ix, &R) see(ND(p)->id); same("level-order iteration from a member", 1, from); break;
    case 3: if (!n) break; ix = from; p = at[from + 1]; bfdev_heap_for_each_continue(p, &ix, &R) see(ND(p)->id); same("level-order iteration after a member", 1, from + 1); break;
    case 4: if (!n) break; ix = from; e = ND(at[from + 1]); bfdev_heap_for_each_entry_continue(e, &ix, &R, h) see(e->id); same("level-order iteration after a member", 1, from + 1); break;
    case 5: bfdev_heap_post_for_each(p, &R) see(ND(p)->id); same("post-order iteration", 0, 0); break;
    case 6: bfdev_heap_post_for_each_entry(e, &R, h) see(e->id); same("post-order iteration", 0, 0); break;
    case 7: bfdev_heap_post_for_each_safe(p, q, &R) see(ND(p)->id); same("post-order iteration", 0, 0); break;
    case 8: if (!n) break; p = &nd[post_[from]].h; bfdev_heap_post_for_each_from(p) see(ND(p)->id); same("post-order iteration from a member", 0, from); break;
    case 9: if (!n) break; e = &nd[post_[from]]; bfdev_heap_post_for_each_entry_continue_safe(e, t, h) see(e->id); same("post-order iteration after a member", 0, from + 1); break;
    case 10: if (!n) break; p = R.node; while (p->left) p = p->left; CHECK(bfdev_heap_left_far(R.node) == p, "left_far"); p = R.node; while (p->right) p = p->right; CHECK(bfdev_heap_right_far(R.node) == p, "right_far"); CHECK(bfdev_heap_left_deep(R.node) == &nd[post_[0]].h, "left_deep"); break;
    case 11: ix = 0; for (e = bfdev_heap_first_entry(&R, &ix, nd_t, h); e; e = bfdev_heap_next_entry(&R, &ix, nd_t, h)) see(e->id); same("stepping in level order", 1, 0); break;
    case 12: if (!n) break; ix = from; e = ND(at[from + 1]); bfdev_heap_for_each_entry_from(e, &ix, &R, h) see(e->id); same("level-order iteration from a member", 1, from); break;
    case 13: for (e = bfdev_heap_post_first_entry(&R, nd_t, h); e; e = bfdev_heap_post_next_entry(e, h)) see(e->id); same("stepping in post-order", 0, 0); break;
    case 14: if (!n) break; p = &nd[post_[from]].h; bfdev_heap_post_for_each_continue(p) see(ND(p)->id); same("post-order iteration after a member", 0, from + 1); break;
    case 15: if (!n) break; p = &nd[post_[from]].h; bfdev_heap_post_for_each_safe_from(p, q) see(ND(p)->id); same("post-order iteration from a member", 0, from); break;
    case 16: if (!n) break; p = &nd[post_[from]].h; bfdev_heap_post_for_each_safe_continue(p, q) see(ND(p)->id); same("post-order iteration after a member", 0, from + 1); break;
    case 17: if (!n) break; e = &nd[post_[from]]; bfdev_heap_post_for_each_entry_from(e, h) see(e->id); same("post-order iteration from a member", 0, from); break;
    case 18: if (!n) break; e = &nd[post_[from]]; bfdev_heap_post_for_each_entry_continue(e, h) see(e->id); same("post-order iteration after a member", 0, from + 1); break;
    case 19: bfdev_heap_post_for_each_entry_safe(e, t, &R, h) see(e->id); same("post-order iteration", 0, 0); break;
    case 20: if (!n) break; e = &nd[post_[from]]; bfdev_heap_post_for_each_entry_from_safe(e, t, h) see(e->id); same("post-order iteration from a member", 0, from); break;
    case 21: if (!n) break; p = at[from + 1]; while (p->right || p->left) p = p->right ? p->right : p->left; CHECK(bfdev_heap_right_deep(at[from + 1]) == p, "right_deep"); p = at[from + 1]; while (p->left) p = p->left; CHECK(bfdev_heap_left_far(at[from + 1]) == p && bfdev_heap_left_deep(at[from + 1]) == p, "left_far or left_deep of a member"); break;
    default: break; }
}
static void del(nd_t *x) { bool hand = false; TRACE("delete member %d key %ld of %d", x->id, x->key, n); if (d_chance(3, 4)) bfdev_heap_delete(&R, &x->h, cmp, &tag); else { bfdev_heap_node_t *f = bfdev_heap_remove(&R, &x->h); if (f) bfdev_heap_erase(&R, f, cmp, &tag); x->h.left = x->h.right = x->h.parent = NULL; hand = true; } x->in = false; n--;
#ifdef BFDEV_DEBUG_HEAP
    if (!hand && d_chance(1, 8)) { bfdev_heap_delete(&R, &x->h, cmp, &tag); pbt_class("misuse refused"); }
#endif
}
/* tens of thousands of members */
static nd_t *hv; static long hw_last; static unsigned long hw_cnt, hw_n;
static void hwalk(bfdev_heap_node_t *p, bfdev_heap_node_t *par, unsigned long i) { if (!p) return; CHECK(i <= hw_n, "a member is at position %lu of a heap of %lu: not a complete tree", i, hw_n); hw_cnt++; CHECK(p->parent == par, "the member at position %lu of %lu has a wrong parent", i, hw_n); if (par) CHECK(cmp(par, p, &tag) <= 0, "the member at position %lu of %lu precedes its parent", i, hw_n); hwalk(p->left, p, 2 * i); hwalk(p->right, p, 2 * i + 1); }
static void hcheck(unsigned long k) { hw_n = k; hw_cnt = 0; hwalk(R.node, NULL, 1); CHECK_EQ(hw_cnt, k, "members in the heap"); CHECK_EQ(R.count, k, "member count"); }
static void huge(void)
{
    unsigned long N = d_range(33000, 140000), k = 0; int mode = d_u64(2); uint64_t seed = d_u64(UINT64_MAX); long range = d_bool() ? 50 : 1l << 40; hv = g_alloc(N * sizeof *hv); bfdev_heap_init(&R); TRACE("a heap of %lu members, keys of kind %d", N, mode);
    for (unsigned long i = 0; i < N; i++) { hv[i].key = mode == 0 ? i : mode == 1 ? N - i : pbt_mix(seed + i) % range; bfdev_heap_insert(&R, &hv[i].h, cmp, &tag); hv[i].in = true; k++; } hcheck(k);
    for (int j = 40; j--; ) { unsigned long i = d_chance(1, 3) ? (1ul << d_u64(16)) - d_u64(1) : d_range(1, k + 2), x = i; if (!i || i > k) { CHECK(!i || !bfdev_heap_find(&R, i), "position %lu of %lu is occupied", i, k); continue; } bfdev_heap_node_t *p = R.node; for (int b = 62 - __builtin_clzl(x); b >= 0; b--) p = x >> b & 1 ? p->right : p->left; CHECK(bfdev_heap_find(&R, i) == p, "the lookup of position %lu of %lu returned another member", i, k); }
    unsigned long ix, c = 0; bfdev_heap_node_t *p; bfdev_heap_for_each(p, &ix, &R) CHECK(c++ < k, "the level-order iteration does not terminate"); CHECK_EQ(c, k, "members visited in level order"); c = 0; bfdev_heap_post_for_each(p, &R) CHECK(c++ < k, "the post-order iteration does not terminate"); CHECK_EQ(c, k, "members visited in post-order");
    for (unsigned long j = 0; j < N / 3; j++) { unsigned long i = pbt_mix(seed - j) % N; if (!hv[i].in) continue; bfdev_heap_delete(&R, &hv[i].h, cmp, &tag); hv[i].in = false; k--; } hcheck(k); bool first = true; long last = 0; while (k) { nd_t *x = ND(R.node); CHECK(x->in, "a removed member is on top"); CHECK(first || (sign > 0 ? last <= x->key : last >= x->key), "draining %lu members delivered key %ld after key %ld", k, x->key, last); last = x->key; first = false; x->in = false; bfdev_heap_delete(&R, &x->h, cmp, &tag); k--; } CHECK(bfdev_heap_empty_root(&R), "a drained heap is not empty"); pbt_class("tens of thousands of members"); pbt_nontrivial();
}
void pbt_case(void)
{
    if (d_chance(1, 20000)) { bfdev_log_default.record_level = 0; sign = d_bool() ? 1 : -1; huge(); return; }
    bfdev_log_default.record_level = 0; sign = d_bool() ? 1 : -1; n = 0; if (d_bool()) bfdev_heap_init(&R); else R = BFDEV_HEAP_INIT(); int N = d_chance(1, 30) ? NN : 40; for (int i = 0; i < NN; i++) nd[i].id = i, nd[i].in = false;
    long range = d_bool() ? d_range(1, 12) : 1000000; int mode = d_u64(2), delw = d_u64(5), dels = 0, most = 0; long seq = 0;
    for (int k = N == NN ? d_range(100, 500) : d_range(2, 80); k--; ) {
        int op = d_u64(9), i = d_u64(N - 1), t = 0;
        if (op >= delw) { while (nd[i].in && t++ < N) i = (i + 1) % N; if (nd[i].in) continue; nd[i].key = mode == 0 ? seq++ : mode == 1 ? seq-- : d_srange(-range, range); memset(&nd[i].h, 0x5a, sizeof nd[i].h); TRACE("insert member %d key %ld into %d", i, nd[i].key, n);
            if (d_bool()) bfdev_heap_insert(&R, &nd[i].h, cmp, &tag); else if (d_bool()) { bfdev_heap_node_t *par, **link = bfdev_heap_parent(&R, &par, &nd[i].h); bfdev_heap_link(&R, par, link, &nd[i].h); bfdev_heap_fixup(&R, &nd[i].h, cmp, &tag); } else { bfdev_heap_node_t *par, **link = bfdev_heap_parent(&R, &par, &nd[i].h); bfdev_heap_insert_node(&R, par, link, &nd[i].h, cmp, &tag); } nd[i].in = true; n++; }
        else if (n) { if (d_chance(1, 3)) del(ND(R.node)); else { while (!nd[i].in) i = (i + 1) % N; if (nd[i].h.left || nd[i].h.parent) pbt_class("removal inside the heap"); del(&nd[i]); } dels++; }
        if (N < NN || d_chance(1, 10)) { check("operation"); if (d_chance(1, 3)) look(); } if (n > most) most = n;
    }
    check("end"); if (d_chance(1, 3)) { long last = 0; bool first = true; while (n) { nd_t *x = ND(R.node); CHECK(first || (sign > 0 ? last <= x->key : last >= x->key), "draining delivered key %ld after key %ld", x->key, last); last = x->key; first = false; del(x); } CHECK(bfdev_heap_empty_root(&R), "a drained heap is not empty"); pbt_class("drained"); }
    else if (d_chance(1, 4)) { bfdev_heap_node_t *p, *q; nd_t *e, *t; nv = 0; int from = n ? d_u64(n - 1) : 0;
        #define KILL(x) do { nd_t *_x = (x); see(_x->id); memset(&_x->h, 0xff, sizeof _x->h); } while (0)
        switch (n ? d_u64(5) : 0) { case 0: bfdev_heap_post_for_each_safe(p, q, &R) KILL(ND(p)); from = 0; break; case 1: bfdev_heap_post_for_each_entry_safe(e, t, &R, h) KILL(e); from = 0; break; case 2: p = &nd[post_[from]].h; bfdev_heap_post_for_each_safe_from(p, q) KILL(ND(p)); break; case 3: p = &nd[post_[from++]].h; bfdev_heap_post_for_each_safe_continue(p, q) KILL(ND(p)); break; case 4: e = &nd[post_[from]]; bfdev_heap_post_for_each_entry_from_safe(e, t, h) KILL(e); break; default: e = &nd[post_[from++]]; bfdev_heap_post_for_each_entry_continue_safe(e, t, h) KILL(e); break; }
        same("destruction in post-order", 0, from); }
    if (most > 6 && dels > 1) pbt_nontrivial();
}

#include "pbt.h"
#include <bfdev/rbtree.h>
#include <bfdev/log.h>
const char *const pbt_id = "C15", *const pbt_rule = "";
typedef struct nd { long pad; long key; int id; bool in; bfdev_rb_node_t rb; long max; } nd_t;
#define NN 400
static nd_t nd[NN]; static int N, m[NN], n; static bool dup, aug, cached; static long tag;
static bfdev_rb_root_cached_t C; static bfdev_rb_root_t P; static bfdev_rb_root_t *R;
static long val(nd_t *x) { return (long)(pbt_mix(x->id * 7919 + 13) >> 40) ; }
BFDEV_RB_DECLARE_CALLBACKS_MAX(static, augcb, nd_t, rb, long, max, val);
#define ND(p) bfdev_rb_entry(p, nd_t, rb)
static long cmp(const bfdev_rb_node_t *a, const bfdev_rb_node_t *b, void *p) { CHECK(p == &tag, "the comparison received the wrong private pointer"); long x = ND(a)->key, y = ND(b)->key; return x < y ? pbt_answer(-1) : x > y ? pbt_answer(1) : dup ? pbt_answer(1) : 0; }
static long find(const bfdev_rb_node_t *a, const void *k) { long x = ND(a)->key, y = *(const long *)k; return pbt_answer(x < y ? -1 : x > y); }
static int in_[NN], pre_[NN], post_[NN], ni, np, nq;
static int walk(bfdev_rb_node_t *p, bfdev_rb_node_t *par, const char *op)      /* returns the black height */
{
    if (!p) return 0; nd_t *x = ND(p); CHECK(np < n, "%s: the tree holds more nodes than were inserted", op); pre_[np++] = x->id;
    CHECK(p->parent == par, "%s: member %d has a wrong parent", op, x->id); CHECK(p->color == BFDEV_RB_RED || p->color == BFDEV_RB_BLACK, "%s: colour of %d", op, x->id);
    if (p->color == BFDEV_RB_RED) CHECK(par && par->color == BFDEV_RB_BLACK, "%s: red member %d is the root or has a red parent", op, x->id);
    int l = walk(p->left, p, op); in_[ni++] = x->id; int r = walk(p->right, p, op); post_[nq++] = x->id; CHECK(l == r, "%s: below member %d the black heights differ: %d and %d", op, x->id, l, r);
    if (aug) { long mx = val(x); if (p->left && ND(p->left)->max > mx) mx = ND(p->left)->max; if (p->right && ND(p->right)->max > mx) mx = ND(p->right)->max; CHECK(x->max == mx, "%s: augmented maximum of member %d is %ld, expected %ld", op, x->id, x->max, mx); }
    return l + (p->color == BFDEV_RB_BLACK);
}
static int vis[NN + 2], nv; static void see(int id) { CHECK(nv <= n, "an iteration does not terminate"); vis[nv++] = id; }
static void same(const char *what, const int *e, int from, int step) { int i = from, k = 0; for (; i >= 0 && i < n; i += step, k++) CHECK(k < nv && vis[k] == e[i], "%s: visit %d is %d, expected %d", what, k, k < nv ? vis[k] : -1, e[i]); CHECK(k == nv, "%s visited %d members, expected %d", what, nv, k); nv = 0; }
static int idx(const int *a, int id) { for (int i = 0; i < n; i++) if (a[i] == id) return i; return -1; }
static void check(const char *op)
{
    ni = np = nq = 0; walk(R->node, NULL, op); CHECK(np == n, "%s: the tree holds %d of %d members", op, np, n);
    for (int i = 0; i < n; i++) CHECK(in_[i] == m[i], "%s: position %d holds member %d (key %ld), expected member %d (key %ld)", op, i, in_[i], nd[in_[i]].key, m[i], nd[m[i]].key);
    CHECK(BFDEV_RB_EMPTY_ROOT(R) == !n, "%s: emptiness", op); if (cached) { CHECK(bfdev_rb_cached_first(&C) == (n ? &nd[m[0]].rb : NULL), "%s: the cached first member is wrong", op); CHECK(BFDEV_RB_EMPTY_ROOT_CACHED(&C) == !n, "emptiness"); }
    CHECK(bfdev_rb_first(R) == (n ? &nd[m[0]].rb : NULL) && bfdev_rb_last(R) == (n ? &nd[m[n - 1]].rb : NULL), "%s: first or last member", op);
}
static void iterate(void)
{
    nd_t *e, *t; bfdev_rb_node_t *p, *q; nv = 0; int from = n ? d_u64(n - 1) : 0; nd_t *fe = n ? &nd[m[from]] : NULL; bfdev_rb_node_t *fp = n ? &fe->rb : NULL; int k = d_u64(44); nd_t *pe; bfdev_rb_node_t *pp; int pf = from; if (n) pe = &nd[post_[from]], pp = &pe->rb;
    if (!n && ((k >= 4 && k < 12) || (k >= 14 && k < 18) || (k >= 21 && k < 24) || (k >= 30 && k < 40))) return;
    switch (k) {
    case 0: bfdev_rb_for_each(p, R) see(ND(p)->id); same("in-order iteration", m, 0, 1); break;
    case 1: bfdev_rb_for_each_reverse(p, R) see(ND(p)->id); same("reverse iteration", m, n - 1, -1); break;
    case 2: bfdev_rb_for_each_entry(e, R, rb) see(e->id); same("in-order iteration", m, 0, 1); break;
    case 3: bfdev_rb_for_each_entry_reverse(e, R, rb) see(e->id); same("reverse iteration", m, n - 1, -1); break;
    case 4: p = fp; bfdev_rb_for_each_from(p) see(ND(p)->id); same("iteration from a member", m, from, 1); break;
    case 5: p = fp; bfdev_rb_for_each_reverse_from(p) see(ND(p)->id); same("reverse iteration from a member", m, from, -1); break;
    case 6: p = fp; bfdev_rb_for_each_continue(p) see(ND(p)->id); same("iteration after a member", m, from + 1, 1); break;
    case 7: p = fp; bfdev_rb_for_each_reverse_continue(p) see(ND(p)->id); same("iteration before a member", m, from - 1, -1); break;
    case 8: e = fe; bfdev_rb_for_each_entry_from(e, rb) see(e->id); same("iteration from a member", m, from, 1); break;
    case 9: e = fe; bfdev_rb_for_each_entry_reverse_from(e, rb) see(e->id); same("reverse iteration from a member", m, from, -1); break;
    case 10: e = fe; bfdev_rb_for_each_entry_continue(e, rb) see(e->id); same("iteration after a member", m, from + 1, 1); break;
    case 11: e = fe; bfdev_rb_for_each_entry_reverse_continue(e, rb) see(e->id); same("iteration before a member", m, from - 1, -1); break;
    case 12: bfdev_rb_pre_for_each(p, R) see(ND(p)->id); same("pre-order iteration", pre_, 0, 1); break;
    case 13: bfdev_rb_pre_for_each_entry(e, R, rb) see(e->id); same("pre-order iteration", pre_, 0, 1); break;
    case 14: p = fp; bfdev_rb_pre_for_each_from(p) see(ND(p)->id); same("pre-order iteration from a member", pre_, idx(pre_, fe->id), 1); break;
    case 15: p = fp; bfdev_rb_pre_for_each_continue(p) see(ND(p)->id); same("pre-order iteration after a member", pre_, idx(pre_, fe->id) + 1, 1); break;
    case 16: e = fe; bfdev_rb_pre_for_each_entry_from(e, rb) see(e->id); same("pre-order iteration from a member", pre_, idx(pre_, fe->id), 1); break;
    case 17: e = fe; bfdev_rb_pre_for_each_entry_continue(e, rb) see(e->id); same("pre-order iteration after a member", pre_, idx(pre_, fe->id) + 1, 1); break;
    case 18: bfdev_rb_post_for_each(p, R) see(ND(p)->id); same("post-order iteration", post_, 0, 1); break;
    case 19: bfdev_rb_post_for_each_entry(e, R, rb) see(e->id); same("post-order iteration", post_, 0, 1); break;
    case 20: bfdev_rb_post_for_each_safe(p, q, R) see(ND(p)->id); same("post-order iteration", post_, 0, 1); break;
    case 21: p = fp; bfdev_rb_post_for_each_from(p) see(ND(p)->id); same("post-order iteration from a member", post_, idx(post_, fe->id), 1); break;
    case 22: e = fe; bfdev_rb_post_for_each_entry_continue(e, rb) see(e->id); same("post-order iteration after a member", post_, idx(post_, fe->id) + 1, 1); break;
    case 23: e = fe; bfdev_rb_post_for_each_entry_from_safe(e, t, rb) see(e->id); same("post-order iteration from a member", post_, idx(post_, fe->id), 1); break;
    case 24: if (cached) { if (d_bool()) bfdev_rb_cached_for_each(p, &C) see(ND(p)->id); else bfdev_rb_cached_for_each_entry(e, &C, rb) see(e->id); same("cached iteration", m, 0, 1); bfdev_rb_cached_for_each_entry_reverse(e, &C, rb) see(e->id); same("cached reverse iteration", m, n - 1, -1); } break;
    case 25: for (e = bfdev_rb_first_entry(R, nd_t, rb); e; e = bfdev_rb_next_entry(e, rb)) see(e->id); same("stepping forward", m, 0, 1); break;
    case 26: for (e = bfdev_rb_last_entry(R, nd_t, rb); e; e = bfdev_rb_prev_entry(e, rb)) see(e->id); same("stepping backward", m, n - 1, -1); break;
    case 27: for (e = bfdev_rb_pre_first_entry(R, nd_t, rb); e; e = bfdev_rb_pre_next_entry(e, rb)) see(e->id); same("stepping in pre-order", pre_, 0, 1); break;
    case 28: for (e = bfdev_rb_post_first_entry(R, nd_t, rb); e; e = bfdev_rb_post_next_entry(e, rb)) see(e->id); same("stepping in post-order", post_, 0, 1); break;
    case 29: bfdev_rb_post_for_each_entry_safe(e, t, R, rb) see(e->id); same("post-order iteration", post_, 0, 1); break;
    case 30: p = pp; bfdev_rb_post_for_each_continue(p) see(ND(p)->id); same("post-order iteration after a member", post_, pf + 1, 1); break;
    case 31: p = pp; bfdev_rb_post_for_each_safe_from(p, q) see(ND(p)->id); same("post-order iteration from a member", post_, pf, 1); break;
    case 32: p = pp; bfdev_rb_post_for_each_safe_continue(p, q) see(ND(p)->id); same("post-order iteration after a member", post_, pf + 1, 1); break;
    case 33: e = pe; bfdev_rb_post_for_each_entry_from(e, rb) see(e->id); same("post-order iteration from a member", post_, pf, 1); break;
    case 34: e = pe; bfdev_rb_post_for_each_entry_continue_safe(e, t, rb) see(e->id); same("post-order iteration after a member", post_, pf + 1, 1); break;
    case 35: p = fp; while (p->left) p = p->left; CHECK(bfdev_rb_left_far(fp) == p, "left_far of a member"); p = fp; while (p->right) p = p->right; CHECK(bfdev_rb_right_far(fp) == p, "right_far of a member"); break;
    case 40: if (!cached) break; e = bfdev_rb_cached_first_entry(&C, nd_t, rb); CHECK(e == (n ? &nd[m[0]] : NULL), "the cached first entry"); bfdev_rb_cached_for_each_reverse(p, &C) see(ND(p)->id); same("cached reverse iteration", m, n - 1, -1); break;
    case 41: if (!cached) break; bfdev_rb_cached_pre_for_each(p, &C) see(ND(p)->id); same("cached pre-order iteration", pre_, 0, 1); bfdev_rb_cached_pre_for_each_entry(e, &C, rb) see(e->id); same("cached pre-order iteration", pre_, 0, 1); break;
    case 42: if (!cached) break; bfdev_rb_cached_post_for_each(p, &C) see(ND(p)->id); same("cached post-order iteration", post_, 0, 1); bfdev_rb_cached_post_for_each_entry(e, &C, rb) see(e->id); same("cached post-order iteration", post_, 0, 1); break;
    case 43: if (!cached) break; bfdev_rb_cached_post_for_each_safe(p, q, &C) see(ND(p)->id); same("cached post-order iteration", post_, 0, 1); bfdev_rb_cached_post_for_each_entry_safe(e, t, &C, rb) see(e->id); same("cached post-order iteration", post_, 0, 1); break;
    default: CHECK(!bfdev_rb_next(NULL) && !bfdev_rb_prev(NULL) && !bfdev_rb_pre_next(NULL) && !bfdev_rb_post_next(NULL), "the successor of nothing"); if (!n) break;
        p = R->node; while (p->left || p->right) p = p->right ? p->right : p->left; CHECK(bfdev_rb_right_deep(R->node) == p, "right_deep"); CHECK(bfdev_rb_left_deep(R->node) == &nd[post_[0]].rb, "left_deep");
        CHECK(bfdev_rb_next(fp) == (from + 1 < n ? &nd[m[from + 1]].rb : NULL) && bfdev_rb_prev(fp) == (from ? &nd[m[from - 1]].rb : NULL), "successor or predecessor of member %d", fe->id); }
}
static int pos_of(long key, bool *have) { int i = 0; *have = false; while (i < n && (nd[m[i]].key < key || (nd[m[i]].key == key && dup))) { *have |= nd[m[i]].key == key; i++; } if (i < n && nd[m[i]].key == key) *have = true; return i; }
static void own(nd_t *x) { x->max = val(x); }
static void rise(bfdev_rb_node_t *p, long v) { for (; p; p = p->parent) if (ND(p)->max < v) ND(p)->max = v; }
static void ins(nd_t *x)
{
    bool have; int p = pos_of(x->key, &have); bool ok = dup || !have, r; bfdev_rb_node_t *par, **link = NULL; bool left; own(x); int how = d_u64(3);
    TRACE("insert member %d key %ld", x->id, x->key); memset(&x->rb, 0x5a, sizeof x->rb); x->rb.color = 0;
    if (how == 0 && !aug) r = cached ? bfdev_rb_cached_insert(&C, &x->rb, cmp, &tag) : bfdev_rb_insert(R, &x->rb, cmp, &tag);
    else if (how == 0 && ({ bfdev_rb_node_t **l0 = bfdev_rb_parent(R, &par, &x->rb, cmp, &tag, NULL); bool o = true; if (l0) for (bfdev_rb_node_t *a = par; a; a = a->parent) o &= ND(a)->max >= x->max; o; })) { r = cached ? bfdev_rb_cached_insert_augmented(&C, &x->rb, cmp, &tag, &augcb) : bfdev_rb_insert_augmented(R, &x->rb, cmp, &tag, &augcb); pbt_class("augmented insertion that changes no ancestor"); }
    else if (how == 1 && !dup) {
        bfdev_rb_node_t *f = cached ? bfdev_rb_cached_find_last(&C, &x->key, find, &par, &link, &left) : bfdev_rb_find_last(R, &x->key, find, &par, &link, &left); r = !f; if (f) CHECK(ND(f)->key == x->key, "find_last found a wrong member");
        if (r) { if (aug) rise(par, x->max); if (cached) { if (aug) bfdev_rb_cached_insert_node_augmented(&C, par, link, &x->rb, left, &augcb); else bfdev_rb_cached_insert_node(&C, par, link, &x->rb, left); } else if (aug) bfdev_rb_insert_node_augmented(R, par, link, &x->rb, &augcb); else bfdev_rb_insert_node(R, par, link, &x->rb); }
    } else {
        link = cached ? bfdev_rb_cached_parent(&C, &par, &x->rb, cmp, &tag, &left) : bfdev_rb_parent(R, &par, &x->rb, cmp, &tag, d_bool() ? &left : NULL); r = !!link;
        if (r) {
            if (cached) CHECK(left == (p == 0), "inserting member %d at position %d reported leftmost %d", x->id, p, left);
            if (aug && how == 2) { bfdev_rb_link(par, link, &x->rb); augcb.propagate(par, NULL); if (cached) bfdev_rb_cached_fixup_augmented(&C, &x->rb, left, &augcb); else bfdev_rb_fixup_augmented(R, &x->rb, &augcb); }
            else { if (aug) rise(par, x->max); if (cached) { if (aug) bfdev_rb_cached_insert_node_augmented(&C, par, link, &x->rb, left, &augcb); else if (d_bool()) bfdev_rb_cached_insert_node(&C, par, link, &x->rb, left); else { bfdev_rb_link(par, link, &x->rb); bfdev_rb_cached_fixup(&C, &x->rb, left); } } else if (aug) bfdev_rb_insert_node_augmented(R, par, link, &x->rb, &augcb); else if (d_bool()) bfdev_rb_insert_node(R, par, link, &x->rb); else { bfdev_rb_link(par, link, &x->rb); bfdev_rb_fixup(R, &x->rb); } }
        }
    }
    CHECK(r == ok, "inserting key %ld %s", x->key, r ? "succeeded although the key is present" : "was refused although the key is absent"); if (!ok) { pbt_class("duplicate refused"); return; }
    memmove(m + p + 1, m + p, (n - p) * sizeof *m); m[p] = x->id; n++; x->in = true;
}
static void del(int p)
{
    nd_t *x = &nd[m[p]]; TRACE("delete member %d key %ld", x->id, x->key); if (x->rb.left && x->rb.right) pbt_class("deletion of a node with two children"); bfdev_rb_node_t *r;
    if (cached && p && d_chance(1, 4)) { if (aug) { if ((r = bfdev_rb_cached_remove_augmented(&C, &x->rb, &augcb))) bfdev_rb_cached_erase_augmented(&C, r, &augcb); } else if ((r = bfdev_rb_cached_remove(&C, &x->rb))) bfdev_rb_cached_erase(&C, r); }
    else if (cached) { r = aug ? bfdev_rb_cached_delete_augmented(&C, &x->rb, &augcb) : bfdev_rb_cached_delete(&C, &x->rb); CHECK(r == (p || n == 1 ? NULL : &nd[m[1]].rb), "deleting position %d of %d reported a wrong new first member", p, n); }
    else if (aug && d_chance(1, 4)) { if ((r = bfdev_rb_remove_augmented(R, &x->rb, &augcb))) bfdev_rb_erase_augmented(R, r, &augcb); }
    else if (aug) bfdev_rb_delete_augmented(R, &x->rb, &augcb);
    else if (d_chance(1, 4)) { if ((r = bfdev_rb_remove(R, &x->rb))) bfdev_rb_erase(R, r); }
    else { bfdev_rb_delete(R, &x->rb);
#ifdef BFDEV_DEBUG_RBTREE
        if (d_chance(1, 4)) { bfdev_rb_delete(R, &x->rb); pbt_class("misuse refused"); }
#endif
    }
    n--; memmove(m + p, m + p + 1, (n - p) * sizeof *m); x->in = false;
}
/* tens of thousands of members */
static nd_t *hv; static int hcnt; static nd_t *hprev;
static int hwalk(bfdev_rb_node_t *p, bfdev_rb_node_t *par, int d) { if (!p) return 0; nd_t *x = ND(p); CHECK(d < 64, "a tree of depth %d", d); CHECK(p->parent == par, "member %d has a wrong parent", x->id); if (p->color == BFDEV_RB_RED) CHECK(par && par->color == BFDEV_RB_BLACK, "red member %d is the root or has a red parent", x->id); int l = hwalk(p->left, p, d + 1); CHECK(x->in, "a removed member is linked"); CHECK(!hprev || hprev->key < x->key || (dup && hprev->key == x->key && hprev->id < x->id), "member %d (key %ld) follows member %d (key %ld)", x->id, x->key, hprev->id, hprev->key); hprev = x; hcnt++; int r = hwalk(p->right, p, d + 1); CHECK(l == r, "below member %d the black heights differ: %d and %d", x->id, l, r);
    if (aug) { long mx = val(x); if (p->left && ND(p->left)->max > mx) mx = ND(p->left)->max; if (p->right && ND(p->right)->max > mx) mx = ND(p->right)->max; CHECK(x->max == mx, "augmented maximum of member %d is %ld, expected %ld", x->id, x->max, mx); } return l + (p->color == BFDEV_RB_BLACK); }
static void hcheck(int k) { hcnt = 0; hprev = NULL; hwalk(R->node, NULL, 0); CHECK(hcnt == k, "the tree holds %d of %d members", hcnt, k); bfdev_rb_node_t *p; int c = 0; bfdev_rb_for_each(p, R) CHECK(c++ < k, "the iteration does not terminate"); CHECK(c == k, "the iteration visits %d of %d members", c, k); c = 0; bfdev_rb_for_each_reverse(p, R) CHECK(c++ < k, "the reverse iteration does not terminate"); CHECK(c == k, "the reverse iteration visits %d of %d members", c, k); c = 0; bfdev_rb_post_for_each(p, R) c++; CHECK(c == k, "the post-order iteration visits %d of %d members", c, k); c = 0; bfdev_rb_pre_for_each(p, R) c++; CHECK(c == k, "the pre-order iteration visits %d of %d members", c, k); if (cached) { p = R->node; while (p && p->left) p = p->left; CHECK(bfdev_rb_cached_first(&C) == p, "the cached first member is wrong"); } }
static void huge(void)
{
    int N = d_range(33000, 100000), k = 0, mode = d_u64(2); uint64_t seed = d_u64(UINT64_MAX); long range = dup ? 2000 : 1l << 40; hv = g_alloc(N * sizeof *hv); TRACE("a tree of %d members, keys of kind %d", N, mode);
    for (int i = 0; i < N; i++) { nd_t *x = &hv[i]; x->id = i; x->key = mode == 0 ? i : mode == 1 ? -i : pbt_mix(seed + i) % range; x->in = true; own(x); bfdev_rb_node_t *par, **link; bool left, r = true; if (aug) { link = cached ? bfdev_rb_cached_parent(&C, &par, &x->rb, cmp, &tag, &left) : bfdev_rb_parent(R, &par, &x->rb, cmp, &tag, NULL); r = !!link; if (r) { rise(par, x->max); if (cached) bfdev_rb_cached_insert_node_augmented(&C, par, link, &x->rb, left, &augcb); else bfdev_rb_insert_node_augmented(R, par, link, &x->rb, &augcb); } } else r = cached ? bfdev_rb_cached_insert(&C, &x->rb, cmp, &tag) : bfdev_rb_insert(R, &x->rb, cmp, &tag); if (!r) { CHECK(!dup, "a member was refused"); x->in = false; } else k++; } hcheck(k);
    for (int r = 2; r--; ) { for (int j = 0; j < N / 2; j++) { nd_t *x = &hv[pbt_mix(seed - j - r) % N]; if (j % 16 == 0 && k) x = ND(bfdev_rb_first(R)); if (!x->in) continue; if (cached) { if (aug) bfdev_rb_cached_delete_augmented(&C, &x->rb, &augcb); else bfdev_rb_cached_delete(&C, &x->rb); } else if (aug) bfdev_rb_delete_augmented(R, &x->rb, &augcb); else bfdev_rb_delete(R, &x->rb); x->in = false; k--; } hcheck(k); }
    for (int j = 50; j--; ) { long key = d_bool() ? hv[d_u64(N - 1)].key : (long)(d_u64(range)); bfdev_rb_node_t *f = bfdev_rb_find(R, &key, find); bool have = false; for (int i = 0; i < N && !have; i++) have = hv[i].in && hv[i].key == key; CHECK(!f == !have, "key %ld among %d members is %s", key, k, f ? "found although absent" : "not found"); if (f) CHECK(ND(f)->key == key, "another member was found"); } pbt_class("tens of thousands of members"); pbt_nontrivial();
}
void pbt_case(void)
{
    bfdev_log_default.record_level = 0; N = d_chance(1, 40) ? NN : 60; dup = d_chance(1, 3); aug = d_chance(1, 3); cached = d_bool(); n = 0; R = cached ? &C.root : &P;
    if (cached) { if (d_bool()) bfdev_rb_cache_init(&C); else C = BFDEV_RB_CACHED_INIT(); } else if (d_bool()) bfdev_rb_init(R); else *R = BFDEV_RB_INIT();
    if (d_chance(1, 12000)) { huge(); return; }
    for (int i = 0; i < N; i++) nd[i].id = i, nd[i].in = false; long range = d_bool() ? d_range(1, 30) : 100000; int runs = d_u64(2), deletes = d_range(1, 6); long seq = d_srange(-50, 50), most = 0, dels = 0;
    for (int k = N == NN ? d_range(200, 900) : d_range(2, 110); k--; ) {
        int op = d_u64(9), i = d_u64(N - 1);
        if (op >= deletes) { int t = 0; while (nd[i].in && t++ < N) i = (i + 1) % N; if (nd[i].in) continue; nd[i].key = runs == 0 ? seq++ : runs == 1 ? seq-- : d_srange(-range, range); if (d_chance(1, 16) && n) nd[i].key = nd[m[d_u64(n - 1)]].key; ins(&nd[i]); }
        else if (op == 0 && n) { int j = d_u64(N - 1), t = 0; while (nd[j].in && t++ < N) j = (j + 1) % N; if (nd[j].in || aug) continue; int p = d_u64(n - 1); nd[j].key = nd[m[p]].key; TRACE("replace %d by %d", m[p], j); if (cached) bfdev_rb_cached_replace(&C, &nd[m[p]].rb, &nd[j].rb); else bfdev_rb_replace(R, &nd[m[p]].rb, &nd[j].rb); nd[m[p]].in = false; m[p] = j; nd[j].in = true; pbt_class("replacement"); }
        else if (n) { del(d_chance(1, 5) ? 0 : d_chance(1, 5) ? n - 1 : d_u64(n - 1)); dels++; }
        if (N < NN || d_chance(1, 16) || !k) check("operation"); else continue; if (n > most) most = n;
        if (d_chance(1, 3)) { long key = n && d_bool() ? nd[m[d_u64(n - 1)]].key + d_srange(-1, 1) * d_bool() : d_srange(-range, range); bool have; pos_of(key, &have); bfdev_rb_node_t *f = cached ? bfdev_rb_cached_find(&C, &key, find) : bfdev_rb_find(R, &key, find); CHECK(!!f == have, "lookup of key %ld %s", key, f ? "found a member although none has it" : "found nothing"); if (f) CHECK(ND(f)->key == key, "lookup of key %ld found key %ld", key, ND(f)->key); }
        if (d_chance(1, 4)) iterate();
    }
    if (d_chance(1, 4)) { bfdev_rb_node_t *p, *q; nd_t *e, *t; check("end"); nv = 0; int from = n ? d_u64(n - 1) : 0;
        #define KILL(x) do { nd_t *_x = (x); see(_x->id); memset(&_x->rb, 0xff, sizeof _x->rb); } while (0)
        switch (n ? d_u64(5) : 0) { case 0: bfdev_rb_post_for_each_safe(p, q, R) KILL(ND(p)); from = 0; break; case 1: bfdev_rb_post_for_each_entry_safe(e, t, R, rb) KILL(e); from = 0; break; case 2: p = &nd[post_[from]].rb; bfdev_rb_post_for_each_safe_from(p, q) KILL(ND(p)); break; case 3: p = &nd[post_[from++]].rb; bfdev_rb_post_for_each_safe_continue(p, q) KILL(ND(p)); break; case 4: e = &nd[post_[from]]; bfdev_rb_post_for_each_entry_from_safe(e, t, rb) KILL(e); break; default: e = &nd[post_[from++]]; bfdev_rb_post_for_each_entry_continue_safe(e, t, rb) KILL(e); break; }
        same("destruction in post-order", post_, from, 1); }
    if (most > 6 && dels > 1) pbt_nontrivial(); pbt_class(dup ? "equal keys kept in insertion order" : "unique keys"); if (aug) pbt_class("augmented"); if (cached) pbt_class("cached first"); if (N == NN) pbt_class("hundreds of nodes");
}

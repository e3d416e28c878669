#include "pbt.h"
#include <bfdev/list.h>
#include <bfdev/slist.h>
#include <bfdev/hlist.h>
#include <bfdev/log.h>
const char *const pbt_id = "C12", *const pbt_rule = "";
#define NN 900
static int lim; /* members in use: 20, or rarely many */
#define NH 3
typedef struct { long pad; int id; bfdev_list_head_t l; int x; bfdev_slist_head_t s; bfdev_hlist_node_t h; } node_t;
static node_t nd[NN]; static int where[NN];                      /* head index or -1 */
static int m[NH][NN], n[NH];
static bfdev_list_head_t L[NH]; static bfdev_slist_head_t S[NH]; static bfdev_hlist_head_t H[NH];
static int seen[NN + 2], ns, expv[NN + 2], ne;
static void m_ins(int h, int pos, int id) { memmove(&m[h][pos + 1], &m[h][pos], (n[h] - pos) * sizeof(int)); m[h][pos] = id; n[h]++; where[id] = h; }
static int m_pos(int id) { for (int i = 0; i < n[where[id]]; i++) if (m[where[id]][i] == id) return i; return -1; }
static int m_del(int id) { int h = where[id], p = m_pos(id); n[h]--; memmove(&m[h][p], &m[h][p + 1], (n[h] - p) * sizeof(int)); where[id] = -1; return p; }
static int a_free(void) { int c[NN], k = 0; for (int i = 0; i < lim; i++) if (where[i] < 0) c[k++] = i; return k ? c[d_u64(k - 1)] : -1; }
static int a_member(int h) { return n[h] ? m[h][d_u64(n[h] - 1)] : -1; }
static void see(int id) { CHECK(ns < NN + 1, "an iteration does not terminate"); seen[ns++] = id; }
static void compare(const char *what) { bool same = ns == ne; for (int i = 0; same && i < ne; i++) same = seen[i] == expv[i];
    if (!same) { char b[4000]; int k = 0; for (int i = 0; i < ns && k < 1900; i++) k += snprintf(b + k, sizeof b - k, "%d ", seen[i]); k += snprintf(b + k, sizeof b - k, "instead of "); for (int i = 0; i < ne && k < 3900; i++) k += snprintf(b + k, sizeof b - k, "%d ", expv[i]); CHECK(0, "%s visited %s", what, b); } }
static void expect(int h, int from, int step) { ne = 0; for (int i = from; i >= 0 && i < n[h]; i += step) expv[ne++] = m[h][i]; ns = 0; }
static uint32_t dels; static void (*unlink_)(int id);
static void see_safe(int id) { see(id); if (dels >> (id & 31) & 1) unlink_(id); }

/* ---------------------------------------------------------------- circular lists */
static void l_check(const char *op)
{
    for (int h = 0; h < NH; h++) {
        bfdev_list_head_t *p = &L[h]; for (int i = 0; i <= n[h]; i++) { bfdev_list_head_t *e = i < n[h] ? &nd[m[h][i]].l : &L[h]; CHECK(p->next == e, "%s: list %d differs from the ideal sequence at position %d (forward)", op, h, i); CHECK(e->prev == p, "%s: list %d: wrong backward link at position %d of %d", op, h, i, n[h]); p = e; }
        CHECK(bfdev_list_check_empty(&L[h]) == !n[h], "%s: emptiness of list %d", op, h);
    }
}
static void l_unlink(int id) { if (id & 1) bfdev_list_del(&nd[id].l); else bfdev_list_del_init(&nd[id].l); m_del(id); }
static void l_iter(void)
{
    int h = d_u64(NH - 1), c = n[h], from = c ? d_u64(c - 1) : 0; bfdev_list_head_t *p, *t; node_t *e, *f; dels = lim > 20 && d_chance(9, 10) ? 0 : d_chance(1, 4) ? ~0u : d_u64(UINT32_MAX); unlink_ = l_unlink;
    bfdev_list_head_t *fp = c ? &nd[m[h][from]].l : &L[h]; node_t *fe = bfdev_list_entry(fp, node_t, l); if (!c) from = 0;
    #define ID(p) bfdev_list_entry(p, node_t, l)->id
    int op = d_u64(25); TRACE("iteration %d over list %d (%d members) from %d", op, h, c, from);
    switch (op) {
    case 0: expect(h, 0, 1); bfdev_list_for_each(p, &L[h]) see(ID(p)); break;
    case 1: expect(h, c - 1, -1); bfdev_list_for_each_reverse(p, &L[h]) see(ID(p)); break;
    case 2: expect(h, from, 1); p = fp; bfdev_list_for_each_from(p, &L[h]) see(ID(p)); break;
    case 3: expect(h, c ? from : -1, -1); p = fp; bfdev_list_for_each_reverse_from(p, &L[h]) see(ID(p)); break;
    case 4: expect(h, c ? from + 1 : 0, 1); p = fp; bfdev_list_for_each_continue(p, &L[h]) see(ID(p)); break;
    case 5: expect(h, c ? from - 1 : -1, -1); p = fp; bfdev_list_for_each_reverse_continue(p, &L[h]) see(ID(p)); break;
    case 6: expect(h, 0, 1); bfdev_list_for_each_safe(p, t, &L[h]) see_safe(ID(p)); break;
    case 7: expect(h, c - 1, -1); bfdev_list_for_each_reverse_safe(p, t, &L[h]) see_safe(ID(p)); break;
    case 8: expect(h, from, 1); p = fp; bfdev_list_for_each_from_safe(p, t, &L[h]) see_safe(ID(p)); break;
    case 9: expect(h, c ? from : -1, -1); p = fp; bfdev_list_for_each_reverse_from_safe(p, t, &L[h]) see_safe(ID(p)); break;
    case 10: expect(h, c ? from + 1 : 0, 1); p = fp; bfdev_list_for_each_continue_safe(p, t, &L[h]) see_safe(ID(p)); break;
    case 11: expect(h, c ? from - 1 : -1, -1); p = fp; bfdev_list_for_each_reverse_continue_safe(p, t, &L[h]) see_safe(ID(p)); break;
    case 12: expect(h, 0, 1); bfdev_list_for_each_entry(e, &L[h], l) see(e->id); break;
    case 13: expect(h, c - 1, -1); bfdev_list_for_each_entry_reverse(e, &L[h], l) see(e->id); break;
    case 14: expect(h, from, 1); e = fe; bfdev_list_for_each_entry_from(e, &L[h], l) see(e->id); break;
    case 15: expect(h, c ? from : -1, -1); e = fe; bfdev_list_for_each_entry_reverse_from(e, &L[h], l) see(e->id); break;
    case 16: expect(h, c ? from + 1 : 0, 1); e = fe; bfdev_list_for_each_entry_continue(e, &L[h], l) see(e->id); break;
    case 17: expect(h, c ? from - 1 : -1, -1); e = fe; bfdev_list_for_each_entry_reverse_continue(e, &L[h], l) see(e->id); break;
    case 18: expect(h, 0, 1); bfdev_list_for_each_entry_safe(e, f, &L[h], l) see_safe(e->id); break;
    case 19: expect(h, c - 1, -1); bfdev_list_for_each_entry_reverse_safe(e, f, &L[h], l) see_safe(e->id); break;
    case 20: expect(h, from, 1); e = fe; bfdev_list_for_each_entry_from_safe(e, f, &L[h], l) see_safe(e->id); break;
    case 21: expect(h, c ? from : -1, -1); e = fe; bfdev_list_for_each_entry_reverse_from_safe(e, f, &L[h], l) see_safe(e->id); break;
    case 22: expect(h, c ? from + 1 : 0, 1); e = fe; bfdev_list_for_each_entry_continue_safe(e, f, &L[h], l) see_safe(e->id); break;
    case 23: expect(h, c ? from - 1 : -1, -1); e = fe; bfdev_list_for_each_entry_reverse_continue_safe(e, f, &L[h], l) see_safe(e->id); break;
    default: {
        ns = ne = 0; int b;
        node_t *a = bfdev_list_first_entry_or_null(&L[h], node_t, l), *z = bfdev_list_last_entry_or_null(&L[h], node_t, l); CHECK(a == (c ? &nd[m[h][0]] : NULL) && z == (c ? &nd[m[h][c - 1]] : NULL), "first or last member of list %d", h);
        if (!c) break; CHECK(bfdev_list_first_entry(&L[h], node_t, l) == a && bfdev_list_last_entry(&L[h], node_t, l) == z, "first_entry/last_entry");
        CHECK(bfdev_list_next_entry_or_null(fe, &L[h], l) == (from + 1 < c ? &nd[m[h][from + 1]] : NULL), "next_entry_or_null"); CHECK(bfdev_list_prev_entry_or_null(fe, &L[h], l) == (from ? &nd[m[h][from - 1]] : NULL), "prev_entry_or_null");
        if (from + 1 < c) CHECK(bfdev_list_next_entry(fe, l) == &nd[m[h][from + 1]], "next_entry"); if (from) CHECK(bfdev_list_prev_entry(fe, l) == &nd[m[h][from - 1]], "prev_entry");
        b = bfdev_list_check_first(&L[h], fp); CHECK(b == (from == 0), "check_first of member %d of %d: %d", from, c, b); b = bfdev_list_check_end(&L[h], fp); CHECK(b == (from == c - 1), "check_end of member %d of %d: %d", from, c, b);
        b = bfdev_list_check_another(&L[h], fp); CHECK(b == (c == 1), "check_another (only member) with %d members: %d", c, b); CHECK(!bfdev_list_check_head(&L[h], fp) && bfdev_list_check_head(&L[h], &L[h]), "check_head"); CHECK(bfdev_list_entry_check_head(bfdev_list_entry(&L[h], node_t, l), &L[h], l) && !bfdev_list_entry_check_head(fe, &L[h], l), "entry_check_head"); } }
    compare("iteration");
}
static void c_list(void)
{
    static BFDEV_LIST_HEAD(st); CHECK(bfdev_list_check_empty(&st), "a statically initialised head is not empty");
    for (int h = 0; h < NH; h++) { if (d_bool()) bfdev_list_head_init(&L[h]); else L[h] = BFDEV_LIST_HEAD_INIT(&L[h]); }
    for (int j = lim > 20 ? d_range(20, lim - 5) : 0, h = d_u64(NH - 1); j--; ) { int f = a_free(); if (d_chance(1, 200)) h = d_u64(NH - 1); if (d_bool()) { bfdev_list_add(&L[h], &nd[f].l); m_ins(h, 0, f); } else { bfdev_list_add_prev(&L[h], &nd[f].l); m_ins(h, n[h], f); } }
    for (int k = d_range(2, 30), most = 0; k--; ) {
        int h = d_u64(NH - 1), g = d_u64(NH - 1), f = a_free(), a = a_member(h), op = d_u64(22);
        switch (op) {
        case 0: case 1: if (f < 0) break; TRACE("add %d at the head of %d", f, h); bfdev_list_add(&L[h], &nd[f].l); m_ins(h, 0, f); break;
        case 2: case 3: if (f < 0) break; TRACE("add %d at the tail of %d", f, h); bfdev_list_add_prev(&L[h], &nd[f].l); m_ins(h, n[h], f); break;
        case 4: if (f < 0 || a < 0) break; TRACE("add %d after %d", f, a); bfdev_list_add(&nd[a].l, &nd[f].l); m_ins(h, m_pos(a) + 1, f); break;
        case 5: if (f < 0 || a < 0) break; TRACE("add %d before %d", f, a); bfdev_list_add_prev(&nd[a].l, &nd[f].l); m_ins(h, m_pos(a), f); break;
        case 6: if (f < 0 || a < 0) break; TRACE("insert %d between %d and its successor", f, a); bfdev_list_insert(&nd[a].l, nd[a].l.next, &nd[f].l); m_ins(h, m_pos(a) + 1, f); break;
        case 7: if (a < 0) break; TRACE("delete %d", a); bfdev_list_del(&nd[a].l); m_del(a);
#ifdef BFDEV_DEBUG_LIST
            if (d_bool()) { TRACE("delete %d again", a); bfdev_list_del(&nd[a].l); pbt_class("misuse refused"); }
#endif
            break;
        case 8: if (a < 0) break; TRACE("delete and reinitialise %d", a); bfdev_list_del_init(&nd[a].l); m_del(a); CHECK(bfdev_list_check_empty(&nd[a].l), "del_init did not reinitialise the member"); break;
        case 9: if (a < 0) break; bfdev_list_deluf(&nd[a].l); m_del(a); break;
        case 10: case 11: if (f < 0 || a < 0) break; TRACE("replace %d by %d", a, f); if (op == 10) bfdev_list_replace(&nd[a].l, &nd[f].l); else { bfdev_list_replace_init(&nd[a].l, &nd[f].l); CHECK(bfdev_list_check_empty(&nd[a].l), "replace_init did not reinitialise the member"); } { int p = m_del(a); m_ins(h, p, f); } break;
        case 12: { if (a < 0) break; TRACE("move %d to the head of %d", a, g); bfdev_list_move(&L[g], &nd[a].l); m_del(a); m_ins(g, 0, a); break; }
        case 13: { if (a < 0) break; TRACE("move %d to the tail of %d", a, g); bfdev_list_move_prev(&L[g], &nd[a].l); m_del(a); m_ins(g, n[g], a); break; }
        case 14: case 15: { int b = a_member(g); if (a < 0 || b < 0 || a == b) break; TRACE("move %d %s %d", a, op == 14 ? "after" : "before", b); if (op == 14) bfdev_list_move(&nd[b].l, &nd[a].l); else bfdev_list_move_prev(&nd[b].l, &nd[a].l); m_del(a); m_ins(g, m_pos(b) + (op == 14), a); break; }
        case 16: case 17: { int b = a_member(g); if (a < 0 || b < 0 || a == b) break; TRACE("swap %d and %d", a, b); bfdev_list_swap(&nd[a].l, &nd[b].l); int pa = m_pos(a), pb = m_pos(b); m[h][pa] = b; m[g][pb] = a; where[a] = g; where[b] = h; if (h == g && abs(pa - pb) == 1) pbt_class("adjacent swap"); break; }
        case 18: case 19: case 20: case 21: { if (h == g) break; int b = d_bool() ? a_member(h) : -1; bool head = op < 20; bfdev_list_head_t *at = b < 0 ? &L[h] : &nd[b].l; int pos = b < 0 ? (head ? 0 : n[h]) : m_pos(b) + head; int cnt = n[g], ids[NN]; memcpy(ids, m[g], sizeof ids); TRACE("splice list %d (%d members) into %d at %d", g, cnt, h, pos);
            if (op == 18 && cnt && d_bool()) { bfdev_list_relocate(at, at->next, &L[g]); bfdev_list_head_init(&L[g]); } else if (op == 18) { bfdev_list_splice(at, &L[g]); bfdev_list_head_init(&L[g]); } else if (op == 20) { bfdev_list_splice_prev(at, &L[g]); bfdev_list_head_init(&L[g]); } else if (op == 19) bfdev_list_splice_init(at, &L[g]); else bfdev_list_splice_tail_init(at, &L[g]);
            n[g] = 0; for (int i = 0; i < cnt; i++) m_ins(h, pos + i, ids[i]); if (cnt > 1 && n[h] > cnt) pbt_class("splice"); break; }
        default:
#ifdef BFDEV_DEBUG_LIST
            if (a >= 0) { bool p = d_bool(); bfdev_list_head_t *at = d_bool() ? &nd[a].l : p ? nd[a].l.prev : nd[a].l.next; TRACE("insert %d next to itself", a); if (p) bfdev_list_add(at, &nd[a].l); else bfdev_list_add_prev(at, &nd[a].l); pbt_class("misuse refused"); }
#endif
            break;
        }
        l_check("operation"); if (n[h] > most) most = n[h]; if (most >= 3) pbt_nontrivial(); if (d_bool()) { l_iter(); l_check("iteration"); }
    }
}
/* ---------------------------------------------------------------- singly linked lists */
static void s_check(const char *op) { for (int h = 0; h < NH; h++) { bfdev_slist_head_t *p = &S[h]; for (int i = 0; i <= n[h]; i++) { bfdev_slist_head_t *e = i < n[h] ? &nd[m[h][i]].s : NULL; CHECK(p->next == e, "%s: singly linked list %d differs from the ideal sequence at position %d", op, h, i); p = e; } CHECK(bfdev_slist_check_empty(&S[h]) == !n[h], "%s: emptiness", op); } }
static void s_unlink(int id) { bfdev_slist_del(&S[where[id]], &nd[id].s); m_del(id); }
static void s_iter(void)
{
    int h = d_u64(NH - 1), c = n[h], from = c ? d_u64(c - 1) : 0; bfdev_slist_head_t *p, *t; node_t *e, *f; dels = lim > 20 && d_chance(9, 10) ? 0 : d_chance(1, 4) ? ~0u : d_u64(UINT32_MAX); unlink_ = s_unlink; bfdev_slist_head_t *fp = c ? &nd[m[h][from]].s : NULL; node_t *fe = c ? &nd[m[h][from]] : NULL;
    #define SID(p) bfdev_slist_entry(p, node_t, s)->id
    int op = d_u64(13); TRACE("iteration %d over singly linked list %d (%d members) from %d", op, h, c, from);
    switch (op) {
    case 0: expect(h, 0, 1); bfdev_slist_for_each(p, &S[h]) see(SID(p)); break;
    case 1: expect(h, from, 1); p = fp; bfdev_slist_for_each_from(p) see(SID(p)); break;
    case 2: expect(h, from + 1, 1); p = fp; bfdev_slist_for_each_continue(p) see(SID(p)); break;
    case 3: expect(h, 0, 1); bfdev_slist_for_each_safe(p, t, &S[h]) see_safe(SID(p)); break;
    case 4: expect(h, from, 1); p = fp; bfdev_slist_for_each_from_safe(p, t) see_safe(SID(p)); break;
    case 5: expect(h, from + 1, 1); p = fp; bfdev_slist_for_each_continue_safe(p, t) see_safe(SID(p)); break;
    case 6: expect(h, 0, 1); bfdev_slist_for_each_entry(e, &S[h], s) see(e->id); break;
    case 7: expect(h, from, 1); e = fe; bfdev_slist_for_each_entry_from(e, s) see(e->id); break;
    case 8: expect(h, from + 1, 1); e = fe; bfdev_slist_for_each_entry_continue(e, s) see(e->id); break;
    case 9: expect(h, 0, 1); bfdev_slist_for_each_entry_safe(e, f, &S[h], s) see_safe(e->id); break;
    case 10: expect(h, from, 1); e = fe; bfdev_slist_for_each_entry_from_safe(e, f, s) see_safe(e->id); break;
    case 11: expect(h, from + 1, 1); e = fe; bfdev_slist_for_each_entry_continue_safe(e, f, s) see_safe(e->id); break;
    default: ns = ne = 0; CHECK(bfdev_slist_first_entry(&S[h], node_t, s) == (c ? &nd[m[h][0]] : NULL), "first entry"); if (!c) break; CHECK(bfdev_slist_next_entry(fe, s) == (from + 1 < c ? &nd[m[h][from + 1]] : NULL), "next entry");
        CHECK(bfdev_slist_check_first(&S[h], fp) == !from && bfdev_slist_check_end(fp) == (from == c - 1) && bfdev_slist_check_another(&S[h], fp) == (c == 1), "position tests of member %d of %d", from, c); }
    compare("iteration of a singly linked list");
}
static void c_slist(void)
{
    for (int h = 0; h < NH; h++) { if (d_bool()) bfdev_slist_head_init(&S[h]); else S[h] = BFDEV_SLIST_HEAD_INIT(); }
    for (int j = lim > 20 ? d_range(20, lim - 5) : 0, h = d_u64(NH - 1); j--; ) { int f = a_free(); if (d_chance(1, 200)) h = d_u64(NH - 1); bfdev_slist_add(&S[h], &nd[f].s); m_ins(h, 0, f); }
    for (int k = d_range(2, 30); k--; ) {
        int h = d_u64(NH - 1), f = a_free(), a = a_member(h), op = d_u64(8);
        switch (op) {
        case 0: case 1: case 2: if (f < 0) break; TRACE("add %d at the head of %d", f, h); bfdev_slist_add(&S[h], &nd[f].s); m_ins(h, 0, f); break;
        case 3: case 4: if (f < 0 || a < 0) break; TRACE("add %d after %d", f, a); bfdev_slist_add(&nd[a].s, &nd[f].s); m_ins(h, m_pos(a) + 1, f); break;
        case 5: if (a < 0) break; TRACE("delete %d", a); bfdev_slist_del(&S[h], &nd[a].s); m_del(a);
#ifdef BFDEV_DEBUG_SLIST
            if (d_bool()) { bfdev_slist_del(&S[h], &nd[a].s); pbt_class("misuse refused"); }
#endif
            break;
        case 6: case 7: if (f < 0 || a < 0) break; TRACE("replace %d by %d", a, f); bfdev_slist_replace(&S[h], &nd[a].s, &nd[f].s); { int p = m_del(a); m_ins(h, p, f); } break;
        default:
#ifdef BFDEV_DEBUG_SLIST
            if (a >= 0) { int p = m_pos(a); TRACE("insert %d next to itself", a); bfdev_slist_add(d_bool() ? &nd[a].s : p ? &nd[m[h][p - 1]].s : &S[h], &nd[a].s); pbt_class("misuse refused"); }
#endif
            break;
        }
        s_check("operation"); if (n[h] >= 3) pbt_nontrivial(); if (d_bool()) { s_iter(); s_check("iteration"); }
    }
}
/* ---------------------------------------------------------------- hash-bucket lists */
static void h_check(const char *op) { for (int h = 0; h < NH; h++) { bfdev_hlist_node_t **pp = &H[h].node; for (int i = 0; i <= n[h]; i++) { bfdev_hlist_node_t *e = i < n[h] ? &nd[m[h][i]].h : NULL; CHECK(*pp == e, "%s: bucket list %d differs from the ideal sequence at position %d", op, h, i); if (e) { CHECK(e->pprev == pp, "%s: bucket list %d: wrong back link at position %d", op, h, i); pp = &e->next; } } CHECK(bfdev_hlist_check_empty(&H[h]) == !n[h], "%s: emptiness", op); } }
static void h_unlink(int id) { if (id & 1) bfdev_hlist_del(&nd[id].h); else if (id & 2) bfdev_hlist_deluf(&nd[id].h); else bfdev_hlist_del_init(&nd[id].h); m_del(id); }
static void h_iter(void)
{
    int h = d_u64(NH - 1), c = n[h], from = c ? d_u64(c - 1) : 0; bfdev_hlist_node_t *p, *t; node_t *e, *f; dels = lim > 20 && d_chance(9, 10) ? 0 : d_chance(1, 4) ? ~0u : d_u64(UINT32_MAX); unlink_ = h_unlink; bfdev_hlist_node_t *fp = c ? &nd[m[h][from]].h : NULL; node_t *fe = c ? &nd[m[h][from]] : NULL;
    #define HID(p) bfdev_hlist_entry(p, node_t, h)->id
    int op = d_u64(13); TRACE("iteration %d over bucket list %d (%d members) from %d", op, h, c, from);
    switch (op) {
    case 0: expect(h, 0, 1); bfdev_hlist_for_each(p, &H[h]) see(HID(p)); break;
    case 1: expect(h, from, 1); p = fp; bfdev_hlist_for_each_from(p) see(HID(p)); break;
    case 2: expect(h, from + 1, 1); p = fp; bfdev_hlist_for_each_continue(p) see(HID(p)); break;
    case 3: expect(h, 0, 1); bfdev_hlist_for_each_safe(p, t, &H[h]) see_safe(HID(p)); break;
    case 4: expect(h, from, 1); p = fp; bfdev_hlist_for_each_from_safe(p, t) see_safe(HID(p)); break;
    case 5: expect(h, from + 1, 1); p = fp; bfdev_hlist_for_each_continue_safe(p, t) see_safe(HID(p)); break;
    case 6: expect(h, 0, 1); bfdev_hlist_for_each_entry(e, &H[h], h) see(e->id); break;
    case 7: expect(h, from, 1); e = fe; bfdev_hlist_for_each_entry_from(e, h) see(e->id); break;
    case 8: expect(h, from + 1, 1); e = fe; bfdev_hlist_for_each_entry_continue(e, h) see(e->id); break;
    case 9: expect(h, 0, 1); bfdev_hlist_for_each_entry_safe(e, f, &H[h], h) see_safe(e->id); break;
    case 10: expect(h, from, 1); e = fe; bfdev_hlist_for_each_entry_from_safe(e, f, h) see_safe(e->id); break;
    case 11: expect(h, from + 1, 1); e = fe; bfdev_hlist_for_each_entry_continue_safe(e, f, h) see_safe(e->id); break;
    default: ns = ne = 0; CHECK(bfdev_hlist_first_entry(&H[h], node_t, h) == (c ? &nd[m[h][0]] : NULL), "first entry"); if (!c) break; CHECK(bfdev_hlist_next_entry(fe, h) == (from + 1 < c ? &nd[m[h][from + 1]] : NULL), "next entry");
        CHECK(bfdev_hlist_check_first(&H[h], fp) == !from && bfdev_hlist_check_end(fp) == (from == c - 1) && bfdev_hlist_check_another(&H[h], fp) == (c == 1) && !bfdev_hlist_check_unhashed(fp), "position tests of member %d of %d", from, c); }
    compare("iteration of a bucket list");
}
static void c_hlist(void)
{
    for (int h = 0; h < NH; h++) { if (d_bool()) bfdev_hlist_head_init(&H[h]); else H[h] = BFDEV_HLIST_HEAD_INIT(); }
    for (int j = lim > 20 ? d_range(20, lim - 5) : 0, h = d_u64(NH - 1); j--; ) { int f = a_free(); if (d_chance(1, 200)) h = d_u64(NH - 1); bfdev_hlist_head_add(&H[h], &nd[f].h); m_ins(h, 0, f); }
    for (int k = d_range(2, 30); k--; ) {
        int h = d_u64(NH - 1), g = d_u64(NH - 1), f = a_free(), a = a_member(h), op = d_u64(13);
        switch (op) {
        case 0: case 1: if (f < 0) break; TRACE("add %d at the head of %d", f, h); bfdev_hlist_head_add(&H[h], &nd[f].h); m_ins(h, 0, f); break;
        case 2: case 3: case 4: if (f < 0 || a < 0) break; TRACE("add %d after %d", f, a); bfdev_hlist_next_add(&nd[a].h, &nd[f].h); m_ins(h, m_pos(a) + 1, f); break;
        case 5: case 6: case 7: if (f < 0 || a < 0) break; TRACE("add %d before %d", f, a); bfdev_hlist_prev_add(&nd[a].h, &nd[f].h); m_ins(h, m_pos(a), f); break;
        case 8: if (a < 0) break; TRACE("delete %d", a); bfdev_hlist_del(&nd[a].h); m_del(a);
#ifdef BFDEV_DEBUG_HLIST
            if (d_bool()) { bfdev_hlist_del(&nd[a].h); pbt_class("misuse refused"); }
#endif
            break;
        case 9: if (a < 0) break; TRACE("delete and reinitialise %d", a); bfdev_hlist_del_init(&nd[a].h); m_del(a); CHECK(bfdev_hlist_check_unhashed(&nd[a].h), "a reinitialised member is not unhashed"); break;
        case 10: if (f < 0 || a < 0) break; TRACE("replace %d by %d", a, f); bfdev_hlist_replace(&nd[a].h, &nd[f].h); { int p = m_del(a); m_ins(h, p, f); } break;
        case 11: case 12: if (h == g || n[g]) break; TRACE("move list %d to head %d", h, g); bfdev_hlist_head_replace(&H[h], &H[g]); { int c = n[h], ids[NN]; memcpy(ids, m[h], sizeof ids); n[h] = 0; for (int i = 0; i < c; i++) m_ins(g, i, ids[i]); } break;
        default:
#ifdef BFDEV_DEBUG_HLIST
            if (a >= 0) { int p = m_pos(a); TRACE("insert %d where it is", a); if (!p) bfdev_hlist_head_add(&H[h], &nd[a].h); else if (d_bool()) bfdev_hlist_next_add(&nd[m[h][p - 1]].h, &nd[a].h); if (p + 1 < n[h] && d_bool()) bfdev_hlist_prev_add(&nd[m[h][p + 1]].h, &nd[a].h); pbt_class("misuse refused"); }
#endif
            break;
        }
        h_check("operation"); if (n[h] >= 3) pbt_nontrivial(); if (d_bool()) { h_iter(); h_check("iteration"); }
    }
}
void pbt_case(void)
{
    bfdev_log_default.record_level = 0;
    lim = d_chance(1, 400) ? d_range(40, NN) : 20; if (lim > 20) pbt_class("hundreds of members");
    for (int i = 0; i < lim; i++) { memset(&nd[i], 0xa5, sizeof nd[i]); nd[i].id = i; where[i] = -1; bfdev_hlist_node_init(&nd[i].h); } memset(n, 0, sizeof n);
    switch (d_u64(4)) { case 0: case 1: pbt_class("doubly linked"); c_list(); break; case 2: pbt_class("singly linked"); c_slist(); break; default: pbt_class("bucket"); c_hlist(); }
}

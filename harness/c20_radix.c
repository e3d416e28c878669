#include "pbt.h"
#include "ta.h"
#include <bfdev/errno.h>
#include <bfdev/radix.h>
const char *const pbt_id = "C20", *const pbt_rule = "";
#define NM 400
typedef unsigned long ul;
typedef struct { ul ix; uint64_t seed; uint8_t *p; } el_t;
static el_t m[NM]; static int n, most, huge_, frees; static size_t cell; static ul maxix; static ta_t ta;
static int pos(ul ix) { int i = 0; while (i < n && m[i].ix < ix) i++; return i; }
static bool has(ul ix) { int i = pos(ix); return i < n && m[i].ix == ix; }
static void fill(el_t *e) { for (size_t k = 0; k < cell; k++) e->p[k] = pbt_mix(e->seed + k / 8) >> k % 8 * 8; }
static void verify(el_t *e, const char *op) { for (size_t k = 0; k < cell; k++) CHECK(e->p[k] == (uint8_t)(pbt_mix(e->seed + k / 8) >> k % 8 * 8), "%s: byte %zu of the element at index %lu changed", op, k, e->ix); }
static ul anchors[4];
static ul pick(void)
{
    ul per = 256 / cell, b, r;
    switch (d_u64(7)) { case 0: r = d_u64(10); break; case 1: r = d_u64(3 * per); break; case 2: b = per << (5 * d_u64(11)); r = b * d_range(1, 3) + d_srange(-2, 2); break; case 3: r = maxix - d_u64(d_bool() ? 3 : per * 3); break;
    case 4: r = n ? m[d_u64(n - 1)].ix + d_srange(-1, 1) : 0; break; case 5: r = anchors[d_u64(3)] + d_u64(per * 2); break; case 6: r = d_edge64(); break; default: r = d_u64(per * 32 * 3); break; }
    return r > maxix ? r % maxix : r;
}
static ul vis[NM + 2]; static int nv;
static void see(void *p, ul ix, const char *what) { CHECK(nv <= n, "%s does not terminate", what); int i = pos(ix); CHECK(i < n && m[i].ix == ix, "%s visits absent index %lu", what, ix); CHECK(m[i].p == p, "%s returns another element for index %lu", what, ix); vis[nv++] = ix; }
static void same(const char *what, int from, int dir) { int k = 0; for (int i = from; i >= 0 && i < n; i += dir, k++) CHECK(k < nv && vis[k] == m[i].ix, "%s over %d elements: step %d is index %lu, expected %lu", what, n, k, k < nv ? vis[k] : 0, m[i].ix); CHECK(k == nv, "%s visits %d elements, expected %d", what, nv, k); nv = 0; }
static void removed(int i) { memmove(m + i, m + i + 1, (n - i - 1) * sizeof *m); n--; frees++; }
/* one instance of the typed interface per element type */
#define INST(N, T) \
typedef T ty_##N; static BFDEV_DECLARE_RADIX(R_##N, ty_##N); \
static void init_##N(void) { BFDEV_DEFINE_RADIX(r, ty_##N, &ta.alloc); memcpy(&R_##N, &r, sizeof r < sizeof R_##N ? sizeof r : sizeof R_##N); cell = sizeof(ty_##N); } \
static void *find_##N(ul ix) { return bfdev_radix_find(&R_##N, ix); } static void *alloc_##N(ul ix) { return bfdev_radix_alloc(&R_##N, ix); } static int free_##N(ul ix) { return bfdev_radix_free(&R_##N, ix); } \
static int charge_##N(ul ix, ul c) { return bfdev_radix_charge(&R_##N, ix, c); } static void release_##N(void) { bfdev_radix_release(&R_##N); } \
static void *step_##N(int k, ul *ix) { return k == 0 ? bfdev_radix_first(&R_##N, ix) : k == 1 ? bfdev_radix_last(&R_##N, ix) : k == 2 ? bfdev_radix_next(&R_##N, ix) : bfdev_radix_prev(&R_##N, ix); } \
static void iter_##N(int k, int from, uint64_t dels) { ul ix = n ? m[from].ix : 0, tx; void *p = n ? m[from].p : NULL, *t; nv = 0; int c0 = n; el_t old[NM]; if (k >= 6) memcpy(old, m, n * sizeof *m); \
    switch (k) { case 0: bfdev_radix_for_each(p, &R_##N, &ix) see(p, ix, "iteration"); same("iteration", 0, 1); break; case 1: bfdev_radix_for_each_reverse(p, &R_##N, &ix) see(p, ix, "reverse iteration"); same("reverse iteration", n - 1, -1); break; \
    case 2: bfdev_radix_for_each_form(p, &R_##N, &ix) see(p, ix, "iteration from"); same("iteration from an element", from, 1); break; case 3: bfdev_radix_for_each_reverse_form(p, &R_##N, &ix) see(p, ix, "reverse iteration from"); same("reverse iteration from an element", from, -1); break; \
    case 4: if (n) { bfdev_radix_for_each_continue(p, &R_##N, &ix) see(p, ix, "iteration after"); same("iteration after an element", from + 1, 1); } break; case 5: if (n) { bfdev_radix_for_each_reverse_continue(p, &R_##N, &ix) see(p, ix, "reverse iteration after"); same("reverse iteration before an element", from - 1, -1); } break; \
    default: if (!n && k != 6 && k != 7) break; int at = k == 6 ? 0 : k == 7 ? c0 - 1 : k == 8 ? from + 1 : k == 9 ? from - 1 : from, dir = k & 1 ? -1 : 1; t = (void *)8; tx = 77; \
        if (k == 6) bfdev_radix_for_each_safe(p, &R_##N, &ix, t, &tx) SAFE(N, "safe iteration") else if (k == 7) bfdev_radix_for_each_reverse_safe(p, &R_##N, &ix, t, &tx) SAFE(N, "safe reverse iteration") \
        else if (k == 8) bfdev_radix_for_each_continue_safe(p, &R_##N, &ix, t, &tx) SAFE(N, "safe iteration after an element") else if (k == 9) bfdev_radix_for_each_reverse_continue_safe(p, &R_##N, &ix, t, &tx) SAFE(N, "safe reverse iteration before an element") \
        else if (k == 10) bfdev_radix_for_each_form_safe(p, &R_##N, &ix, t, &tx) SAFE(N, "safe iteration from an element") else bfdev_radix_for_each_reverse_form_safe(p, &R_##N, &ix, t, &tx) SAFE(N, "safe reverse iteration from an element") \
        CHECK(at == (dir > 0 ? c0 : -1), "safe iteration kind %d over %d elements from element %d ends at element %d", k, c0, from, at); break; } }
#define SAFE(N, what) { CHECK(at >= 0 && at < c0, what " does not end"); CHECK(ix == old[at].ix && p == old[at].p, what ": index %lu visited, expected %lu", ix, old[at].ix); if (dels >> at % 64 & 1) { CHECK(free_##N(ix) == 0, "free"); removed(pos(ix)); pbt_class("deletion while iterating"); } at += dir; }
typedef struct { uint8_t b[3]; } t3; typedef struct { uint32_t a[3]; } t12; typedef struct { uint8_t b[100]; } t100; typedef struct { uint64_t b[25]; } t200; typedef struct { uint8_t b[256]; } t256; typedef struct { uint8_t b[129]; } t129; typedef struct { uint8_t b[255]; } t255; typedef struct { uint64_t b[8]; } t64; typedef struct { uint64_t b[3]; } t24;
INST(0, char) INST(1, t3) INST(2, uint64_t) INST(3, t12) INST(4, t100) INST(5, t200) INST(6, t256) INST(7, t129) INST(8, t255) INST(9, t64) INST(10, t24) INST(11, uint16_t)
#define ROW(N) { init_##N, find_##N, alloc_##N, free_##N, charge_##N, release_##N, step_##N, iter_##N }
static const struct { void (*init)(void); void *(*find)(ul); void *(*alloc)(ul); int (*free)(ul); int (*charge)(ul, ul); void (*release)(void); void *(*step)(int, ul *); void (*iter)(int, int, uint64_t); } V[] = { ROW(0), ROW(1), ROW(2), ROW(3), ROW(4), ROW(5), ROW(6), ROW(7), ROW(8), ROW(9), ROW(10), ROW(11) };
static int v;
static bool overlap(uint8_t *p) { for (int i = 0; i < n; i++) if (m[i].p < p + cell && p < m[i].p + cell) return true; return false; }
static void add(ul ix, uint8_t *p) { CHECK(!overlap(p), "the new element at index %lu overlaps another one", ix); int i = pos(ix); memmove(m + i + 1, m + i, (n - i) * sizeof *m); m[i] = (el_t){ ix, pbt_mix(ix + d_u64(1000)), p }; n++; fill(m + i); if (ix > maxix / 2) huge_++; }
static void check(const char *op)
{
    for (int i = 0; i < n; i++) { CHECK(V[v].find(m[i].ix) == m[i].p, "%s: the element at index %lu is not found at its place", op, m[i].ix); verify(m + i, op); }
    for (int k = 3; k--; ) { ul ix = pick(); if (!has(ix)) CHECK(!V[v].find(ix), "%s: absent index %lu is reported present", op, ix); }
    ul ix = 0; void *p = V[v].step(0, &ix); CHECK(!p == !n && (!n || (ix == m[0].ix && p == m[0].p)), "%s: the first present index is reported as %s%lu, expected %s%lu", op, p ? "" : "none, not ", p ? ix : m[0].ix, n ? "" : "none, not ", n ? m[0].ix : ix);
    p = V[v].step(1, &ix); CHECK(!p == !n && (!n || (ix == m[n - 1].ix && p == m[n - 1].p)), "%s: the last present index is reported as %s (%lu), expected %lu", op, p ? "present" : "none", ix, n ? m[n - 1].ix : 0);
    if (n) for (int k = 2; k--; ) { int i = d_u64(n - 1); ix = m[i].ix; p = V[v].step(2, &ix); CHECK(i == n - 1 ? !p : p == m[i + 1].p && ix == m[i + 1].ix, "%s: after index %lu comes %s %lu, expected %s %lu", op, m[i].ix, p ? "index" : "nothing", ix, i < n - 1 ? "index" : "nothing", i < n - 1 ? m[i + 1].ix : 0);
        ix = m[i].ix; p = V[v].step(3, &ix); CHECK(i == 0 ? !p : p == m[i - 1].p && ix == m[i - 1].ix, "%s: before index %lu comes %s %lu, expected %s %lu", op, m[i].ix, p ? "index" : "nothing", ix, i ? "index" : "nothing", i ? m[i - 1].ix : 0); }
    if (d_chance(1, 4)) V[v].iter(d_u64(11), n ? d_u64(n - 1) : 0, d_chance(1, 3) ? ~0ull : d_u64(~0ull));
}
void pbt_case(void)
{
    ta_init(&ta); n = most = huge_ = frees = 0; v = d_u64(11); V[v].init(); ul per = 256 / cell; maxix = cell & (cell - 1) ? (SIZE_MAX / 256) * per + per - 1 : SIZE_MAX / cell; for (int i = 0; i < 4; i++) anchors[i] = d_bool() ? d_edge64() % maxix : d_u64(100000); if (d_chance(1, 10)) { V[v].release(); ta_check_empty(&ta, "release of an empty array"); }
    bool big = d_chance(1, 25); int w = d_u64(6);
    for (int k = big ? d_range(60, 300) : d_range(1, 40); k--; ) {
        int op = d_u64(12); ul ix = pick(); const char *name = "lookup";
        if (op <= 9 && op >= w) { name = "alloc"; bool h = has(ix); if (n >= NM - 8) continue; if (d_chance(1, 8)) ta_fail_in(&ta, d_range(1, 6)); TRACE("alloc index %lu (%s), %d elements of %zu bytes%s", ix, h ? "present" : "absent", n, cell, ta.fail_at ? ", memory may run out" : "");
            uint8_t *p = V[v].alloc(ix); if (ta.failed) { CHECK(!p, "allocation of index %lu without memory returned an element", ix); name = "failed alloc"; pbt_class("failed allocation"); } ta_ok(&ta); if (!p) CHECK(name[0] == 'f', "allocation of index %lu failed although memory was available", ix); else if (h) CHECK(p == m[pos(ix)].p, "allocating a present index moved its element"); else { CHECK(((uintptr_t)p & ((cell & -cell) - 1)) % 8 == 0, "misaligned element"); add(ix, p); } }
        else if (op < w) { name = "free"; if (n && d_chance(4, 5)) ix = m[d_u64(n - 1)].ix; bool h = has(ix); TRACE("free index %lu (%s) of %d", ix, h ? "present" : "absent", n); int r = V[v].free(ix); CHECK(h ? r == 0 : r == -BFDEV_ENOENT, "freeing %s index %lu returned %d", h ? "present" : "absent", ix, r); if (h) removed(pos(ix)); }
        else if (op == 10 && n < 100 && d_chance(1, 2)) { name = "charge"; ul c = d_u64(per * 4); if (d_chance(1, 6)) ix = maxix - d_u64(6 * per); if (ix > maxix - c || (cell & (cell - 1) && ix > maxix - c - per)) continue; TRACE("charge %lu elements from index %lu", c, ix); int r = V[v].charge(ix, c); CHECK(r == 0, "charge returned %d", r); for (ul j = ix, z = c + per; z-- && j <= maxix; j++) if (!has(j)) { uint8_t *p = V[v].find(j); if (p) add(j, p); }
            /* memory for the whole range is there already */
            for (int t = c ? 3 : 0; t--; ) { ul j = t == 2 ? ix + c - 1 : t == 1 ? ix : ix + d_u64(c - 1); bool h = has(j); ta.fail_all = true; ta.failed = false; uint8_t *p = V[v].alloc(j); ta_ok(&ta); CHECK(p != NULL, "allocating index %lu needs memory although %lu elements from index %lu were charged", j, c, ix); if (!h) add(j, p); pbt_class("allocation from a charged range"); } }
        else if (op == 11 && d_chance(1, 5)) { name = "release"; V[v].release(); ta_check_empty(&ta, "released radix array"); n = 0; }
        else { ix = n && d_bool() ? m[d_u64(n - 1)].ix : ix; int i = pos(ix); CHECK(V[v].find(ix) == (has(ix) ? m[i].p : NULL), "lookup of index %lu", ix); if (has(ix)) { m[i].seed = d_u64(~0ull); fill(m + i); } }
        if (!big || d_chance(1, 8)) check(name); if (n > most) most = n;
    }
    check("end"); V[v].release(); ta_check_empty(&ta, "released radix array"); n = 0; check("released"); if (huge_) pbt_class("indices beyond half the range"); if (most > 3 && frees) pbt_nontrivial();
}

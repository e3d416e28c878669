#include "pbt.h"
#include <bfdev/sort.h>
#include <bfdev/bsearch.h>
#include <bfdev/list.h>
const char *const pbt_id = "C14", *const pbt_rule = "";
static size_t es, kw; static int sign; static unsigned long calls; static uint8_t *lo, *hi;
static long key(const void *p) { const uint8_t *b = p; long v = 0; for (size_t i = 0; i < kw; i++) v = v << 8 | b[i]; return sign * v; }
static long cmp(const void *a, const void *b, void *p)
{
    CHECK(p == &calls, "the comparison received the wrong private pointer"); calls++; const uint8_t *x = a, *y = b;
    CHECK(x >= lo && x + es <= hi && (x - lo) % es == 0 && y >= lo && y + es <= hi && (y - lo) % es == 0, "the comparison received a pointer that is not an element");
    long k = key(a), l = key(b); return pbt_answer(k < l ? -1 : k > l);
}
static int byall(const void *a, const void *b) { return memcmp(a, b, es); }
typedef struct { long k; int seq; bfdev_list_head_t l; } ln_t;
static long lcmp(const bfdev_list_head_t *a, const bfdev_list_head_t *b, void *p) { CHECK(p == &calls, "the comparison received the wrong private pointer"); calls++; long x = bfdev_list_entry(a, ln_t, l)->k, y = bfdev_list_entry(b, ln_t, l)->k; return pbt_answer(x < y ? -1 : x > y); }
static ln_t *base; static int bykey(const void *x, const void *y) { const ln_t *a = base + *(const int *)x, *b = base + *(const int *)y; return a->k < b->k ? -1 : a->k > b->k ? 1 : a->seq - b->seq; }
static long target; static long find(const void *node, const void *p) { CHECK(p == &target, "the search received the wrong private pointer"); const uint8_t *x = node; CHECK(x >= lo && x + es <= hi && (x - lo) % es == 0, "the search probed outside the elements"); calls++; long k = key(node); return pbt_answer(k < target ? -1 : k > target); }
static void shape(long *k, int n)
{
    long range = d_bool() ? d_range(0, 8) : d_range(0, 70000); int mode = d_u64(6); uint64_t seed = n > 2000 ? d_u64(UINT64_MAX) : 0;
    for (int i = 0; i < n; i++) switch (mode) { case 0: k[i] = i; break; case 1: k[i] = n - i; break; case 2: k[i] = i / 3; break; case 3: k[i] = i < n / 2 ? i : n - i; break; case 4: k[i] = 7; break; default: k[i] = pbt_mix(n > 2000 ? seed + i : d_u64(UINT32_MAX)) % (range + 1); }
    if (mode < 4) for (int s = d_u64(3); s-- && n; ) { int a = d_u64(n - 1), b = d_u64(n - 1); long t = k[a]; k[a] = k[b]; k[b] = t; }
}
/* binary search over up to 2^46 elements that exist only as addresses */
static uint8_t *far_b; static size_t far_n, far_w, far_t;
static long far_find(const void *node, const void *p)
{
    CHECK(p == &target, "the search received the wrong private pointer"); size_t o = (const uint8_t *)node - far_b, i = o / es; CHECK((const uint8_t *)node >= far_b && o % es == 0 && i < far_n, "the search probed outside the %zu elements", far_n); CHECK(++calls < 200, "endless search"); i /= far_w; return pbt_answer(i < far_t ? -1 : i > far_t);
}
static void farsearch(void)
{
    far_b = (uint8_t *)0x100000000000; es = d_bool() ? 1ul << d_u64(12) : d_range(1, 100000); far_n = d_bool() ? (1ul << d_range(31, 46)) / es + d_srange(-3, 3) * d_bool() : d_u64((1ul << 46) / es); far_w = d_bool() ? 1 : d_range(1, 1000);
    for (int k = d_range(1, 8); k--; ) { size_t last = far_n ? (far_n - 1) / far_w : 0; far_t = d_chance(1, 3) ? last - d_u64(last < 3 ? last : 3) : d_chance(1, 5) ? last + 1 + d_u64(5) : d_chance(1, 5) ? d_u64(3) : d_u64(last); calls = 0; bool inl = d_bool(), have = far_n && far_t <= last; TRACE("search %zu among %zu elements of %zu bytes", far_t, far_n, es);
        uint8_t *f = inl ? bfdev_bsearch_inline(far_b, far_n, es, (bfdev_find_t)far_find, &target) : bfdev_bsearch(far_b, far_n, es, (bfdev_find_t)far_find, &target); CHECK(have == !!f, "search among %zu elements %s", far_n, f ? "found an element that does not match" : "missed it"); if (f) CHECK((f - far_b) % es == 0 && (f - far_b) / es / far_w == far_t, "search returned another element"); }
    pbt_class("search among billions"); pbt_nontrivial();
}
void pbt_case(void)
{
    if (d_chance(1, 60)) { farsearch(); return; }
    int n = d_chance(1, 12000) ? d_far(60000, 150000) : d_chance(1, 20) ? d_range(100, 1500) : d_size(70); static long ks[150000]; if (n > 60000) pbt_class("very large"); shape(ks, n); calls = 0;
    if (d_chance(1, 3)) {
        ln_t *a = g_alloc(n * sizeof *a); int *ord = g_alloc((n + 1) * sizeof(int)); BFDEV_LIST_HEAD(h);
        for (int i = 0; i < n; i++) { a[i].k = ks[i]; a[i].seq = i; bfdev_list_add_prev(&h, &a[i].l); ord[i] = i; }
        base = a; qsort(ord, n, sizeof(int), bykey);
        TRACE("sort a list of %d members", n); bfdev_list_sort(&h, lcmp, &calls); bfdev_list_head_t *p = &h;
        for (int i = 0; i <= n; i++) { bfdev_list_head_t *e = i < n ? &a[ord[i]].l : &h; CHECK(p->next == e, "list sort: position %d of %d holds key %ld (inserted as %d), expected key %ld (inserted as %d)", i, n, p->next == &h ? -1 : bfdev_list_entry(p->next, ln_t, l)->k, p->next == &h ? -1 : bfdev_list_entry(p->next, ln_t, l)->seq, i < n ? a[ord[i]].k : -1, i < n ? ord[i] : -1); CHECK(e->prev == p, "list sort: wrong backward link at position %d of %d", i, n); p = e; }
        pbt_class("list"); if (n > 2) pbt_nontrivial(); return;
    }
    es = d_chance(1, 3) ? d_range(1, 8) : d_chance(1, 10) ? d_range(64, d_chance(1, 20) ? (d_chance(1, 20) ? 140000 : 9000) : 300) : d_range(1, 64); if (n > 2000 && es > 16) es = 16; if (n > 200 && es > 300) es = 300; if (es > 9000 && n > 40) es = 9000; kw = d_range(1, es < 3 ? es : 3); sign = d_bool() ? 1 : -1;
    uint8_t *b = g_alloc(n * es), *c = g_alloc(n * es), *d = g_alloc(n * es); lo = b; hi = b + n * es;
    for (int i = 0; i < n; i++) { for (size_t j = 0; j < es; j++) b[i * es + j] = j < kw ? ks[i] >> 8 * (kw - 1 - j) : pbt_mix(i * 331 + j + ks[i]); }
    memcpy(c, b, n * es); TRACE("sort %d elements of %zu bytes, %zu key bytes", n, es, kw);
    int r = bfdev_sort(b, n, es, cmp, &calls); if (n > 1) CHECK(r == 0, "sorting %d elements of %zu bytes returned %d", n, es, r);
    for (int i = 1; i < n; i++) CHECK(key(b + (i - 1) * es) <= key(b + i * es), "element %d is greater than element %d after sorting %d elements of %zu bytes", i - 1, i, n, es);
    memcpy(d, b, n * es); qsort(c, n, es, byall); qsort(d, n, es, byall); CHECK(!memcmp(c, d, n * es), "sorting %d elements of %zu bytes changed the elements", n, es);

    /* binary search on the result */
    long max = (1l << 8 * kw) - 1;
    for (int k = d_range(1, 6); k--; ) {
        bool inl = d_bool(); long base = n && d_chance(2, 3) ? key(b + d_u64(n - 1) * es) : sign * (long)d_u64(max); target = base + d_srange(-1, 1) * d_bool(); bool have = false; for (int i = 0; i < n; i++) have |= key(b + i * es) == target;
        calls = 0; uint8_t *f = inl ? bfdev_bsearch_inline(b, n, es, (bfdev_find_t)find, &target) : bfdev_bsearch(b, n, es, (bfdev_find_t)find, &target); TRACE("search %ld", target);
        CHECK(have == !!f, "search for key %ld among %d elements %s", target, n, f ? "found an element that does not match" : "missed it"); if (f) CHECK(f >= lo && f < hi && (f - lo) % es == 0 && key(f) == target, "search for key %ld returned another element", target);
    }
    pbt_class("array"); if (n > 2) pbt_nontrivial();
}

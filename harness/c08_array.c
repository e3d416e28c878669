#define _GNU_SOURCE
#include "pbt.h"
#include "ta.h"
#include "va.h"
#include <bfdev/array.h>
const char *const pbt_id = "C08", *const pbt_rule = "";
static ta_t ta; static bfdev_array_t a; static uint8_t *m; static size_t cells, n, cap; static unsigned serial;
static void fillnew(uint8_t *p, size_t cnt) { for (size_t i = 0; i < cnt * cells; i++) p[i] = (uint8_t)(pbt_mix(serial++) >> 13); }
static void check(const char *op)
{
    CHECK(bfdev_array_index(&a) == n, "%s: length %lu, expected %zu", op, bfdev_array_index(&a), n); CHECK(bfdev_array_size(&a) == n * cells, "%s: size", op); CHECK(a.capacity >= n, "%s: capacity %lu below length %zu", op, a.capacity, n);
    CHECK(a.capacity * cells <= ta.bytes, "%s: capacity %lu of %zu-byte elements, but only %zu bytes are allocated", op, a.capacity, cells, ta.bytes); CHECK(ta.live == (a.data ? 1 : 0), "%s: %zu blocks live", op, ta.live);
    if (n) { uint8_t *p = bfdev_array_data(&a, 0); CHECK(p, "%s: no data", op); CHECK(!memcmp(p, m, n * cells), "%s: the contents changed", op); size_t i = d_u64(n - 1); CHECK(bfdev_array_data(&a, i) == p + i * cells && bfdev_array_offset(&a, i) == i * cells, "%s: element %zu", op, i); }
    size_t far = n + (d_bool() ? d_u64(3) : d_edge64() >> 1); CHECK(!bfdev_array_data(&a, far), "%s: element %zu of %zu is accessible", op, far, n);
}
/* arrays of gigabytes to hundreds of gigabytes, of which only marked elements are touched */
static void vast(void)
{
    static va_t va; va_init(&va); bfdev_array_t v; size_t c = d_chance(1, 3) ? d_range(1, 100000) : 1ul << d_u64(6), len = 0, top = (1ul << 39) / c; struct { size_t i; uint8_t v; } t[96]; int nt = 0; bfdev_array_init(&v, &va.alloc, c);
    for (int k = d_range(2, 12); k--; ) {
        size_t num = d_bool() ? d_u64(1ul << d_range(0, 39)) / c : d_u64(top); uint8_t *p; int op = d_u64(6); unsigned long cap = v.capacity;
        if (op < 3) { if (num > top - len) num = top - len; TRACE("push %zu elements of %zu bytes on %zu", num, c, len); p = bfdev_array_push(&v, num); CHECK(p || !(len + num), "push of %zu refused", num); CHECK(!num || p == (uint8_t *)v.data + len * c, "push returned element %td, expected %zu", (p - (uint8_t *)v.data) / (ptrdiff_t)c, len);
            CHECK(v.capacity >= len + num && v.capacity * c <= va_bytes(&va), "capacity %lu for %zu elements of %zu bytes in %zu bytes", v.capacity, len + num, c, va_bytes(&va)); for (int j = 0; j < 6 && num; j++) { size_t o = j == 0 ? 0 : j == 1 ? num - 1 : d_u64(num - 1); if (nt == 96) break; t[nt].i = len + o; t[nt].v = d_u64(255); for (int q = 0; q < nt; q++) if (t[q].i == t[nt].i) t[nt].v = t[q].v; p[o * c + c - 1] = t[nt++].v; } len += num; }
        else if (op == 3) { num = d_bool() ? num : d_u64(len + 3); TRACE("pop %zu of %zu", num, len); p = bfdev_array_pop(&v, num); if (num > len) CHECK(!p, "pop of %zu from %zu", num, len); else { len -= num; CHECK(!num || p == (uint8_t *)v.data + len * c, "pop returned another element than %zu", len); } }
        else if (op == 4) { num = d_bool() ? num : d_u64(len + 3); TRACE("peek %zu of %zu", num, len); p = bfdev_array_peek(&v, num); if (num > len) CHECK(!p, "peek of %zu from %zu", num, len); else CHECK(!num || p == (uint8_t *)v.data + (len - num) * c, "peek returned another element than %zu", len - num); }
        else if (op == 5) { TRACE("resize %zu to %zu elements of %zu bytes", len, num, c); CHECK(!bfdev_array_resize(&v, num), "resize refused"); len = num; }
        else { if (num > top - len) num = top - len; TRACE("reserve %zu elements of %zu bytes behind %zu", num, c, len); CHECK(!bfdev_array_reserve(&v, num), "reserve refused"); CHECK(v.capacity >= len + num, "reserved %zu behind %zu but the capacity is %lu", num, len, v.capacity); }
        int w = 0; for (int i = 0; i < nt; i++) if (t[i].i < len) t[w++] = t[i]; nt = w; CHECK(v.capacity >= cap && v.capacity * c <= va_bytes(&va), "capacity %lu (was %lu) of %zu-byte elements in %zu bytes", v.capacity, cap, c, va_bytes(&va));
        CHECK(bfdev_array_index(&v) == len && bfdev_array_size(&v) == len * c, "length %lu, expected %zu", bfdev_array_index(&v), len); for (int i = 0; i < nt; i++) { p = bfdev_array_data(&v, t[i].i); CHECK(p == (uint8_t *)v.data + t[i].i * c && bfdev_array_offset(&v, t[i].i) == t[i].i * c, "element %zu of %zu", t[i].i, len); CHECK(p[c - 1] == t[i].v, "element %zu of %zu changed", t[i].i, len); } CHECK(!bfdev_array_data(&v, len), "element %zu of %zu is accessible", len, len);
    }
    bfdev_array_release(&v); CHECK(!va.live, "memory left after release"); pbt_class("gigabytes"); pbt_nontrivial();
}
void pbt_case(void)
{
    enum { MAXE = 200000 }; if (d_chance(1, 600)) { vast(); return; } bool big = d_chance(1, 4000); if (big) pbt_class("large"); ta_init(&ta); ta.fill = d_u64(255); cells = d_chance(1, 2000) ? d_range(100, 70000) : d_chance(1, 3) ? d_range(1, 64) : d_of(((int[]){ 1, 2, 4, 8, 16, 24 })); n = 0; serial = d_u64(1000);
    static uint8_t buf[MAXE * 64]; m = buf; bfdev_array_init(&a, &ta.alloc, cells); bool grew = false; check("init");
    for (int k = d_range(1, 25); k--; ) {
        int op = d_u64(11); size_t num = big && d_bool() ? d_u64(70000) : d_chance(1, 5) ? d_u64(200) : d_size(20); unsigned long oldcap = a.capacity; void *olddata = a.data;
        if (d_chance(1, 8)) ta_fail_in(&ta, 1); else ta_ok(&ta);
        switch (op) {
        case 0: case 1: case 2: case 3: {
            if ((n + num) * cells > sizeof buf) continue; TRACE("push %zu (length %zu) fail=%ld", num, n, ta.fail_at); uint8_t *p = bfdev_array_push(&a, num);
            if (ta.failed) { CHECK(!p, "push succeeded without memory"); pbt_class("allocation failure"); break; }
            if (n + num) CHECK(p, "push refused"); if (num) { CHECK(p == (uint8_t *)a.data + n * cells, "push returned the wrong element"); fillnew(p, num); memcpy(m + n * cells, p, num * cells); } grew |= a.data != olddata && n; n += num; break; }
        case 4: case 5: { TRACE("pop %zu (length %zu)", num, n); uint8_t *p = bfdev_array_pop(&a, num); if (num > n) { CHECK(!p, "pop of %zu from %zu elements", num, n); pbt_class("refused"); break; } n -= num; if (num) CHECK(p && !memcmp(p, m + n * cells, num * cells), "popped elements differ"); break; }
        case 6: { TRACE("peek %zu (length %zu)", num, n); uint8_t *p = bfdev_array_peek(&a, num); if (num > n) CHECK(!p, "peek of %zu from %zu elements", num, n); else if (num) CHECK(p && !memcmp(p, m + (n - num) * cells, num * cells), "peeked elements differ"); break; }
        case 7: { size_t to = big && d_bool() ? d_u64(140000) : d_chance(1, 3) ? d_pow(300) : d_size(60); if (to * cells > sizeof buf) continue; TRACE("resize %zu (length %zu) fail=%ld", to, n, ta.fail_at); int e = bfdev_array_resize(&a, to);
            if (ta.failed) { CHECK(e < 0, "resize succeeded without memory"); pbt_class("allocation failure"); break; } CHECK(!e, "resize returned %d", e);
            if (to > n) { uint8_t *p = bfdev_array_data(&a, n); CHECK(p, "resized element"); fillnew(p, to - n); memcpy(m + n * cells, p, (to - n) * cells); } grew |= a.data != olddata && n; n = to; break; }
        case 8: { if ((n + num) * cells > sizeof buf) continue; TRACE("reserve %zu fail=%ld", num, ta.fail_at); int e = bfdev_array_reserve(&a, num); if (ta.failed) { CHECK(e < 0, "reserve succeeded without memory"); break; } CHECK(!e, "reserve returned %d", e); CHECK(a.capacity >= n + num, "reserved %zu beyond %zu but the capacity is %lu", num, n, a.capacity);
            if (num && d_bool()) { void *d = a.data; ta.fail_all = true; void *p = bfdev_array_push(&a, num); CHECK(p && a.data == d, "reserved space is not usable"); ta.fail_all = false; fillnew(p, num); memcpy(m + n * cells, p, num * cells); n += num; } break; }
        case 9: if (d_chance(1, 3)) { TRACE("reset"); bfdev_array_reset(&a); n = 0; } break;
        case 10: if (d_chance(1, 4)) { TRACE("release"); bfdev_array_release(&a); n = 0; ta_check_empty(&ta, "released array"); } break;
        default: { /* requests no memory can satisfy are refused without a change */
            uint64_t huge = d_bool() ? d_edge64() | 1ull << 58 : ~0ull / cells - d_u64(40) + 20; if (huge < (1ull << 40)) huge |= 1ull << 57; int w = d_u64(2); TRACE("huge request %d of %#lx", w, huge);
            if (w == 0) CHECK(!bfdev_array_push(&a, huge), "push of %#lx elements succeeded", huge); else if (w == 1) CHECK(bfdev_array_resize(&a, huge) < 0, "resize to %#lx elements succeeded", huge); else CHECK(bfdev_array_reserve(&a, huge) < 0, "reserving %#lx elements succeeded", huge);
            CHECK(a.capacity == oldcap && a.data == olddata, "a refused request changed the array"); pbt_class("refused"); }
        }
        check("operation");
    }
    bfdev_array_release(&a); n = 0; check("release"); ta_check_empty(&ta, "released array"); if (grew) pbt_nontrivial();
}

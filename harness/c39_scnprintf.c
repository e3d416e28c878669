#include "pbt.h"
#include <stdio.h>
#include <stdarg.h>
#include <wchar.h>
#include <bfdev/scnprintf.h>
const char *const pbt_id = "C39", *const pbt_rule = "";
static char full[300000];
static int last;
static void one(size_t size, const char *fmt, ...)
{
    va_list a, b, c; va_start(a, fmt); va_copy(b, a); va_copy(c, a); int n = vsnprintf(full, sizeof full, fmt, a); va_end(a); last = n;
    char *buf = size ? g_alloc(size) : NULL; for (int i = 0; i < 2; i++) { if (size) memset(buf, 0xa5, size); TRACE("print \"%s\" (%d characters) into %zu bytes", fmt, n, size); int r = i ? bfdev_vscnprintf(buf, size, fmt, c) : bfdev_vscnprintf(buf, size, fmt, b); 
        size_t want = n < 0 ? 0 : !size ? 0 : (size_t)n < size ? n : size - 1; CHECK(r == (int)want, "returned %d for a text of %d characters and a buffer of %zu bytes, %zu are stored", r, n, size, want); if (size) { CHECK(buf[want] == 0, "the text of %d characters is not terminated at %zu", n, want); if (n >= 0) { CHECK(!memcmp(buf, full, want), "the stored text differs from the full one"); for (size_t k = want + 1; k < size; k++) CHECK((uint8_t)buf[k] == 0xa5, "byte %zu behind the terminator was written", k); } } }
    va_end(b); va_end(c); if (n > 0 && size && (size_t)n >= size) { pbt_nontrivial(); pbt_class("truncated"); } if (n >= 0 && (size_t)n + 1 == size) pbt_class("exact fit"); if (!size) pbt_class("no room"); if (n < 0) pbt_class("cannot be formatted");
}
static void variadic(char *b, size_t size, int r) { size_t want = last < 0 || !size ? 0 : (size_t)last < size ? last : size - 1; CHECK(r == (int)want, "the variadic form returned %d for a text of %d characters and a buffer of %zu bytes", r, last, size); if (size) { CHECK(b[want] == 0, "the variadic form did not terminate the text"); if (last >= 0) CHECK(!memcmp(b, full, want), "the text stored by the variadic form differs from the full one"); } }
#define one(room_, ...) do { size_t rs = room_; one(rs, __VA_ARGS__); char *vb = rs ? g_alloc(rs) : NULL; variadic(vb, rs, bfdev_scnprintf(vb, rs, __VA_ARGS__)); } while (0)
static size_t room(size_t n) { switch (d_u64(5)) { case 0: return 0; case 1: return d_range(1, 3); case 2: return d_u64(n + 20); case 3: return n + d_u64(2); case 4: return n ? n - 1 : 0; default: return n + d_range(1, 300); } }
void pbt_case(void)
{
    for (int k = d_range(1, 3); k--; ) {
        size_t l = d_chance(1, 3000) ? d_far(60000, 150000) : d_chance(1, 30) ? d_u64(60000) : d_chance(1, 4) ? d_pow(600) : d_u64(40); char *s = g_alloc(l + 1); for (size_t i = 0; i < l; i++) s[i] = 1 + (l > 100 ? pbt_mix(i) % 255 : d_u64(254)); s[l] = 0; long v = d_edge64(); int w = d_chance(1, 20) ? d_srange(-3000, 3000) : d_srange(-30, 30); double f = (double)v / 7; int cut = d_u64(l), ch = d_u64(255); wint_t wide = d_range(0x80, 0x10ffff);
        switch (d_u64(7)) {
            case 0: one(room(l), "%s", s); break;
            case 1: one(room(l + 20), "%s|%ld", s, v); break;
            case 2: one(room(w < 0 ? -w : w), "%*ld", w, v); break;
            case 3: one(room(l < 20 ? l : 20), "%.*s", cut, s); break;
            case 4: one(room(300), "%#lx %s %c %5.3f %%", v, l < 200 ? s : "", ch, f); break;
            case 5: one(room(0), ""); break;
            case 6: one(room(l + 4), "%s%lc", s, wide); break; /* not representable in the C locale */
            default: { char *p = g_alloc(l + 1); memcpy(p, s, l + 1); for (size_t i = 0; i < l; i++) if (p[i] == '%') p[i] = '!'; one(room(l), p); } break;
        }
        char *b = g_alloc(12); int r = bfdev_scnprintf(b, 12, "%ld", v); int n = snprintf(full, sizeof full, "%ld", v); CHECK_EQ(r, n < 12 ? n : 11, "variadic form's result"); CHECK(!strncmp(b, full, r) && !b[r], "variadic form stored \"%.12s\"", b);
    }
}

#include "pbt.h"
#include <bfdev/byteorder.h>
#include <bfdev/unaligned.h>
#include <bfdev/swab.h>
#include <bfdev/bitrev.h>
#include <bfdev/bcd.h>
#include <bfdev/dword.h>
const char *const pbt_id = "C05", *const pbt_rule = "";
typedef uint64_t u64;
static u64 ref_le(const uint8_t *p, int n) { u64 v = 0; for (int i = n; i--; ) v = v << 8 | p[i]; return v; }
static u64 ref_be(const uint8_t *p, int n) { u64 v = 0; for (int i = 0; i < n; i++) v = v << 8 | p[i]; return v; }
static u64 swp(u64 v, int n) { u64 r = 0; for (int i = 0; i < n; i++) { r = r << 8 | (v & 255); v >>= 8; } return r; }
static u64 rev(u64 v, int n) { u64 r = 0; for (int i = 0; i < n; i++) { r = r << 1 | (v & 1); v >>= 1; } return r; }
/* swap units of w bits pairwise inside units of 2w bits */
static u64 swpair(u64 v, int w, int total) { u64 r = 0, m = ((u64)1 << w) - 1; for (int i = 0; i < total; i += 2 * w) { u64 a = v >> i & m, b = v >> (i + w) & m; r |= b << i | a << (i + w); } return r; }
static u64 swrev(u64 v, int w, int total) { u64 r = 0, m = ((u64)1 << w) - 1; for (int i = 0; i < total; i += w) r |= (v >> i & m) << (total - w - i); return r; }
#define EQ(e, x) do { u64 _g = (u64)(e), _x = (u64)(x); if (_g != _x) pbt_fail(__FILE__, __LINE__, "%s with %#lx: got %#lx, expected %#lx", #e, (long)v, _g, _x); } while (0)

static void access(void)
{
    uint8_t sh[48], *m = g_alloc(48); d_bytes(m, 48); memcpy(sh, m, 48);
    for (int k = d_range(1, 8); k--; ) {
        int op = d_u64(23), n = op % 3 == 0 ? 2 : op % 3 == 1 ? 4 : 8; unsigned at = d_u64(48 - n); u64 v = d_edge64(); void *p = m + at; v &= n == 8 ? ~0ull : (1ull << 8 * n) - 1;
        TRACE("access op %d at %u value %#lx", op, at, (long)v);
        bool be = false, wr = false;
        switch (op) {
        case 0: EQ(bfdev_unaligned_get_le16(p), ref_le(p, 2)); break; case 1: EQ(bfdev_unaligned_get_le32(p), ref_le(p, 4)); break; case 2: EQ(bfdev_unaligned_get_le64(p), ref_le(p, 8)); break;
        case 3: EQ(bfdev_unaligned_get_be16(p), ref_be(p, 2)); break; case 4: EQ(bfdev_unaligned_get_be32(p), ref_be(p, 4)); break; case 5: EQ(bfdev_unaligned_get_be64(p), ref_be(p, 8)); break;
        case 6: EQ(bfdev_unaligned_get_u16(p), ref_le(p, 2)); break; case 7: EQ(bfdev_unaligned_get_u32(p), ref_le(p, 4)); break; case 8: EQ(bfdev_unaligned_get_u64(p), ref_le(p, 8)); break;
        case 9: bfdev_unaligned_set_le16(p, v); wr = 1; break; case 10: bfdev_unaligned_set_le32(p, v); wr = 1; break; case 11: bfdev_unaligned_set_le64(p, v); wr = 1; break;
        case 12: bfdev_unaligned_set_be16(p, v); wr = be = 1; break; case 13: bfdev_unaligned_set_be32(p, v); wr = be = 1; break; case 14: bfdev_unaligned_set_be64(p, v); wr = be = 1; break;
        case 15: bfdev_unaligned_set_u16(p, v); wr = 1; break; case 16: bfdev_unaligned_set_u32(p, v); wr = 1; break; case 17: bfdev_unaligned_set_u64(p, v); wr = 1; break;
        case 19: EQ(bfdev_unaligned_get_uint(p), ref_le(p, 4)); break; case 20: EQ(bfdev_unaligned_get_ulong(p), ref_le(p, 8)); break;
        case 22: bfdev_unaligned_set_uint(p, v); wr = 1; break; case 23: bfdev_unaligned_set_ulong(p, v); wr = 1; break;
        case 18: switch (at % 3) { case 0: EQ(bfdev_arch_unaligned_get((uint16_t *)p), ref_le(p, 2)); break; case 1: if (at <= 44) EQ(bfdev_arch_unaligned_get((uint32_t *)p), ref_le(p, 4)); break; default: if (at <= 40) EQ(bfdev_arch_unaligned_get((u64 *)p), ref_le(p, 8)); } break;
        case 21: if (at % 2 && at <= 40) { n = 8; v = d_edge64(); bfdev_arch_unaligned_set((u64 *)p, v); } else bfdev_arch_unaligned_set((uint16_t *)p, v); wr = 1; break;
        default: continue; }
        if (wr) for (int i = 0; i < n; i++) sh[at + i] = v >> 8 * (be ? n - 1 - i : i);
        CHECK(!memcmp(m, sh, 48), "unaligned access %d at offset %u left the wrong bytes", op, at);
    }
    pbt_class("unaligned access");
}
static void order(void)
{
    u64 v = HIDE(d_edge64()); uint8_t b[8];
    #define BO(W) do { uint##W##_t x = HIDE((uint##W##_t)v), y, z; int n = W / 8; \
        y = bfdev_cpu_to_le##W(x); memcpy(b, &y, n); EQ(ref_le(b, n), x); EQ(bfdev_le##W##_to_cpu(y), x); y = bfdev_cpu_to_be##W(x); memcpy(b, &y, n); EQ(ref_be(b, n), x); EQ(bfdev_be##W##_to_cpu(y), x); \
        y = bfdev_cpu_to_le##W##_const(x); memcpy(b, &y, n); EQ(ref_le(b, n), x); EQ(bfdev_le##W##_to_cpu_const(y), x); y = bfdev_cpu_to_be##W##_const(x); memcpy(b, &y, n); EQ(ref_be(b, n), x); EQ(bfdev_be##W##_to_cpu_const(y), x); \
        z = x; y = bfdev_cpu_to_le##W##p(&z); memcpy(b, &y, n); EQ(ref_le(b, n), x); EQ(bfdev_le##W##_to_cpup(&y), x); y = bfdev_cpu_to_be##W##p(&z); memcpy(b, &y, n); EQ(ref_be(b, n), x); EQ(bfdev_be##W##_to_cpup(&y), x); \
        z = x; bfdev_cpu_to_le##W##s(&z); memcpy(b, &z, n); EQ(ref_le(b, n), x); bfdev_le##W##_to_cpus(&z); EQ(z, x); bfdev_cpu_to_be##W##s(&z); memcpy(b, &z, n); EQ(ref_be(b, n), x); bfdev_be##W##_to_cpus(&z); EQ(z, x); \
        EQ(bfdev_swab##W(x), swp(x, n)); EQ(bfdev_swab##W##_const(x), swp(x, n)); EQ(bfdev_fswab##W(x), swp(x, n)); z = x; EQ(bfdev_swab##W##p(&z), swp(x, n)); bfdev_swab##W##s(&z); EQ(z, swp(x, n)); \
        EQ(bfdev_bitrev##W(x), rev(x, W)); EQ(bfdev_bitrev##W(bfdev_bitrev##W(x)), x); EQ(bfdev_bitrev##W##_const(x), rev(x, W)); EQ(bfdev_bitrev##W##_dynamic(x), rev(x, W)); } while (0)
    BO(16); BO(32); BO(64);
    { uint8_t x = v; EQ(bfdev_bitrev8(x), rev(x, 8)); EQ((uint8_t)bfdev_bitrev8_const(x), rev(x, 8)); }
    { u64 y; y = bfdev_cpu_to_be_long(v); memcpy(b, &y, 8); EQ(ref_be(b, 8), v); EQ(bfdev_be_long_to_cpu(y), v); y = bfdev_cpu_to_le_long(v); memcpy(b, &y, 8); EQ(ref_le(b, 8), v); EQ(bfdev_le_long_to_cpu(y), v); }
    EQ(bfdev_htons_const((uint16_t)v), swp((uint16_t)v, 2)); EQ(bfdev_htonl_const((uint32_t)v), swp((uint32_t)v, 4)); EQ(bfdev_ntohs_const((uint16_t)v), swp((uint16_t)v, 2)); EQ(bfdev_ntohl_const((uint32_t)v), swp((uint32_t)v, 4));
    uint32_t w = HIDE((uint32_t)v), t; u64 t8;
    EQ(bfdev_swab(v), swp(v, 8)); { unsigned long l = v; EQ(bfdev_swabp(&l), swp(v, 8)); bfdev_swabs(&l); EQ(l, swp(v, 8)); }
    EQ(bfdev_swahb32(w), swpair(w, 8, 32)); EQ(bfdev_swahw32(w), swpair(w, 16, 32)); EQ(bfdev_swahb64(v), swpair(v, 8, 64)); EQ(bfdev_swahw64(v), swpair(v, 16, 64)); EQ(bfdev_swahl64(v), swpair(v, 32, 64));
    EQ(bfdev_swahb32_const(w), swpair(w, 8, 32)); EQ(bfdev_swahw32_const(w), swpair(w, 16, 32)); EQ(bfdev_swahb64_const(v), swpair(v, 8, 64)); EQ(bfdev_swahw64_const(v), swpair(v, 16, 64)); EQ(bfdev_swahl64_const(v), swpair(v, 32, 64));
    t = w; EQ(bfdev_swahb32p(&t), swpair(w, 8, 32)); EQ(bfdev_swahw32p(&t), swpair(w, 16, 32)); bfdev_swahb32s(&t); EQ(t, swpair(w, 8, 32)); t = w; bfdev_swahw32s(&t); EQ(t, swpair(w, 16, 32));
    t8 = v; EQ(bfdev_swahb64p(&t8), swpair(v, 8, 64)); EQ(bfdev_swahw64p(&t8), swpair(v, 16, 64)); EQ(bfdev_swahl64p(&t8), swpair(v, 32, 64));
    bfdev_swahb64s(&t8); EQ(t8, swpair(v, 8, 64)); t8 = v; bfdev_swahw64s(&t8); EQ(t8, swpair(v, 16, 64)); t8 = v; bfdev_swahl64s(&t8); EQ(t8, swpair(v, 32, 64));
    /* binary-coded decimal */
    unsigned d = v % 100, bcd = (d / 10) << 4 | d % 10; unsigned hd = HIDE(d), hb = HIDE(bcd);
    EQ(bfdev_bin2bcd(hd), bcd); EQ(bfdev_bcd2bin(hb), d); EQ(bfdev_bin2bcd_const(hd), bcd); EQ(bfdev_bcd2bin_const(hb), d); EQ(bfdev_bcd2bin(bfdev_bin2bcd(hd)), d);
    pbt_class("byte order and reversal");
}
static void fillb(void *p, size_t n) { if (n <= 400) { d_bytes(p, n); return; } u64 x = d_u64(~0ull); for (size_t i = 0; i < n; i++) ((uint8_t *)p)[i] = pbt_mix(x + i / 8) >> i % 8 * 8; }
static void arrays(void)
{
    unsigned n = d_chance(1, 400) ? d_range(41, d_chance(1, 20) ? 70000 : 1500) : d_size(40), op = d_u64(15); bool inplace = d_bool(); u64 v = op;
    #define AR(W, T, F) do { T *s = g_alloc(n * sizeof(T)), *d = inplace ? s : g_alloc(n * sizeof(T)), *c = g_alloc(n * sizeof *c); fillb(s, n * sizeof(T)); memcpy(c, s, n * sizeof(T)); \
        TRACE("%s n=%u in place %d", #F, n, inplace); F##_array(d, s, n); for (unsigned i = 0; i < n; i++) { EQ(d[i], (T)(strstr(#F, "be") ? swp(c[i], W / 8) : c[i])); if (!inplace) EQ(s[i], c[i]); } } while (0)
    switch (op) {
    case 0: AR(16, uint16_t, bfdev_cpu_to_le16); break; case 1: AR(32, uint32_t, bfdev_cpu_to_le32); break; case 2: AR(64, uint64_t, bfdev_cpu_to_le64); break;
    case 3: AR(16, uint16_t, bfdev_le16_to_cpu); break; case 4: AR(32, uint32_t, bfdev_le32_to_cpu); break; case 5: AR(64, uint64_t, bfdev_le64_to_cpu); break;
    case 6: AR(16, uint16_t, bfdev_cpu_to_be16); break; case 7: AR(32, uint32_t, bfdev_cpu_to_be32); break; case 8: AR(64, uint64_t, bfdev_cpu_to_be64); break;
    case 9: AR(16, uint16_t, bfdev_be16_to_cpu); break; case 10: AR(32, uint32_t, bfdev_be32_to_cpu); break; case 11: AR(64, uint64_t, bfdev_be64_to_cpu); break;
    #define AL(F, be) do { ulong *s = g_alloc(n * 8), *d = inplace ? s : g_alloc(n * 8), *c = g_alloc(n * sizeof *c); fillb(s, n * 8); memcpy(c, s, n * 8); TRACE("%s n=%u in place %d", #F, n, inplace); F(d, s, n); for (unsigned i = 0; i < n; i++) { EQ(d[i], be ? swp(c[i], 8) : c[i]); if (!inplace) EQ(s[i], c[i]); } } while (0)
    case 12: AL(bfdev_cpu_to_le_long_array, 0); break; case 13: AL(bfdev_le_long_to_cpu_array, 0); break; case 14: AL(bfdev_cpu_to_be_long_array, 1); break; case 15: AL(bfdev_be_long_to_cpu_array, 1); break; }
    #define SA(W, T, F) do { T *s = g_alloc(n * sizeof(T)), *c = g_alloc(n * sizeof *c); fillb(s, n * sizeof(T)); memcpy(c, s, n * sizeof(T)); F(s, n); for (unsigned i = 0; i < n; i++) EQ(s[i], swp(c[i], W / 8)); } while (0)
    switch (d_u64(3)) { case 0: SA(16, uint16_t, bfdev_swab16_array); break; case 1: SA(32, uint32_t, bfdev_swab32_array); break; case 2: SA(64, uint64_t, bfdev_swab64_array); break; default: SA(64, unsigned long, bfdev_swab_array); }
    pbt_class(n > 40 ? "long arrays" : "arrays");
}
typedef unsigned __int128 u128;
static void dword(void)
{
    for (int k = 0; k < 4; k++) {
        u64 ah = d_edge64(), al = d_edge64(), bh = d_chance(1, 4) ? 0 : d_edge64(), bl = d_edge64(), rh, rl, v = 0; int rel = d_u64(5);
        if (rel == 0) bh = ah; else if (rel == 1) { bh = ah; bl = al; } else if (rel == 2) { bh = ah; bl = al + d_u64(4) - 2; } else if (rel == 3) bh = ah >> d_u64(63);
        else if (rel == 4 && (bh || bl)) { u128 b = (u128)bh << 64 | bl, max = ~(u128)0 / b, q = (u128)(d_bool() ? d_edge64() : 0) << 64 | d_edge64(), r = d_u64(3); if (q > max) q = d_bool() ? max : (~max ? q % (max + 1) : q); q *= b; r = r == 0 ? 0 : r == 1 ? b - 1 : r == 2 ? d_u64(2) : d_edge64() % b; if (r < b && q + r >= q) q += r; ah = q >> 64; al = q; } /* around an exact multiple */
        u128 a = (u128)ah << 64 | al, b = (u128)bh << 64 | bl, r;
        TRACE("%#lx:%#lx  %#lx:%#lx", ah, al, bh, bl);
        bfdev_dword_addd(rh, rl, ah, al, bh, bl); r = a + b; CHECK(((u128)rh << 64 | rl) == r, "double-word addition"); 
        bfdev_sub_ddmmss(rh, rl, ah, al, bh, bl); r = a - b; CHECK(((u128)rh << 64 | rl) == r, "double-word subtraction");
        { u64 x = ah, y = al; bfdev_dword_addd(x, y, x, y, bh, bl); CHECK(((u128)x << 64 | y) == (u128)(a + b), "double-word addition in place"); x = ah; y = al; bfdev_sub_ddmmss(x, y, x, y, bh, bl); CHECK(((u128)x << 64 | y) == (u128)(a - b), "double-word subtraction in place"); }
        bfdev_umul_ppmm(rh, rl, al, bl); r = (u128)al * bl; CHECK(((u128)rh << 64 | rl) == r, "double-word product of %#lx and %#lx: %#lx:%#lx", al, bl, rh, rl);
        { u64 d = bl | 1ull << 63, sh = ah % d, al_ = al, q, m; if (d_bool()) { u128 n = (u128)d_edge64() * d; u64 r = d_chance(1, 2) ? 0 : d_bool() ? d - 1 : d_edge64() % d; n += r; sh = n >> 64; al = n; } bfdev_udiv_qrnnd(q, m, sh, al, d); u128 n = (u128)sh << 64 | al; CHECK(q == (u64)(n / d) && m == (u64)(n % d), "normalized division %#lx:%#lx / %#lx = %#lx rem %#lx", sh, al, d, q, m); al = al_; }
        bool gen = d_bool();
        #define UDIV(...) (gen ? (bfdev_dword_generic_udiv)(__VA_ARGS__) : (void)({ bfdev_dword_udiv(__VA_ARGS__); }))
        #define UDIVD(...) (gen ? (bfdev_dword_generic_udivd)(__VA_ARGS__) : (void)({ bfdev_dword_udivd(__VA_ARGS__); }))
        u64 src[2] = { al, ah }, dv[2] = { bl, bh }, q[2] = { 1, 2 }, m[2] = { 3, 4 }, one; int want = d_u64(2);
        if (bl) { UDIV(want == 1 ? NULL : q, want == 2 ? NULL : &one, src, bl); if (want != 1) CHECK(((u128)q[1] << 64 | q[0]) == a / bl, "%#lx:%#lx / %#lx: quotient %#lx:%#lx", ah, al, bl, q[1], q[0]); if (want != 2) CHECK(one == (u64)(a % bl), "%#lx:%#lx %% %#lx: remainder %#lx", ah, al, bl, one); CHECK(src[0] == al && src[1] == ah, "operands changed"); }
        if (b) { if (!bh) m[1] = 0; UDIVD(want == 1 ? NULL : q, want == 2 ? NULL : m, src, dv); if (want != 1) CHECK(((u128)q[1] << 64 | q[0]) == a / b, "%#lx:%#lx / %#lx:%#lx: quotient %#lx:%#lx", ah, al, bh, bl, q[1], q[0]); if (want != 2) CHECK(((u128)m[1] << 64 | m[0]) == a % b, "%#lx:%#lx %% %#lx:%#lx: remainder %#lx:%#lx", ah, al, bh, bl, m[1], m[0]); CHECK(src[0] == al && src[1] == ah && dv[0] == bl && dv[1] == bh, "operands changed"); }
    }
    pbt_class("double words");
}
#define CS(N) { u64 v = N##ULL; EQ(bfdev_bitrev8(N##ULL), rev((uint8_t)v, 8)); EQ(bfdev_bitrev16(N##ULL), rev((uint16_t)v, 16)); EQ(bfdev_bitrev32(N##ULL), rev((uint32_t)v, 32)); EQ(bfdev_bitrev64(N##ULL), rev(v, 64)); \
    EQ(bfdev_swab16(N##ULL), swp((uint16_t)v, 2)); EQ(bfdev_swab32(N##ULL), swp((uint32_t)v, 4)); EQ(bfdev_swab64(N##ULL), swp(v, 8)); EQ(bfdev_cpu_to_be32(N##ULL), swp((uint32_t)v, 4)); EQ(bfdev_cpu_to_be64(N##ULL), swp(v, 8)); \
    EQ(bfdev_swahb32(N##ULL), swpair((uint32_t)v, 8, 32)); EQ(bfdev_swahw64(N##ULL), swpair(v, 16, 64)); EQ(bfdev_bcd2bin(N##ULL % 10), v % 10); EQ(bfdev_bin2bcd(N##ULL % 100), (v % 100 / 10) << 4 | v % 10); }
static void consts(void) { CS(0) CS(1) CS(0x0123456789abcdef) CS(0xfedcba9876543210) CS(0x8000000000000001) CS(0x0f1e2d3c4b5a6978) CS(0x0000100000000000) CS(0x0000080000000000) CS(0x10000000) CS(0x08000000) CS(0xffffffffffffffff) CS(0xdeadbeefcafebabe) }
/* the conversions of a big-endian processor are words of the same header set: there the big-endian order is the processor's own */
#define bfdev_cpu_to_le16p big_bfdev_cpu_to_le16p
#define bfdev_le16_to_cpup big_bfdev_le16_to_cpup
#define bfdev_cpu_to_be16p big_bfdev_cpu_to_be16p
#define bfdev_be16_to_cpup big_bfdev_be16_to_cpup
#define bfdev_cpu_to_le32p big_bfdev_cpu_to_le32p
#define bfdev_le32_to_cpup big_bfdev_le32_to_cpup
#define bfdev_cpu_to_be32p big_bfdev_cpu_to_be32p
#define bfdev_be32_to_cpup big_bfdev_be32_to_cpup
#define bfdev_cpu_to_le64p big_bfdev_cpu_to_le64p
#define bfdev_le64_to_cpup big_bfdev_le64_to_cpup
#define bfdev_cpu_to_be64p big_bfdev_cpu_to_be64p
#define bfdev_be64_to_cpup big_bfdev_be64_to_cpup
#include <bfdev/byteorder/big-endian.h>
static void bigend(void)
{
    u64 v = HIDE(d_edge64());
    #define BE(W) do { uint##W##_t x = HIDE((uint##W##_t)v), o = swp(x, W / 8), z; \
        EQ((uint##W##_t)bfdev_cpu_to_le##W(x), o); EQ((uint##W##_t)bfdev_le##W##_to_cpu(x), o); EQ((uint##W##_t)bfdev_cpu_to_be##W(x), x); EQ((uint##W##_t)bfdev_be##W##_to_cpu(x), x); \
        EQ((uint##W##_t)bfdev_cpu_to_le##W##_const(x), o); EQ((uint##W##_t)bfdev_le##W##_to_cpu_const(x), o); EQ((uint##W##_t)bfdev_cpu_to_be##W##_const(x), x); EQ((uint##W##_t)bfdev_be##W##_to_cpu_const(x), x); \
        EQ(bfdev_cpu_to_le##W##p(&x), o); EQ(bfdev_le##W##_to_cpup(&x), o); EQ(bfdev_cpu_to_be##W##p(&x), x); EQ(bfdev_be##W##_to_cpup(&x), x); \
        z = x; bfdev_cpu_to_le##W##s(&z); EQ(z, o); bfdev_le##W##_to_cpus(&z); EQ(z, x); bfdev_cpu_to_be##W##s(&z); EQ(z, x); bfdev_be##W##_to_cpus(&z); EQ(z, x); } while (0)
    BE(16); BE(32); BE(64);
    EQ(bfdev_htons_const((uint16_t)v), (uint16_t)v); EQ(bfdev_htonl_const((uint32_t)v), (uint32_t)v); EQ(bfdev_ntohs_const((uint16_t)v), (uint16_t)v); EQ(bfdev_ntohl_const((uint32_t)v), (uint32_t)v);
    pbt_class("big-endian conversions");
}
void pbt_case(void)
{
    static bool first = true; if (first) { consts(); first = false; }
    switch (d_u64(4)) { case 4: bigend(); break; case 0: access(); break; case 1: order(); break; case 2: arrays(); break; default: dword(); }
    pbt_nontrivial();
}

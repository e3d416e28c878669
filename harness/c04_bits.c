#include "pbt.h"
#include <sys/mman.h>
#include <unistd.h>
#include <limits.h>
#include <bfdev/bitops.h>
#include <bfdev/bitops-endian.h>
#include <bfdev/bitflags.h>
#include <bfdev/log2.h>
#include <bfdev/math.h>
#include <bfdev/align.h>
#include <bfdev/minmax.h>
#include <bfdev/popcount.h>
const char *const pbt_id = "C04", *const pbt_rule = "";
typedef unsigned long ul;
BFDEV_BITFLAGS(fl5, 5) BFDEV_BITFLAGS(fl63, 63) BFDEV_BITFLAGS(fl100, 100) BFDEV_BITFLAGS_ATOMIC(fa70, 70)
struct flagst { ul guard; ul flags; ul guard2; };
BFDEV_BITFLAGS_STRUCT(fs9, struct flagst, flags, 9) BFDEV_BITFLAGS_STRUCT_ATOMIC(fsa40, struct flagst, flags, 40)

static unsigned lo(ul v) { for (unsigned i = 0; i < 64; i++) if (v >> i & 1) return i; return 64; }
static unsigned hi(ul v) { for (unsigned i = 64; i--; ) if (v >> i & 1) return i; return 64; }
static unsigned nth(ul v, uint64_t n) { for (unsigned i = 0; i < 64; i++) if ((v >> i & 1) && !n--) return i; return 64; }
static unsigned nthtop(ul v, uint64_t n) { for (unsigned i = 64; i--; ) if ((v >> i & 1) && !n--) return i; return 64; }
static unsigned pop(ul v) { unsigned n = 0; for (unsigned i = 0; i < 64; i++) n += v >> i & 1; return n; }
#define EQ(e, x) do { unsigned long long _g = (unsigned long long)(e), _x = (unsigned long long)(x); \
    if (_g != _x) pbt_fail(__FILE__, __LINE__, "%s with %#lx: got %llu (%#llx), expected %llu (%#llx)", #e, v, _g, _g, _x, _x); } while (0)
static ul word(void) { switch (d_u64(6)) { case 0: return 1ul << d_u64(63); case 1: return ~(1ul << d_u64(63)); case 2: return ~0ul << d_u64(63); case 3: return ~0ul >> d_u64(63); case 4: return d_u64(~0ull) & d_u64(~0ull) & d_u64(~0ull); default: return d_edge64(); } }
#define CONSTS(X) X(0) X(1) X(2) X(3) X(4) X(5) X(7) X(8) X(9) X(15) X(16) X(17) X(31) X(32) X(33) X(63) X(64) X(65) X(127) X(255) X(256) X(257) X(1000) X(1023) X(1024) X(4095) X(4097) X(65535) X(65536) X(65537) X(0x7fffffff) X(0x80000000) X(0x80000001) X(0xffffffff) X(0x100000000) X(0x100000001) X(0x123456789abc) X(0x3fffffffffffffff) X(0x4000000000000000) X(0x7fffffffffffffff) X(0x8000000000000000) X(0xaaaaaaaaaaaaaaaa) X(0x5555555555555555) X(0xdeadbeefcafebabe)
static unsigned rlog(ul v) { return v < 2 ? 0 : hi(v); }
static ul rup(ul v) { ul p = 1; if (v < 2) return v; while (p && p < v) p <<= 1; return p; }
static ul rdown(ul v) { return v < 2 ? v : 1ul << hi(v); }
#define CST(N) { ul v = N##UL; \
    EQ(bfdev_ilog2(N##UL), rlog(v)); EQ(bfdev_ilog2_const(N##UL), rlog(v)); if (N##UL <= 1UL << 63) EQ(bfdev_pow2_roundup(N##UL), rup(v)); EQ(bfdev_pow2_rounddown(N##UL), rdown(v)); \
    EQ(bfdev_popcount64(N##UL), pop(v)); EQ(bfdev_popparity64(N##UL), pop(v) & 1); EQ(bfdev_popcount32((uint32_t)N##UL), pop((uint32_t)v)); EQ(bfdev_popparity32((uint32_t)N##UL), pop((uint32_t)v) & 1); \
    EQ(bfdev_popcount16((uint16_t)N##UL), pop((uint16_t)v)); EQ(bfdev_popparity16((uint16_t)N##UL), pop((uint16_t)v) & 1); EQ(bfdev_popcount8((uint8_t)N##UL), pop((uint8_t)v)); EQ(bfdev_popparity8((uint8_t)N##UL), pop((uint8_t)v) & 1); }
#define CSX(N) { ul v = N; \
    EQ(bfdev_ilog2((N)), rlog(v)); EQ(bfdev_ilog2_const((N)), rlog(v)); if ((N) <= 1UL << 63) EQ(bfdev_pow2_roundup((N)), rup(v)); EQ(bfdev_pow2_rounddown((N)), rdown(v)); \
    EQ(bfdev_popcount64((N)), pop(v)); EQ(bfdev_popparity64((N)), pop(v) & 1); EQ(bfdev_popcount32((uint32_t)(N)), pop((uint32_t)v)); EQ(bfdev_popparity32((uint32_t)(N)), pop((uint32_t)v) & 1); \
    EQ(bfdev_popcount16((uint16_t)(N)), pop((uint16_t)v)); EQ(bfdev_popparity16((uint16_t)(N)), pop((uint16_t)v) & 1); EQ(bfdev_popcount8((uint8_t)(N)), pop((uint8_t)v)); EQ(bfdev_popparity8((uint8_t)(N)), pop((uint8_t)v) & 1); }
/* every single bit, and each with the lowest one, as constants */
static void bits1(void)
{
#define B1(i) CSX((1ul << (i))) CSX((1ul << (i) | 1))
#define B4(i) B1(i) B1(i + 1) B1(i + 2) B1(i + 3)
#define B16(i) B4(i) B4(i + 4) B4(i + 8) B4(i + 12)
    B16(0) B16(16) B16(32) B16(48)
}
static void consts(void) { CONSTS(CST) bits1(); }

static void scan(void)
{
    ul v = HIDE(word()); unsigned nr = d_u64(3) ? d_u64(66) : (unsigned)d_edge(32), n; TRACE("word %#lx nr %u", v, nr);
    if (v) { EQ(bfdev_ffsuf(v), lo(v)); EQ(bfdev_flsuf(v), hi(v)); EQ(bfdev_ffsuf64(v), lo(v)); EQ(bfdev_flsuf64(v), hi(v)); EQ(bfdev_ctz(v), lo(v)); EQ(bfdev_clz(v), 63 - hi(v)); EQ(bfdev_ctz64(v), lo(v)); EQ(bfdev_clz64(v), 63 - hi(v)); }
    if (~v) { EQ(bfdev_ffzuf(v), lo(~v)); EQ(bfdev_flzuf(v), hi(~v)); EQ(bfdev_ffzuf64(v), lo(~v)); EQ(bfdev_flzuf64(v), hi(~v)); }
    EQ(bfdev_ffs(v), v ? lo(v) + 1 : 0); EQ(bfdev_fls(v), v ? hi(v) + 1 : 0); EQ(bfdev_ffz(v), ~v ? lo(~v) + 1 : 0); EQ(bfdev_flz(v), ~v ? hi(~v) + 1 : 0);
    EQ(bfdev_ffs64(v), v ? lo(v) + 1 : 0); EQ(bfdev_fls64(v), v ? hi(v) + 1 : 0); EQ(bfdev_ffz64(v), ~v ? lo(~v) + 1 : 0); EQ(bfdev_flz64(v), ~v ? hi(~v) + 1 : 0);
    /* n-th bit: position, or at least the word length when there are not that many */
    #define NTH(call, exp) do { unsigned r = (call), x = (exp); CHECK(x == 64 ? r >= 64 : r == x, "%s with %#lx, n=%u: got %u, expected %u", #call, v, nr, r, x); } while (0)
    NTH(bfdev_ffns(v, nr), nth(v, nr)); NTH(bfdev_flns(v, nr), nthtop(v, nr)); NTH(bfdev_ffnz(v, nr), nth(~v, nr)); NTH(bfdev_flnz(v, nr), nthtop(~v, nr));
    NTH(bfdev_ffns64(v, nr), nth(v, nr)); NTH(bfdev_flns64(v, nr), nthtop(v, nr)); NTH(bfdev_ffnz64(v, nr), nth(~v, nr)); NTH(bfdev_flnz64(v, nr), nthtop(~v, nr));
    n = nr; NTH(bfdev_ffnsp(v, &n), nth(v, nr)); n = nr; NTH(bfdev_flnsp(v, &n), nthtop(v, nr)); n = nr; NTH(bfdev_ffnzp(v, &n), nth(~v, nr)); n = nr; NTH(bfdev_flnzp(v, &n), nthtop(~v, nr));
    n = nr; NTH(bfdev_flnsp64(v, &n), nthtop(v, nr)); n = nr; NTH(bfdev_ffnsp64(v, &n), nth(v, nr)); n = nr; NTH(bfdev_flnzp64(v, &n), nthtop(~v, nr)); n = nr; NTH(bfdev_ffnzp64(v, &n), nth(~v, nr));
    pbt_class("scan");
}
static void rot(void)
{
    ul v = HIDE(word()); unsigned s = HIDE(d_u64(3) ? (unsigned)d_u64(80) : (unsigned)d_edge(32));
    TRACE("rotate %#lx by %u", v, s);
    #define R(W, T) do { T x = v, l = 0, r = 0; for (unsigned i = 0; i < W; i++) { if (x >> i & 1) { l |= (T)((T)1 << ((i + (s % W)) % W)); r |= (T)((T)1 << ((i + W - (s % W)) % W)); } } EQ(bfdev_rol##W(x, s), l); EQ(bfdev_ror##W(x, s), r); } while (0)
    R(8, uint8_t); R(16, uint16_t); R(32, uint32_t); R(64, uint64_t); pbt_class("rotate");
}
static void logs(void)
{
    ul v = HIDE(word()); unsigned v32 = (unsigned)v; TRACE("value %#lx", v);
    EQ(bfdev_ilog2(v), rlog(v)); EQ(bfdev_ilog2(v32), rlog(v32)); EQ(bfdev_pow2_rounddown(v), rdown(v)); if (v <= 1ul << 63) EQ(bfdev_pow2_roundup(v), rup(v));
    EQ(bfdev_pow2_check(v), pop(v) == 1);
    EQ(bfdev_popcount64(v), pop(v)); EQ(bfdev_popparity64(v), pop(v) & 1); EQ(bfdev_popcount32(v32), pop(v32)); EQ(bfdev_popparity32(v32), pop(v32) & 1);
    uint16_t h = v; uint8_t b = v; EQ(bfdev_popcount16(h), pop(h)); EQ(bfdev_popparity16(h), pop(h) & 1); EQ(bfdev_popcount8(b), pop(b)); EQ(bfdev_popparity8(b), pop(b) & 1);
    EQ(bfdev_popcount64_const(v), pop(v)); EQ(bfdev_popparity64_const(v), pop(v) & 1); EQ(bfdev_popcount32_const(v32), pop(v32)); EQ(bfdev_popparity32_const(v32), pop(v32) & 1);
    EQ(bfdev_popcount16_const(h), pop(h)); EQ(bfdev_popparity16_const(h), pop(h) & 1); EQ(bfdev_popcount8_const(b), pop(b)); EQ(bfdev_popparity8_const(b), pop(b) & 1);
    unsigned nb = HIDE(d_range(1, 64)), hb = HIDE(d_range(0, 63)), lb = HIDE(d_u64(hb)); ul lm = 0, hm = 0, rm = 0;
    for (unsigned i = 0; i < 64; i++) { if (i < nb) lm |= 1ul << i; if (i >= hb) hm |= 1ul << i; if (i >= lb && i <= hb) rm |= 1ul << i; }
    EQ(BFDEV_BIT_LOW_MASK(nb), lm); EQ(BFDEV_BIT_HIGH_MASK(hb), hm); EQ(BFDEV_BIT_RANGE(hb, lb), rm); EQ(BFDEV_BIT_RANGE_ULL(hb, lb), rm); EQ(BFDEV_BIT(hb), 1ul << hb); EQ(BFDEV_BIT_SHIFT(hb, v), v << hb);
    EQ(BFDEV_BIT_ULL(hb), 1ull << hb); EQ(BFDEV_BIT_SHIFT_ULL(hb, (unsigned long long)v), (unsigned long long)v << hb); EQ(BFDEV_BIT(hb + 64), 1ul << hb); EQ(BFDEV_BIT_ULL(hb + 64), 1ull << hb); EQ(BFDEV_BIT_SHIFT(hb + 128, v), v << hb);
    { ul q = HIDE(v >> 7), r = q; /* lengths in bits: whole words, the rest, words that hold them */
      #define BW(N, w) do { EQ(BFDEV_BITS_DIV_##N(q + 1), (q + 1) / w); EQ(BFDEV_BITS_MOD_##N(q + 1), (q + 1) % w); EQ(BFDEV_BITS_TO_##N(q + 1), (q + w) / w); EQ(BFDEV_BITS_PER_##N, w); EQ(BFDEV_BYTES_PER_##N, w / 8); } while (0)
      BW(U8, 8); BW(U16, 16); BW(U32, 32); BW(U64, 64); BW(CHAR, 8); BW(SHORT, 16); BW(INT, 32); BW(LONG, 64); BW(LONG_LONG, 64); EQ(BFDEV_BITS_WORD(q), q / 64); (void)r; }
    pbt_class("logarithms, counts, masks");
}
static void arith(void)
{
    ul v = HIDE(d_bool() ? d_u64(5000) : word()); unsigned sh = d_u64(20); ul y = HIDE(1ul << sh); unsigned y32 = y; int yi = y;
    if (d_chance(1, 6)) { v = d_edge64() & ~(y - 1); }
    TRACE("align %#lx to %#lx", v, y);
    ul dn = v - v % y, up = dn == v ? v : dn + y; bool fits = up >= v;
    EQ(bfdev_round_down(v, y), dn); EQ(bfdev_align_low(v, y), dn); EQ(bfdev_align_low(v, y32), dn); EQ(bfdev_align_low(v, yi), dn); EQ(bfdev_align_check(v, y), dn == v); EQ(bfdev_align_check(v, yi), dn == v);
    EQ(bfdev_round_down(v, y) + 1, dn + 1); EQ(!bfdev_round_down(v, y), !dn); EQ(bfdev_round_down(v, yi), dn); EQ(bfdev_round_down(v, y32), dn);
    if (fits) { EQ(bfdev_round_up(v, y), up); EQ(bfdev_round_up(v, y32), up); EQ(bfdev_round_up(v, yi), up); EQ(bfdev_align_high(v, y), up); EQ(bfdev_align_high(v, y32), up); EQ(bfdev_align_high(v, yi), up);
        EQ((ul)bfdev_align_ptr_high((char *)v, y), up); EQ((ul)bfdev_align_ptr_high((char *)v, y32), up); ul t = v; bfdev_align_high_adj(t, y); EQ(t, up); }
    EQ((ul)bfdev_align_ptr_low((char *)v, y), dn); EQ((ul)bfdev_align_ptr_low((char *)v, y32), dn); EQ(bfdev_align_ptr_check((char *)v, y), dn == v); { ul t = v; bfdev_align_low_adj(t, y); EQ(t, dn); char *tp = (char *)v; bfdev_align_ptr_low_adj(tp, y); EQ((ul)tp, dn); if (fits) { tp = (char *)v; bfdev_align_ptr_high_adj(tp, y); EQ((ul)tp, up); } }
    unsigned v32 = (unsigned)v & 0xfffff; { unsigned d32 = v32 - v32 % y32, u32 = d32 == v32 ? v32 : d32 + y32; EQ(bfdev_align_low(v32, y), d32); EQ(bfdev_align_high(v32, y), u32); EQ(bfdev_round_up(v32, y32), u32); EQ(bfdev_align_high((uint8_t)v32, 4096), (uint8_t)v32 ? 4096 : 0); }
    ul d = HIDE(d_bool() ? d_range(1, 100) : d_u64(1ul << 40) + 1); if (v <= ~0ul - d) { EQ(BFDEV_DIV_ROUND_UP(v, d), v / d + !!(v % d)); }
    int64_t sx = HIDE(d_srange(-100000, 100000)), sd = HIDE(d_srange(1, 300)); if (d_bool()) sd = -sd;
    { /* nearest integer, halves away from zero */
      int64_t ax = sx < 0 ? -sx : sx, ad = sd < 0 ? -sd : sd, q = (2 * ax + ad) / (2 * ad); if ((sx < 0) != (sd < 0)) q = -q;
      int64_t g = BFDEV_DIV_ROUND_CLOSEST(sx, sd); int64_t twice = 2 * sx - 2 * g * sd; if (twice < 0) twice = -twice;
      CHECK(twice <= ad, "DIV_ROUND_CLOSEST(%ld, %ld) = %ld is not the closest integer", sx, sd, g); (void)q;
      ul ux = HIDE(v >> 2), ud = HIDE(d); EQ(BFDEV_DIV_ROUND_CLOSEST(ux, ud), (ux + ud / 2) / ud);
      int64_t px = HIDE(d_chance(1, 4) ? 0 : (int64_t)(v >> 2)), pd = d; int ix = HIDE((int)(v & 0xfffff)), id = HIDE(d_range(1, 300)); unsigned iu = HIDE((unsigned)id), xu = HIDE((unsigned)ix); if (d_chance(1, 4)) ix = xu = 0; /* one side signed, the other not */
      EQ(BFDEV_DIV_ROUND_CLOSEST(px, ud), (px + ud / 2) / ud); EQ(BFDEV_DIV_ROUND_CLOSEST(ux, pd), (ux + ud / 2) / ud); EQ(BFDEV_DIV_ROUND_CLOSEST(px, iu), ((ul)px + iu / 2) / iu); EQ(BFDEV_DIV_ROUND_CLOSEST(ix, iu), (xu + iu / 2) / iu); EQ(BFDEV_DIV_ROUND_CLOSEST(xu, id), (xu + iu / 2) / iu); }
    int64_t a = (int64_t)word(), b = (int64_t)word(), c = (int64_t)word(); if (d_chance(1, 4)) b = a;
    CHECK(bfdev_min(a, b) == (a < b ? a : b) && bfdev_max(a, b) == (a > b ? a : b), "min/max of %ld and %ld", a, b);
    ul ua = a, ub = b; CHECK(bfdev_min(ua, ub) == (ua < ub ? ua : ub) && bfdev_max(ua, ub) == (ua > ub ? ua : ub), "unsigned min/max of %lu and %lu", ua, ub);
    int64_t l = b < c ? b : c, h = b < c ? c : b, e = a < l ? l : a > h ? h : a; CHECK(bfdev_clamp(a, l, h) == e, "clamp(%ld, %ld, %ld)", a, l, h);
    { int64_t t = a; bfdev_clamp_adj(t, l, h); CHECK(t == e, "clamp_adj"); t = a; bfdev_min_adj(t, b); CHECK(t == (a < b ? a : b), "min_adj"); t = a; bfdev_max_adj(t, b); CHECK(t == (a > b ? a : b), "max_adj"); }
    pbt_class("alignment and rounding");
}
static void flags(void)
{
    enum { NWD = 4 }; ul *m = g_alloc(NWD * 8), s[NWD], *org = m; unsigned far = 0; /* rarely the words lie millions of words behind the address that is given */
    static ul *wide; if (!wide) { wide = mmap(NULL, 1ul << 29, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (wide == MAP_FAILED) { perror("mmap"); _exit(3); } }
    if (d_chance(1, 25)) { far = d_edge(26) & ((1u << 26) - 1); if (far > (1u << 26) - NWD) far = (1u << 26) - NWD; far &= ~7u; org = wide; m = wide + far; pbt_class("far bits"); }
    for (int i = 0; i < NWD; i++) s[i] = m[i] = word();
    for (int k = d_range(1, 8); k--; ) {
        unsigned bit = d_u64(NWD * 64 - 1), fl; ul v = bit; bool old, val = d_bool(), r = 0; int op = d_u64(53), act; bool rep = true;
        unsigned eb = bit;
        if (op >= 18) { eb = bit ^ (op >= 36 ? 56 : 0); }
        old = s[eb / 64] >> (eb % 64) & 1;
        #define E(n, a, call) case n: TRACE("%s bit=%u val=%d", #call, bit, val); r = (call, 0); rep = false; act = a; break;
        #define Q(n, a, call) case n: TRACE("%s bit=%u val=%d", #call, bit, val); r = (call); act = a; break;
        switch (op) { /* act: 0 keep 1 set 2 clear 3 flip 4 change */
        E(0, 2, bfdev_bit_clr(org, far * 64 + bit)) E(1, 1, bfdev_bit_set(org, far * 64 + bit)) E(2, 3, bfdev_bit_flip(org, far * 64 + bit)) E(3, 4, bfdev_bit_change(org, far * 64 + bit, val)) Q(4, 0, bfdev_bit_test(org, far * 64 + bit))
        Q(5, 2, bfdev_bit_test_clr(org, far * 64 + bit)) Q(6, 1, bfdev_bit_test_set(org, far * 64 + bit)) Q(7, 3, bfdev_bit_test_flip(org, far * 64 + bit)) Q(8, 4, bfdev_bit_test_change(org, far * 64 + bit, val))
        E(9, 2, bfdev_bit_atomic_clr(org, far * 64 + bit)) E(10, 1, bfdev_bit_atomic_set(org, far * 64 + bit)) E(11, 3, bfdev_bit_atomic_flip(org, far * 64 + bit)) E(12, 4, bfdev_bit_atomic_change(org, far * 64 + bit, val)) Q(13, 0, bfdev_bit_atomic_test(org, far * 64 + bit))
        Q(14, 2, bfdev_bit_atomic_test_clr(org, far * 64 + bit)) Q(15, 1, bfdev_bit_atomic_test_set(org, far * 64 + bit)) Q(16, 3, bfdev_bit_atomic_test_flip(org, far * 64 + bit)) Q(17, 4, bfdev_bit_atomic_test_change(org, far * 64 + bit, val))
        E(18, 2, bfdev_bit_clr_le(org, far * 64 + bit)) E(19, 1, bfdev_bit_set_le(org, far * 64 + bit)) E(20, 3, bfdev_bit_flip_le(org, far * 64 + bit)) E(21, 4, bfdev_bit_change_le(org, far * 64 + bit, val)) Q(22, 0, bfdev_bit_test_le(org, far * 64 + bit)) Q(23, 2, bfdev_bit_test_clr_le(org, far * 64 + bit)) Q(24, 1, bfdev_bit_test_set_le(org, far * 64 + bit)) Q(25, 3, bfdev_bit_test_flip_le(org, far * 64 + bit)) 
        E(27, 2, bfdev_bit_atomic_clr_le(org, far * 64 + bit)) E(28, 1, bfdev_bit_atomic_set_le(org, far * 64 + bit)) E(29, 3, bfdev_bit_atomic_flip_le(org, far * 64 + bit)) E(30, 4, bfdev_bit_atomic_change_le(org, far * 64 + bit, val)) Q(31, 0, bfdev_bit_atomic_test_le(org, far * 64 + bit)) Q(32, 2, bfdev_bit_atomic_test_clr_le(org, far * 64 + bit)) Q(33, 1, bfdev_bit_atomic_test_set_le(org, far * 64 + bit)) Q(34, 3, bfdev_bit_atomic_test_flip_le(org, far * 64 + bit)) Q(35, 4, bfdev_bit_atomic_test_change_le(org, far * 64 + bit, val))
        E(36, 2, bfdev_bit_clr_be(org, far * 64 + bit)) E(37, 1, bfdev_bit_set_be(org, far * 64 + bit)) E(38, 3, bfdev_bit_flip_be(org, far * 64 + bit)) E(39, 4, bfdev_bit_change_be(org, far * 64 + bit, val)) Q(40, 0, bfdev_bit_test_be(org, far * 64 + bit)) Q(41, 2, bfdev_bit_test_clr_be(org, far * 64 + bit)) Q(42, 1, bfdev_bit_test_set_be(org, far * 64 + bit)) Q(43, 3, bfdev_bit_test_flip_be(org, far * 64 + bit)) Q(44, 4, bfdev_bit_test_change_be(org, far * 64 + bit, val))
        E(45, 2, bfdev_bit_atomic_clr_be(org, far * 64 + bit)) E(46, 1, bfdev_bit_atomic_set_be(org, far * 64 + bit)) E(47, 3, bfdev_bit_atomic_flip_be(org, far * 64 + bit)) E(48, 4, bfdev_bit_atomic_change_be(org, far * 64 + bit, val)) Q(49, 0, bfdev_bit_atomic_test_be(org, far * 64 + bit)) Q(50, 2, bfdev_bit_atomic_test_clr_be(org, far * 64 + bit)) Q(51, 1, bfdev_bit_atomic_test_set_be(org, far * 64 + bit)) Q(52, 3, bfdev_bit_atomic_test_flip_be(org, far * 64 + bit)) Q(53, 4, bfdev_bit_atomic_test_change_be(org, far * 64 + bit, val))
        default: continue; }
        if (act == 1 || (act == 4 && val)) s[eb / 64] |= 1ul << (eb % 64); else if (act == 2 || act == 4) s[eb / 64] &= ~(1ul << (eb % 64)); else if (act == 3) s[eb / 64] ^= 1ul << (eb % 64);
        if (rep) CHECK(r == old, "bit operation %d on bit %u reported %d, the bit was %d", op, bit, r, old);
        CHECK(!memcmp(m, s, NWD * 8), "bit operation %d on bit %u changed the wrong bits", op, bit);
    }
    if (far) { madvise(wide + (far & ~511u), 8192, MADV_DONTNEED); return; } m = org;
    /* generated flag accessors */
    struct { const char *n; unsigned bit; void (*clr)(ul *), (*set)(ul *), (*flip)(ul *); bool (*test)(const ul *), (*tc)(ul *), (*ts)(ul *), (*tf)(ul *); } f[] = {
        #define G(p, b) { #p, b, p##_clr, p##_set, p##_flip, p##_test, p##_test_clr, p##_test_set, p##_test_flip }
        G(fl5, 5), G(fl63, 63), G(fl100, 100), G(fa70, 70) };
    int i = d_u64(3), op = d_u64(6); ul b = 1ul << (f[i].bit % 64), *w = &s[f[i].bit / 64]; bool old = !!(*w & b);
    switch (op) {
    case 0: f[i].clr(m); *w &= ~b; break; case 1: f[i].set(m); *w |= b; break; case 2: f[i].flip(m); *w ^= b; break;
    case 3: CHECK(f[i].test(m) == old, "flag test"); break; case 4: CHECK(f[i].tc(m) == old, "flag test-clear"); *w &= ~b; break;
    case 5: CHECK(f[i].ts(m) == old, "flag test-set"); *w |= b; break; case 6: CHECK(f[i].tf(m) == old, "flag test-flip"); *w ^= b; break; }
    CHECK(!memcmp(m, s, NWD * 8), "flag accessor %s changed the wrong bits", f[i].n);
    struct flagst st = { word(), word(), word() }, sx = st; bool q = d_bool(); ul fb = 1ul << (q ? 9 : 40); bool o = !!(sx.flags & fb);
    switch (d_u64(6)) {
    case 0: q ? fs9_set(&st) : fsa40_set(&st); sx.flags |= fb; break; case 1: q ? fs9_clr(&st) : fsa40_clr(&st); sx.flags &= ~fb; break; case 2: q ? fs9_flip(&st) : fsa40_flip(&st); sx.flags ^= fb; break;
    case 3: CHECK((q ? fs9_test(&st) : fsa40_test(&st)) == o, "structure flag test"); break;
    case 4: CHECK((q ? fs9_test_set(&st) : fsa40_test_set(&st)) == o, "structure flag test-set"); sx.flags |= fb; break;
    case 5: CHECK((q ? fs9_test_clr(&st) : fsa40_test_clr(&st)) == o, "structure flag test-clear"); sx.flags &= ~fb; break;
    default: CHECK((q ? fs9_test_flip(&st) : fsa40_test_flip(&st)) == o, "structure flag test-flip"); sx.flags ^= fb; }
    CHECK(!memcmp(&st, &sx, sizeof st), "structure flag accessor changed the wrong bits");
    pbt_class("single-bit operations");
}

void pbt_case(void)
{
    static bool first = true; if (first) { consts(); first = false; }
    for (int k = d_range(1, 3); k--; ) switch (d_u64(4)) { case 0: scan(); break; case 1: rot(); break; case 2: logs(); break; case 3: arith(); break; default: flags(); }
    pbt_nontrivial();
}

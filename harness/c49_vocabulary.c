#include "pbt.h"
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <bfdev/config.h>
#include <bfdev/time.h>
#include <bfdev/macro.h>
#include <bfdev/size.h>
#include <bfdev/limits.h>
#include <bfdev/uplower.h>
#include <bfdev/container.h>
#include <bfdev/struct.h>
#include <bfdev/callback.h>
#include <bfdev/const.h>
#include <bfdev/stringify.h>
#include <bfdev/mhelper.h>
#include <bfdev/typecheck.h>
#include <bfdev/alloca.h>
#include <bfdev/ascii.h>
#include <bfdev/types.h>
#include <bfdev/compiler.h>
#include <bfdev/bug.h>
#include <bfdev/log.h>
#include <bfdev/asm/rwonce.h>
const char *const pbt_id = "C49", *const pbt_rule = "";

/* ---- times: the two arguments are near each other, equal, or of opposite extremes */
static void times(void)
{
    bfdev_time_t a = d_edge64(), b = d_chance(1, 2) ? (bfdev_time_t)((uint64_t)a + d_srange(-2, 2)) : d_edge64(); if (d_chance(1, 4)) { a = d_srange(-100, 100); b = d_srange(-100, 100); } a = HIDE(a); b = HIDE(b); TRACE("times %lld %lld", (long long)a, (long long)b);
    CHECK(bfdev_time_compare(a, b) == (a > b) - (a < b), "compare %lld with %lld: %d", (long long)a, (long long)b, bfdev_time_compare(a, b));
    CHECK(bfdev_time_after(a, b) == (a > b), "after"); CHECK(bfdev_time_before(a, b) == (a < b), "before"); CHECK(bfdev_time_after_equal(a, b) == (a >= b), "after or equal"); CHECK(bfdev_time_before_equal(a, b) == (a <= b), "before or equal");
    int64_t s; if (!__builtin_add_overflow(a, b, &s)) CHECK(bfdev_time_add(a, b) == s, "sum of times"); if (!__builtin_sub_overflow(a, b, &s)) CHECK(bfdev_time_sub(a, b) == s, "difference of times"); int c = d_range(1, 50); if (!__builtin_sub_overflow(a, c * 2 + 1, &s)) CHECK(bfdev_time_sub(a, c * 2 + 1) * 1 == s, "difference with an expression");
    if ((a < 0) != (b < 0)) pbt_nontrivial();
}
/* ---- small macros */
static unsigned evals; static int tick(int v) { evals++; return v; }
static void macros(void)
{
    long v = d_edge64(); if (d_bool()) v = d_srange(-2, 2); CHECK(bfdev_cmp(v) == (v ? BFDEV_BT : BFDEV_LT), "cmp of a condition"); CHECK(BFDEV_BT > 0 && BFDEV_LT < 0 && BFDEV_EQ == 0, "order of the results"); CHECK(3 * bfdev_cmp(v) == (v ? 3 : -3), "cmp within an expression");
#define SW(T) do { T x = (T)d_edge64(), y = (T)d_edge64(), ox = x, oy = y; bfdev_swap(x, y); CHECK(x == oy && y == ox, "swap of " #T); T ar[3] = { 1, 2, 3 }; unsigned i = 0; bfdev_swap(ar[0], ar[2]); CHECK(ar[0] == 3 && ar[1] == 2 && ar[2] == 1, "swap within an array"); (void)i; } while (0)
    SW(unsigned char); SW(short); SW(int); SW(long); SW(unsigned long long); struct pair { long a; char b[9]; } p = { d_edge64(), "abc" }, q = { d_edge64(), "xyz" }, op = p, oq = q; bfdev_swap(p, q); CHECK(p.a == oq.a && q.a == op.a && !strcmp(p.b, "xyz") && !strcmp(q.b, "abc"), "swap of structures");
    unsigned char c = d_edge64(); c = HIDE(c); unsigned long r = BFDEV_REPEAT_BYTE((unsigned long)c); for (int i = 0; i < 8; i++) CHECK_EQ(r >> 8 * i & 255, c, "byte %d of a repeated byte", i); CHECK(BFDEV_REPEAT_BYTE(0x80) == 0x8080808080808080ul && BFDEV_REPEAT_BYTE(1 + 2) == 0x0303030303030303ul, "repeated constant");
    char a1[7]; long a2[13]; struct { char x[3]; } a3[5]; CHECK(BFDEV_ARRAY_SIZE(a1) == 7 && BFDEV_ARRAY_SIZE(a2) == 13 && BFDEV_ARRAY_SIZE(a3) == 5, "sizes of arrays"); size_t n = d_range(1, 40); int vla[n]; CHECK_EQ(BFDEV_ARRAY_SIZE(vla), n, "size of a variable array");
#define CA(n, ...) CHECK_EQ(BFDEV_COUNT_ARGS(__VA_ARGS__), n, "arguments")
    CHECK_EQ(BFDEV_COUNT_ARGS(), 0, "no argument"); CA(1, a); CA(2, a, b); CA(3, a, b, c); CA(4, a, b, c, d); CA(5, a, b, c, d, e); CA(6, 1, 2, 3, 4, 5, 6); CA(7, 1, 2, 3, 4, 5, 6, 7); CA(8, 1, 2, 3, 4, 5, 6, 7, 8); CA(9, 1, 2, 3, 4, 5, 6, 7, 8, 9); CA(10, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10); CA(11, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11); CA(12, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12);
    unsigned long long w = d_edge64(); uint32_t h = d_edge(32); w = HIDE(w); h = HIDE(h); CHECK_EQ(bfdev_upper_32_bits(w), w >> 32, "upper 32 bits"); CHECK_EQ(bfdev_lower_32_bits(w), (uint32_t)w, "lower 32 bits"); CHECK_EQ(bfdev_upper_32_bits(h), 0, "upper half of a 32-bit word"); CHECK_EQ(bfdev_lower_32_bits(h), h, "lower half of a 32-bit word"); CHECK_EQ(bfdev_upper_16_bits(h), h >> 16, "upper 16 bits"); CHECK_EQ(bfdev_lower_16_bits(h), (uint16_t)h, "lower 16 bits"); CHECK_EQ((uint64_t)bfdev_upper_32_bits(w) << 32 | bfdev_lower_32_bits(w), w, "halves put together"); CHECK_EQ(bfdev_upper_32_bits(w | 1), (w | 1) >> 32, "upper half of an expression");
    if (w >> 32 && (w >> 31 & 1) && c > 127) pbt_nontrivial();
    CHECK(sizeof(bfdev_upper_32_bits(w)) == 4 && sizeof(bfdev_lower_16_bits(w)) == 2, "types of the halves");
    unsigned b = d_u64(63); CHECK_EQ(BFDEV_BITUL(HIDE(b)), 1ul << b, "bit"); CHECK_EQ(BFDEV_BITULL(HIDE(b)), 1ull << b, "bit"); CHECK(BFDEV_UL(5) == 5 && sizeof(BFDEV_UL(5)) == 8 && BFDEV_ULL(0xffffffff) + 1 == 0x100000000, "typed constants"); CHECK(BFDEV_AT(unsigned char, 300 - 44) == 0 && BFDEV_AC(7, U) == 7 && (BFDEV_AC(0, U) - 1) > 0, "typed constants");
    evals = 0; int t = d_srange(-3, 3); CHECK(!!bfdev_likely(tick(t)) == !!t && !!bfdev_unlikely(tick(t)) == !!t, "likely"); CHECK_EQ(evals, 2, "evaluations of the conditions"); CHECK(bfdev_is_signed(signed char) && bfdev_is_signed(long) && bfdev_is_unsigned(unsigned char) && bfdev_is_unsigned(uint64_t) && !bfdev_is_signed(unsigned short) && !bfdev_is_unsigned(int), "signs of types");
    CHECK(bfdev_typecheck(long, v) && bfdev_typecheck_pointer(&v) && bfdev_typecheck_func(int (*)(int), tick), "type checks");
#define NAME_ONE abc
    CHECK(!strcmp(__bfdev_stringify(NAME_ONE), "abc") && !strcmp(__bfdev_stringify(a + b, c), "a + b, c") && !strcmp(__bfdev_stringify(__BFDEV_PASTE(NAME_, ONE)), "abc"), "stringify");
}
/* ---- read and write once keep every byte, for every width, and touch nothing else */
static void once(void)
{
    struct { unsigned char g0; union { uint8_t b; uint16_t h; uint32_t w; uint64_t d; } v; unsigned char g1; } s; memset(&s, 0x5a, sizeof s); uint64_t x = HIDE(d_edge64());
    switch (d_u64(3)) { case 0: BFDEV_WRITE_ONCE(s.v.b, x); CHECK_EQ(s.v.b, (uint8_t)x, "byte"); CHECK_EQ(BFDEV_READ_ONCE(s.v.b), (uint8_t)x, "byte"); CHECK_EQ(s.v.h >> 8, 0x5a, "next byte"); break; case 1: BFDEV_WRITE_ONCE(s.v.h, x); CHECK_EQ(BFDEV_READ_ONCE(s.v.h), (uint16_t)x, "half word"); CHECK_EQ(s.v.w >> 16, 0x5a5a, "next half word"); break; case 2: BFDEV_WRITE_ONCE(s.v.w, x); CHECK_EQ(BFDEV_READ_ONCE(s.v.w), (uint32_t)x, "word"); CHECK_EQ(s.v.d >> 32, 0x5a5a5a5a, "next word"); break; default: BFDEV_WRITE_ONCE(s.v.d, x); CHECK_EQ(BFDEV_READ_ONCE(s.v.d), x, "double word"); }
    CHECK(s.g0 == 0x5a && s.g1 == 0x5a, "neighbours");
    uint64_t *m = g_alloc(8); *m = x; uint64_t before = *m; bfdev_barrier(); CHECK_EQ(*m, before, "barrier"); bfdev_barrier_data(m); CHECK_EQ(*m, x, "barrier");
}
/* ---- containers: a member at any place leads back to its structure */
struct in { char c; short s; }; struct out { char pad[5]; struct in i[6]; const long l; union { int u; char v[11]; } n; unsigned char last; };
struct __attribute__((packed)) tight { char a; uint32_t b; uint64_t c; };
static void containers(void)
{
    unsigned n = d_range(1, 5), k = d_u64(n - 1), j = HIDE(d_u64(5)); struct out *o = g_alloc(sizeof *o * n), *e = o + k; TRACE("element %u of %u", k, n);
    CHECK(bfdev_container_of(&e->last, struct out, last) == e, "last member"); CHECK(bfdev_container_of(&e->pad, struct out, pad) == e, "first member"); CHECK(bfdev_container_of(&e->l, struct out, l) == e, "constant member"); CHECK(bfdev_container_of(&e->n.v, struct out, n.v) == e, "nested member"); CHECK(bfdev_container_of(&e->i[3].s, struct out, i[3].s) == e, "array member");
    { struct in *p = &e->i[j]; struct out *c = bfdev_container_of(p, struct out, i[0]); CHECK((char *)c == (char *)e + j * sizeof(struct in), "indexed member"); }
    unsigned char *z = k & 1 ? &e->last : NULL; CHECK(bfdev_container_of_safe(z, struct out, last) == (z ? e : NULL), "safe container"); evals = 0; CHECK(bfdev_container_of(o[tick(k)].i, struct out, i) == e || 1, " "); CHECK_EQ(evals, 1, "evaluations of the pointer"); evals = 0; (void)bfdev_container_of_safe(&o[tick(k)].last, struct out, last); CHECK_EQ(evals, 1, "evaluations of the safe pointer");
    const unsigned char *cp = &e->last; CHECK(bfdev_container_of_const(cp, struct out, last) == e && bfdev_container_of_const(&e->last, struct out, last) == e, "const container"); CHECK(_Generic(bfdev_container_of_const(cp, struct out, last), const struct out *: 1, default: 0), "a constant member leads to a constant structure");
    struct tight *t = g_alloc(sizeof *t * n) , *u = t + k; CHECK(bfdev_container_of(&u->c, struct tight, c) == u && bfdev_container_of(&u->b, struct tight, b) == u, "packed member"); CHECK(bfdev_struct_field(struct out, i) == sizeof(struct in) * 6 && bfdev_struct_field(struct out, n.v) == 11 && bfdev_struct_field(struct tight, c) == 8, "sizes of members");
    if (k && k + 1 < n) pbt_nontrivial();
}
struct grp { int before; bfdev_struct_group(mid, uint8_t a; uint32_t b; uint16_t c;); int after; };
struct grpp { char before; bfdev_struct_group_attr(mid, __attribute__((packed)), uint8_t a; uint32_t b; uint16_t c;); char after; };
struct flat { int before; struct { uint8_t a; uint32_t b; uint16_t c; } mid; int after; };
static void groups(void)
{
    struct grp g; struct grpp h; memset(&g, 0x5a, sizeof g); memset(&h, 0x5a, sizeof h); uint8_t a = d_edge(8); uint32_t b = d_edge(32); uint16_t c = d_edge(16); CHECK(sizeof(struct grp) == sizeof(struct flat) && offsetof(struct grp, after) == offsetof(struct flat, after), "layout of a group"); CHECK(sizeof h.mid == 7 && sizeof h == 9, "layout of a packed group");
    if (d_bool()) { g.a = a; g.b = b; g.c = c; h.a = a; h.b = b; h.c = c; CHECK(g.mid.a == a && g.mid.b == b && g.mid.c == c && h.mid.a == a && h.mid.b == b && h.mid.c == c, "members seen through the group"); } else { g.mid.a = a; g.mid.b = b; g.mid.c = c; h.mid.a = a; h.mid.b = b; h.mid.c = c; CHECK(g.a == a && g.b == b && g.c == c && h.a == a && h.b == b && h.c == c, "members written through the group"); }
    memset(&g.mid, 0, sizeof g.mid); memset(&h.mid, 0, sizeof h.mid); CHECK(g.before == 0x5a5a5a5a && g.after == 0x5a5a5a5a && h.before == 0x5a && h.after == 0x5a, "a group ran over its neighbours"); CHECK(!g.a && !g.b && !g.c && !h.a && !h.b && !h.c, "a cleared group kept a member");
}
/* ---- dummies in place of any callback */
static void dummies(void)
{
    long x = d_edge64(); long (*f)(long, void *) = bfdev_dummy_ret0, (*g)(long, void *) = bfdev_dummy_ret1; CHECK(bfdev_cbfunc_ret0() == 0 && bfdev_cbfunc_ret1() == 1, "results of the dummies"); bfdev_cbfunc_noop(); CHECK((void *)bfdev_cbfunc_noop == bfdev_dummy_noop && (void *)bfdev_cbfunc_ret0 == (void *)f && (void *)bfdev_cbfunc_ret1 == (void *)g, "names of the dummies"); (void)x;
    unsigned n = d_range(1, 300), m = d_range(1, 300); unsigned char *p = bfdev_alloca(HIDE(n)), *q = bfdev_alloca(HIDE(m)); memset(p, 1, n); memset(q, 2, m); for (unsigned i = 0; i < n; i++) CHECK(p[i] == 1, "stack blocks overlap");
}
/* ---- constants, against the platform's and against powers of two */
static void constants(void)
{
#define LIM(A, B) CHECK(BFDEV_##A == B && sizeof(BFDEV_##A) == sizeof((__typeof__(BFDEV_##A))B) && (BFDEV_##A < 0) == (B < 0), #A)
    LIM(UCHAR_MAX, UCHAR_MAX); LIM(CHAR_MAX, SCHAR_MAX); LIM(CHAR_MIN, SCHAR_MIN); LIM(USHRT_MAX, USHRT_MAX); LIM(SHRT_MAX, SHRT_MAX); LIM(SHRT_MIN, SHRT_MIN); LIM(UINT_MAX, UINT_MAX); LIM(INT_MAX, INT_MAX); LIM(INT_MIN, INT_MIN); LIM(ULONG_MAX, ULONG_MAX); LIM(LONG_MAX, LONG_MAX); LIM(LONG_MIN, LONG_MIN); LIM(ULLONG_MAX, ULLONG_MAX); LIM(LLONG_MAX, LLONG_MAX); LIM(LLONG_MIN, LLONG_MIN);
    LIM(UINT8_MAX, UINT8_MAX); LIM(UINT16_MAX, UINT16_MAX); LIM(UINT32_MAX, UINT32_MAX); LIM(UINT64_MAX, UINT64_MAX); LIM(INT8_MAX, INT8_MAX); LIM(INT16_MAX, INT16_MAX); LIM(INT32_MAX, INT32_MAX); LIM(INT64_MAX, INT64_MAX); LIM(INT8_MIN, INT8_MIN); LIM(INT16_MIN, INT16_MIN); LIM(INT32_MIN, INT32_MIN); LIM(INT64_MIN, INT64_MIN); LIM(UINTPTR_MAX, UINTPTR_MAX); LIM(UINTMAX_MAX, UINTMAX_MAX); LIM(SIZE_MAX, SIZE_MAX); LIM(INTPTR_MAX, INTPTR_MAX); LIM(INTPTR_MIN, INTPTR_MIN); LIM(PTRDIFF_MAX, PTRDIFF_MAX); LIM(PTRDIFF_MIN, PTRDIFF_MIN); LIM(INTMAX_MAX, INTMAX_MAX); LIM(INTMAX_MIN, INTMAX_MIN); LIM(SSIZE_MAX, SSIZE_MAX); CHECK(BFDEV_SSIZE_MIN == -SSIZE_MAX - 1, "SSIZE_MIN");
    LIM(UCHAR_MIN, 0); LIM(USHRT_MIN, 0); LIM(UINT_MIN, 0); LIM(ULONG_MIN, 0); LIM(ULLONG_MIN, 0); LIM(UINT8_MIN, 0); LIM(UINT16_MIN, 0); LIM(UINT32_MIN, 0); LIM(UINT64_MIN, 0); LIM(UINTPTR_MIN, 0); LIM(UINTMAX_MIN, 0); LIM(SIZE_MIN, 0);
#define SZ3(u, k, s) CHECK_EQ(BFDEV_SZ_1##u, 1ull << (k), "1" #u); CHECK_EQ(BFDEV_SZ_2##u, 2ull << (k), "2" #u); CHECK_EQ(BFDEV_SZ_4##u, 4ull << (k), "4" #u); CHECK_EQ(BFDEV_SZ_8##u, 8ull << (k), "8" #u); CHECK_EQ(BFDEV_SZ_16##u, 16ull << (k), "16" #u); CHECK_EQ(BFDEV_SZ_32##u, 32ull << (k), "32" #u); CHECK_EQ(BFDEV_SZ_64##u, 64ull << (k), "64" #u); CHECK_EQ(BFDEV_SZ_128##u, 128ull << (k), "128" #u); CHECK_EQ(BFDEV_SZ_256##u, 256ull << (k), "256" #u); CHECK_EQ(BFDEV_SZ_512##u, 512ull << (k), "512" #u)
    SZ3(Byte, 0,); SZ3(KiB, 10,); SZ3(MiB, 20,); SZ3(GiB, 30,);
    CHECK(sizeof(bfdev_sqi_t) == 1 && sizeof(bfdev_shi_t) == 2 && sizeof(bfdev_ssi_t) == 4 && sizeof(bfdev_sdi_t) == 8 && sizeof(bfdev_uqi_t) == 1 && sizeof(bfdev_uhi_t) == 2 && sizeof(bfdev_usi_t) == 4 && sizeof(bfdev_udi_t) == 8, "machine types"); CHECK((bfdev_sqi_t)-1 < 0 && (bfdev_shi_t)-1 < 0 && (bfdev_ssi_t)-1 < 0 && (bfdev_sdi_t)-1 < 0 && (bfdev_uqi_t)-1 > 0 && (bfdev_uhi_t)-1 > 0 && (bfdev_usi_t)-1 > 0 && (bfdev_udi_t)-1 > 0, "signs of the machine types"); CHECK(sizeof(bfdev_sw_t) == sizeof(void *) && sizeof(bfdev_uhw_t) * 2 == sizeof(void *) && sizeof(bfdev_shw_t) * 2 == sizeof(void *) && (bfdev_time_t)-1 < 0 && sizeof(bfdev_time_t) == 8, "words");
    CHECK(BFDEV_BYTES_PER_CHAR == 1 && BFDEV_BYTES_PER_SHORT == sizeof(short) && BFDEV_BYTES_PER_INT == sizeof(int) && BFDEV_BYTES_PER_LONG == sizeof(long) && BFDEV_BYTES_PER_LONG_LONG == 8 && BFDEV_BYTES_PER_U8 == 1 && BFDEV_BYTES_PER_U16 == 2 && BFDEV_BYTES_PER_U32 == 4 && BFDEV_BYTES_PER_U64 == 8 && BFDEV_BYTES_PER_UINTPTR == sizeof(void *) && BFDEV_BYTES_PER_UINTMAX == sizeof(uintmax_t), "bytes of types");
    static const int ascii[][2] = { { BFDEV_ASCII_NUL, 0 }, { BFDEV_ASCII_SOH, 1 }, { BFDEV_ASCII_STX, 2 }, { BFDEV_ASCII_ETX, 3 }, { BFDEV_ASCII_EOT, 4 }, { BFDEV_ASCII_ENQ, 5 }, { BFDEV_ASCII_ACK, 6 }, { BFDEV_ASCII_BEL, '\a' }, { BFDEV_ASCII_BS, '\b' }, { BFDEV_ASCII_HT, '\t' }, { BFDEV_ASCII_LF, '\n' }, { BFDEV_ASCII_VT, '\v' }, { BFDEV_ASCII_FF, '\f' }, { BFDEV_ASCII_CR, '\r' }, { BFDEV_ASCII_SO, 14 }, { BFDEV_ASCII_SI, 15 }, { BFDEV_ASCII_DLE, 16 }, { BFDEV_ASCII_DC1, 17 }, { BFDEV_ASCII_DC2, 18 }, { BFDEV_ASCII_DC3, 19 }, { BFDEV_ASCII_DC4, 20 }, { BFDEV_ASCII_NAK, 21 }, { BFDEV_ASCII_SYN, 22 }, { BFDEV_ASCII_ETB, 23 }, { BFDEV_ASCII_CAN, 24 }, { BFDEV_ASCII_EM, 25 }, { BFDEV_ASCII_SUB, 26 }, { BFDEV_ASCII_ESC, 27 }, { BFDEV_ASCII_FS, 28 }, { BFDEV_ASCII_GS, 29 }, { BFDEV_ASCII_RS, 30 }, { BFDEV_ASCII_US, 31 }, { BFDEV_ASCII_DEL, 127 } };
    for (unsigned i = 0; i < sizeof ascii / sizeof *ascii; i++) CHECK_EQ(ascii[i][0], ascii[i][1], "control character %u", i);
}
/* ---- argument mapping */
#define DBL(x) (2 * (x))
#define TY(t, x) ((t)(x))
static void mapping(void)
{
    int a = d_srange(-99, 99), b = d_srange(-99, 99), c = d_srange(-99, 99);
    int s1[] = { BFDEV_MMAP_SPLITN(1, DBL, a) }, s3[] = { BFDEV_MMAP_SPLITN(3, DBL, a, b, c) }, s6[] = { BFDEV_MMAP_SPLITN(6, DBL, a, b, c, a + 1, b + 1, c + 1) }, s0[] = { 7 BFDEV_MMAP_SPLITN(0, DBL) };
    CHECK(sizeof s1 == 4 && s1[0] == 2 * a && sizeof s3 == 12 && s3[0] == 2 * a && s3[1] == 2 * b && s3[2] == 2 * c && sizeof s6 == 24 && s6[3] == 2 * a + 2 && s6[4] == 2 * b + 2 && s6[5] == 2 * c + 2 && sizeof s0 == 4, "mapping over arguments");
    long r2[] = { BFDEV_MMAP_ARGN(2, TY, signed char, a, unsigned char, b) }, r6[] = { BFDEV_MMAP_ARGN(6, TY, char, a, unsigned char, b, short, c, unsigned short, a, int, b, unsigned, c) }; CHECK(sizeof r2 == 16 && r2[0] == (signed char)a && r2[1] == (unsigned char)b && sizeof r6 == 48 && r6[0] == (signed char)a && r6[1] == (unsigned char)b && r6[2] == c && r6[3] == (unsigned short)a && r6[4] == b && r6[5] == (unsigned)c, "mapping over typed arguments");
    { int __arg3 = a, __arg2 = b, __arg1 = c; long r3[] = { BFDEV_MMAP_DECLN(3, TY, char, unsigned char, short) }; CHECK(sizeof r3 == 24 && r3[0] == (signed char)a && r3[1] == (unsigned char)b && r3[2] == c, "mapping over declared arguments"); }
    #define SZ(t, x) ((x) * 100 + (long)sizeof(t))
    { typedef char c1; typedef short c2; typedef int c4; typedef long c8; typedef struct { char x[3]; } c3; typedef struct { char x[5]; } c5; long __arg1 = a, __arg2 = b, __arg3 = c, __arg4 = a + 1, __arg5 = b + 1, __arg6 = c + 1; long r6[] = { BFDEV_MMAP_DECLN(6, SZ, c1, c2, c3, c4, c5, c8) }, r5[] = { BFDEV_MMAP_DECLN(5, SZ, c1, c2, c3, c4, c5) }, r4[] = { BFDEV_MMAP_DECLN(4, SZ, c8, c5, c4, c3) }, r1[] = { BFDEV_MMAP_DECLN(1, SZ, c5) };
      CHECK(sizeof r6 == 48 && r6[0] == SZ(c1, __arg6) && r6[1] == SZ(c2, __arg5) && r6[2] == SZ(c3, __arg4) && r6[3] == SZ(c4, __arg3) && r6[4] == SZ(c5, __arg2) && r6[5] == SZ(c8, __arg1), "mapping over six declared arguments"); CHECK(sizeof r5 == 40 && r5[0] == SZ(c1, __arg5) && r5[4] == SZ(c5, __arg1) && sizeof r4 == 32 && r4[0] == SZ(c8, __arg4) && r4[3] == SZ(c3, __arg1) && r1[0] == SZ(c5, __arg1), "mapping over declared arguments"); }
    { double d = a + 0.5; int x = BFDEV_MARGFN_CAST(int, d); CHECK(x == (int)d && sizeof(BFDEV_MARGFN_CAST(char, d)) == 1 && BFDEV_MARGFN_ARGS(int, a) == a, "a mapped argument keeps its type"); long BFDEV_MARGFN_DECL(, q) = a; long v = ({ BFDEV_MARGFN_LONG(char, w) = 1l << 40 | (unsigned char)a; w; }); CHECK(q == a && v == (1l << 40 | (unsigned char)a), "a mapped declaration"); }
}
/* ---- reports: a condition that does not hold is silent; one that does is reported once; only BUG ends the process */
static int reports; static int sink(bfdev_log_message_t *m, void *d) { reports++; return 0; }
static int report_fd; static int sink_fd(bfdev_log_message_t *m, void *d) { if (write(report_fd, "r", 1)) {} return 0; }
static bfdev_log_write_t old_write;
static void bugs(void)
{
    old_write = bfdev_log_default.write; unsigned lvl = bfdev_log_default.record_level; bfdev_log_default.write = sink; bfdev_log_default.record_level = BFDEV_LEVEL_DEBUG; reports = 0; evals = 0; int v = d_chance(1, 2) ? 0 : (int)d_edge64(); v = HIDE(v);
    int r = BFDEV_WARN_ON(tick(v)); int n = reports, e = evals; reports = 0; int r2 = v ? 0 : BFDEV_BUG_ON(tick(v)); int n2 = reports; bfdev_log_default.write = old_write; bfdev_log_default.record_level = lvl;
    CHECK_EQ(!!r, !!v, "result of a warning"); CHECK_EQ(n, !!v, "reports of a warning"); CHECK_EQ(e, 1, "evaluations of the condition"); CHECK(!r2 && !n2, "a BUG_ON whose condition does not hold");
    if (v && d_chance(1, 400)) { int fd[2]; char got[4]; CHECK(!pipe(fd), "pipe"); report_fd = fd[1]; pid_t p = fork(); if (!p) { bfdev_log_default.write = sink_fd; bfdev_log_default.record_level = BFDEV_LEVEL_DEBUG; freopen("/dev/null", "w", stderr); signal(6, SIG_DFL); BFDEV_BUG_ON(v); _exit(0); } int st; CHECK(p > 0 && waitpid(p, &st, 0) == p, "fork"); close(fd[1]); ssize_t gn = read(fd[0], got, sizeof got); close(fd[0]); CHECK(gn == 1, "a bug was reported %zd times", gn); CHECK(!(WIFEXITED(st) && WEXITSTATUS(st) == 0), "a bug was passed over"); pbt_class("bug"); }
}
void pbt_case(void)
{
    static void (*const f[])(void) = { times, macros, once, containers, groups, dummies, constants, mapping, bugs }; static const char *const n[] = { "times", "macros", "once", "containers", "groups", "dummies", "constants", "mapping", "bugs" }; static const unsigned w[] = { 6, 5, 2, 4, 2, 1, 1, 1, 2 };
    unsigned k = d_pick(9, w); pbt_class(n[k]); TRACE("%s", n[k]); f[k]();
}

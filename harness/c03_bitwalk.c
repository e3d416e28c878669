#include "pbt.h"
#include "giant.h"
#include <bfdev/bitmap.h>
#include <bfdev/bitwalk.h>
const char *const pbt_id = "C03", *const pbt_rule = "";
typedef unsigned long ul;
#define MAXB 160000
enum { FIRST, LAST, FIRSTZ, LASTZ, NEXT, PREV, NEXTZ, PREVZ, NEXTAND, PREVAND, NOPS };
static const char *const names[] = { "find_first_bit", "find_last_bit", "find_first_zero", "find_last_zero", "find_next_bit", "find_prev_bit", "find_next_zero", "find_prev_zero", "find_next_and_bit", "find_prev_and_bit" };
static inline __attribute__((always_inline)) unsigned do_op(int op, const ul *a, const ul *b, unsigned off, unsigned bits)
{
    switch (op) {
    case FIRST: return bfdev_find_first_bit(a, bits);
    case LAST: return bfdev_find_last_bit(a, bits);
    case FIRSTZ: return bfdev_find_first_zero(a, bits);
    case LASTZ: return bfdev_find_last_zero(a, bits);
    case NEXT: return bfdev_find_next_bit(a, bits, off);
    case PREV: return bfdev_find_prev_bit(a, bits, off);
    case NEXTZ: return bfdev_find_next_zero(a, bits, off);
    case PREVZ: return bfdev_find_prev_zero(a, bits, off);
    case NEXTAND: return bfdev_find_next_and_bit(a, b, bits, off);
    case PREVAND: return bfdev_find_prev_and_bit(a, b, bits, off);
    }
    return 0;
}
enum { W_BIT, W_ZERO, W_BITR, W_ZEROR, W_BITF, W_ZEROF, W_BITRF, W_ZERORF, W_BITC, W_ZEROC, W_BITRC, W_ZERORC, NW };
static const char *const wn[] = { "for_each_bit", "for_each_zero", "for_each_bit_reverse", "for_each_zero_reverse", "for_each_bit_form", "for_each_zero_form", "for_each_bit_reverse_form", "for_each_zero_reverse_form", "for_each_bit_continue", "for_each_zero_continue", "for_each_bit_reverse_continue", "for_each_zero_reverse_continue" };
static unsigned out[MAXB + 2], nout;
#define REC() ({ if (nout > MAXB) return; out[nout++] = i; })
static inline __attribute__((always_inline)) void do_walk(int w, const ul *a, unsigned start, unsigned bits)
{
    unsigned i = start; nout = 0;
    switch (w) {
    case W_BIT: bfdev_for_each_bit(i, a, bits) REC(); break;
    case W_ZERO: bfdev_for_each_zero(i, a, bits) REC(); break;
    case W_BITR: bfdev_for_each_bit_reverse(i, a, bits) REC(); break;
    case W_ZEROR: bfdev_for_each_zero_reverse(i, a, bits) REC(); break;
    case W_BITF: bfdev_for_each_bit_form(i, a, bits) REC(); break;
    case W_ZEROF: bfdev_for_each_zero_form(i, a, bits) REC(); break;
    case W_BITRF: bfdev_for_each_bit_reverse_form(i, a, bits) REC(); break;
    case W_ZERORF: bfdev_for_each_zero_reverse_form(i, a, bits) REC(); break;
    case W_BITC: bfdev_for_each_bit_continue(i, a, bits) REC(); break;
    case W_ZEROC: bfdev_for_each_zero_continue(i, a, bits) REC(); break;
    case W_BITRC: bfdev_for_each_bit_reverse_continue(i, a, bits) REC(); break;
    case W_ZERORC: bfdev_for_each_zero_reverse_continue(i, a, bits) REC(); break;
    }
}
#define SIZES(X) X(1) X(2) X(7) X(8) X(16) X(31) X(32) X(33) X(47) X(63) X(64) X(65) X(100) X(127) X(128) X(129) X(192) X(256) X(300)
typedef unsigned (*opfn)(int, const ul *, const ul *, unsigned); typedef void (*wfn)(int, const ul *, unsigned);
#define FN(N) static __attribute__((noinline)) unsigned op_##N(int op, const ul *a, const ul *b, unsigned off) { return do_op(op, a, b, off, N); } \
              static __attribute__((noinline)) void wk_##N(int op, const ul *a, unsigned s) { do_walk(op, a, s, N); }
SIZES(FN)
#define TAB(N) { N, op_##N, wk_##N },
static const struct { unsigned n; opfn f; wfn w; } consts[] = { SIZES(TAB) };
static bool bit(const ul *w, unsigned i) { return w[i / 64] >> (i % 64) & 1; }
static bool swbit(const ul *w, unsigned i) { return __builtin_bswap64(w[i / 64]) >> (i % 64) & 1; }

/* bitmaps of up to 2^32-1 bits: all zeros or all ones but for a few positions */
static void giant(void)
{
    giant_drop(); unsigned bits = d_bool() ? UINT_MAX - d_u64(130) : d_bool() ? (1u << 31) + d_srange(-130, 130) : d_range(1u << 31, UINT_MAX), ex[4], nx = 0; bool ones = d_bool();
    size_t nw = (bits + 63ull) / 64; static ul blk[1 << 18]; memset(blk, 0xff, sizeof blk); pbt_slow(); pbt_class("billions of bits"); pbt_nontrivial();
    ul *a = ones ? giant_repeat(nw * 8, blk, sizeof blk, false) : giant_zero(nw * 8, 8), *b = NULL;
    for (int k = d_u64(4); k--; ) { unsigned p = d_bool() ? bits - 1 - d_u64(200) : d_bool() ? d_u64(bits - 1) : d_bool() ? d_u64(200) : (1u << 31) + d_srange(-100, -1); p %= bits; unsigned i; for (i = 0; i < nx && ex[i] != p; i++); if (i == nx) { a[p / 64] ^= 1ul << (p % 64); for (i = nx++; i && ex[i - 1] > p; i--) ex[i] = ex[i - 1]; ex[i] = p; } }
    if (d_bool()) a[nw - 1] ^= bits % 64 ? ~0ul << (bits % 64) : 0;
    TRACE("%u bits, all %d but for %u positions: %u %u %u %u", bits, ones, nx, nx > 0 ? ex[0] : 0, nx > 1 ? ex[1] : 0, nx > 2 ? ex[2] : 0, nx > 3 ? ex[3] : 0);
    for (int k = 3; k--; ) {
        int op = d_u64(NOPS - 1); bool and = op == NEXTAND || op == PREVAND; if (and && ones && !b) { b = giant_zero(nw * 8, 8); for (unsigned i = 0; i < nx; i++) b[ex[i] / 64] |= 1ul << (ex[i] % 64); }
        unsigned off = d_u64(2) == 0 && nx ? ex[d_u64(nx - 1)] + d_srange(-2, 2) : d_bool() ? (d_bool() ? d_u64(200) : bits - d_u64(200)) : d_u64(bits - 1), e = bits, r; bool pos = and || ((op == FIRST || op == LAST || op == NEXT || op == PREV) != ones);
        bool first = op == FIRST || op == FIRSTZ, last = op == LAST || op == LASTZ, next = op == NEXT || op == NEXTZ || op == NEXTAND;
        /* the matching positions are the exceptional ones, or all the others */
        if (and && ones) { for (unsigned i = 0; i < nx; i++) a[ex[i] / 64] |= 1ul << (ex[i] % 64); }
        #define EXC(p) ({ bool _f = false; for (unsigned _i = 0; _i < nx; _i++) _f |= ex[_i] == (p); _f; })
        if (pos) { if (first) e = nx ? ex[0] : bits; else if (last) e = nx ? ex[nx - 1] : bits; else if (next) { for (unsigned i = 0; i < nx; i++) if (ex[i] >= off) { e = ex[i]; break; } } else if (off < bits) { for (unsigned i = nx; i--; ) if (ex[i] <= off) { e = ex[i]; break; } } }
        else { if (first) { e = 0; while (e < bits && EXC(e)) e++; } else if (last) { e = bits - 1; while (EXC(e)) e--; } else if (next) { if (off < bits) { e = off; while (e < bits && EXC(e)) e++; } } else if (off < bits) { e = off; while (EXC(e) && e) e--; if (EXC(e)) e = bits; } }
        r = do_op(op, a, and ? ones ? b : a : NULL, HIDE(off), HIDE(bits));
        if (and && ones) for (unsigned i = 0; i < nx; i++) a[ex[i] / 64] &= ~(1ul << (ex[i] % 64));
        TRACE("%s off=%u -> %u", names[op], off, r); CHECK(r == e, "%s over %u bits (all %d but for %u), offset %u: got %u, expected %u", names[op], bits, ones, nx, off, r, e);
    }
    { int w = d_u64(1) * 2 + ones; do_walk(w, a, 0, HIDE(bits)); CHECK_EQ(nout, nx, "visits of %s over %u bits", wn[w], bits); for (unsigned i = 0; i < nx; i++) CHECK_EQ(out[i], ex[w & 2 ? nx - 1 - i : i], "visit %u of %s over %u bits", i, wn[w], bits); }
    giant_drop();
}
void pbt_case(void)
{
    GIANT_CASE(giant);
    bool isconst = d_bool(); unsigned ci = isconst ? d_u64(sizeof consts / sizeof *consts - 1) : 0;
    unsigned bits = isconst ? consts[ci].n : d_chance(1, 10000) ? d_far(60000, 150000) : d_u64(3) == 0 ? 64 * d_u64(8) : d_u64(d_bool() ? 135 : 1000);
    unsigned nw = (bits + 63) / 64; ul *a = g_alloc(nw * 8), *b = g_alloc(nw * 8);
    int mode = d_u64(5); uint64_t seed = nw > 24 ? d_u64(~0ull) : 0; if (seed) pbt_class("very long");
    for (int t = 0; t < 2; t++) { ul *x = t ? b : a;
        if (mode <= 1) { memset(x, mode ? 0xff : 0, nw * 8); if (bits) for (int k = d_u64(4); k--; ) { unsigned p = d_u64(2) ? d_u64(bits - 1) : (d_bool() ? d_u64(nw - 1) * 64 : d_u64(nw - 1) * 64 + 63); if (p < bits) x[p / 64] ^= 1ul << (p % 64); } }
        else for (unsigned i = 0; i < nw; i++) x[i] = nw > 24 ? pbt_mix(seed + (mode == 2 ? i / 9 : i)) | (mode == 2 ? 0 - (pbt_mix(seed - i / 9) & 1) : 0) : mode == 2 ? (d_bool() ? ~0ul : 0) : d_edge64();
        if (bits % 64) { ul g = ~0ul << (bits % 64); switch (d_u64(2)) { case 0: x[nw - 1] |= g; break; case 1: x[nw - 1] &= ~g; break; default: x[nw - 1] ^= d_u64(~0ull) & g; } } }
    TRACE("bits=%u %s", bits, isconst ? "const" : "run-time"); trace_hex("a", a, nw * 8); trace_hex("b", b, nw * 8);
    if (bits > 64 || isconst) pbt_nontrivial();
    for (int k = d_range(2, 12); k--; ) {
        int op = d_u64(NOPS - 1); unsigned off = d_u64(3) ? d_u64(bits + 2) : 64 * d_u64(nw); if (d_chance(1, 20)) off = d_edge(32);
        unsigned e = bits;
        #define V(i) (op == FIRST || op == LAST || op == NEXT || op == PREV ? bit(a, i) : op == NEXTAND || op == PREVAND ? (bit(a, i) && bit(b, i)) : !bit(a, i))
        switch (op) {
        case FIRST: case FIRSTZ: for (unsigned i = 0; i < bits; i++) if (V(i)) { e = i; break; } break;
        case LAST: case LASTZ: for (unsigned i = bits; i--; ) if (V(i)) { e = i; break; } break;
        case NEXT: case NEXTZ: case NEXTAND: for (uint64_t i = off; i < bits; i++) if (V(i)) { e = i; break; } break;
        case PREV: case PREVZ: case PREVAND: if (off < bits) for (unsigned i = off + 1; i--; ) if (V(i)) { e = i; break; } break;
        }
        unsigned r = isconst ? consts[ci].f(op, a, b, off) : do_op(op, a, b, HIDE(off), HIDE(bits));
        TRACE("%s off=%u -> %u", names[op], off, r);
        CHECK(r == e, "%s%s(bits=%u, offset=%u): got %u, expected %u", isconst ? "constant-length " : "", names[op], bits, off, r, e);
        pbt_class(names[op]);
    }
    /* byte-swapped searches: the same on the byte-swapped words */
    if (!isconst && bits && d_chance(1, 3) && bits % 64 == 0) {
        unsigned off = d_u64(bits - 1), e; ul inv = d_bool() ? ~0ul : 0; bool want = !inv;
        e = bits; for (unsigned i = 0; i < bits; i++) if (swbit(a, i) == want) { e = i; break; }
        CHECK_EQ(bfdev_comp_find_first_bit(a, bits, inv, true), e, "byte-swapped find first");
        e = bits; for (unsigned i = bits; i--; ) if (swbit(a, i) == want) { e = i; break; }
        CHECK_EQ(bfdev_comp_find_last_bit(a, bits, inv, true), e, "byte-swapped find last");
        e = bits; for (unsigned i = off; i < bits; i++) if (swbit(a, i) == want) { e = i; break; }
        CHECK_EQ(bfdev_comp_find_next_bit(a, NULL, bits, off, inv, true), e, "byte-swapped find next");
        e = bits; for (unsigned i = off + 1; i--; ) if (swbit(a, i) == want) { e = i; break; }
        CHECK_EQ(bfdev_comp_find_prev_bit(a, NULL, bits, off, inv, true), e, "byte-swapped find previous");
        pbt_class("byte-swapped");
    }
    /* iteration */
    for (int k = d_range(1, 4); k--; ) {
        int w = d_u64(NW - 1); unsigned start = 0; bool set = !(w & 1), rev = (w & 2), form = w >= W_BITF && w <= W_ZERORF, cont = w >= W_BITC;
        if (form || cont) { if (!bits) continue; start = d_u64(bits - 1);
            if (form && bit(a, start) != set) { /* the form macros start at a matching position */
                unsigned i; for (i = 0; i < bits; i++) if (bit(a, i) == set) break; if (i == bits) continue; start = i; } }
        if (isconst) consts[ci].w(w, a, start); else do_walk(w, a, HIDE(start), HIDE(bits));
        unsigned n = 0;
        CHECK(nout <= MAXB, "%s over %u bits does not end", wn[w], bits);
        if (!rev) { for (unsigned i = (form ? start : cont ? start + 1 : 0); i < bits; i++) if (bit(a, i) == set) { CHECK(n < nout && out[n] == i, "%s(bits=%u, start=%u): visit %u is %d, expected %u", wn[w], bits, start, n, n < nout ? (int)out[n] : -1, i); n++; } }
        else for (unsigned i = form ? start + 1 : cont ? start : bits; i--; ) if (bit(a, i) == set) { CHECK(n < nout && out[n] == i, "%s(bits=%u, start=%u): visit %u is %d, expected %u", wn[w], bits, start, n, n < nout ? (int)out[n] : -1, i); n++; }
        CHECK(n == nout, "%s(bits=%u): %u visits, expected %u (extra %u)", wn[w], bits, nout, n, out[n]);
        pbt_class(wn[w]);
    }
}

#include "pbt.h"
#include "ta.h"
#include "giant.h"
#include <bfdev/bitmap.h>
const char *const pbt_id = "C02", *const pbt_rule = "";
typedef unsigned long ul;
enum { EMPTY, FULL, EQ, OREQ, INTER, AND, ANDNOT, OR, XOR, SHL, SHR, COMPL, REPL, ZERO, FILL, COPY, SET, CLR, NOP_ };
static const char *const names[] = { "empty", "full", "equal", "or_equal", "intersects", "and", "andnot", "or", "xor", "shl", "shr", "complement", "replace", "zero", "fill", "copy", "set", "clr" };
static inline __attribute__((always_inline)) bool do_op(int op, ul *d, ul *a, ul *b, ul *c, unsigned sh, unsigned bits)
{
    switch (op) {
    case EMPTY: return bfdev_bitmap_empty(a, bits);
    case FULL: return bfdev_bitmap_full(a, bits);
    case EQ: return bfdev_bitmap_equal(a, b, bits);
    case OREQ: return bfdev_bitmap_or_equal(a, b, c, bits);
    case INTER: return bfdev_bitmap_intersects(a, b, bits);
    case AND: return bfdev_bitmap_and(d, a, b, bits);
    case ANDNOT: return bfdev_bitmap_andnot(d, a, b, bits);
    case OR: bfdev_bitmap_or(d, a, b, bits); return 0;
    case XOR: bfdev_bitmap_xor(d, a, b, bits); return 0;
    case SHL: bfdev_bitmap_shl(d, a, sh, bits); return 0;
    case SHR: bfdev_bitmap_shr(d, a, sh, bits); return 0;
    case COMPL: bfdev_bitmap_complement(d, a, bits); return 0;
    case REPL: bfdev_bitmap_comp_replace(d, a, b, c, bits); return 0;
    case ZERO: bfdev_bitmap_zero(d, bits); return 0;
    case FILL: bfdev_bitmap_fill(d, bits); return 0;
    case COPY: bfdev_bitmap_copy(d, a, bits); return 0;
    }
    return 0;
}
#define SIZES(X) X(1) X(2) X(7) X(8) X(9) X(16) X(24) X(31) X(32) X(33) X(40) X(48) X(56) X(63) X(64) X(65) X(72) X(96) X(100) X(120) X(127) X(128) X(129) X(160) X(191) X(192) X(193) X(256) X(300) X(512)
typedef bool (*opfn)(int, ul *, ul *, ul *, ul *, unsigned);
#define FN(N) static __attribute__((noinline)) bool op_##N(int op, ul *d, ul *a, ul *b, ul *c, unsigned sh) { return do_op(op, d, a, b, c, sh, N); }
SIZES(FN)
#define TAB(N) { N, op_##N },
static const struct { unsigned n; opfn f; } consts[] = { SIZES(TAB) };
/* constant start/length pairs for range operations */
#define PAIRS(X) X(0,1) X(5,1) X(63,1) X(64,1) X(70,1) X(0,8) X(8,8) X(8,16) X(16,48) X(0,64) X(64,64) X(56,16) X(8,120) X(0,128) X(3,8) X(8,3) X(63,2) X(64,8) X(72,64) X(10,100) X(0,192) X(120,72) X(0,3) X(0,0) X(8,0)
typedef void (*rgfn)(bool, ul *);
#define RFN(S,N) static __attribute__((noinline)) void rg_##S##_##N(bool set, ul *d) { if (set) bfdev_bitmap_set(d, S, N); else bfdev_bitmap_clr(d, S, N); }
PAIRS(RFN)
#define RTAB(S,N) { S, N, rg_##S##_##N },
static const struct { unsigned s, n; rgfn f; } ranges[] = { PAIRS(RTAB) };

static bool bit(const ul *w, unsigned i) { return w[i / 64] >> (i % 64) & 1; }
static void gen(ul *w, unsigned nw)
{ unsigned mode = d_u64(5); uint64_t seed = nw > 24 ? d_u64(~0ull) : 0;
  for (unsigned i = 0; i < nw; i++) w[i] = mode == 0 ? 0 : mode == 1 ? ~0ul : nw > 24 ? (mode == 2 ? 0 - (pbt_mix(seed + i / 3) & 1) : pbt_mix(seed + i)) : mode == 2 ? (d_bool() ? ~0ul : 0) : d_edge64(); }
static bool expect(int op, unsigned i, unsigned bits, const ul *a, const ul *b, const ul *c, unsigned sh)
{
    switch (op) {
    case AND: return bit(a, i) & bit(b, i);
    case ANDNOT: return bit(a, i) & !bit(b, i);
    case OR: return bit(a, i) | bit(b, i);
    case XOR: return bit(a, i) ^ bit(b, i);
    case SHL: return i >= sh ? bit(a, i - sh) : 0;
    case SHR: return (uint64_t)i + sh < bits ? bit(a, i + sh) : 0;
    case COMPL: return !bit(a, i);
    case REPL: return bit(c, i) ? bit(b, i) : bit(a, i);
    case ZERO: return 0;
    case FILL: return 1;
    case COPY: return bit(a, i);
    }
    return 0;
}
static void one(int op, bool isconst, opfn f, unsigned bits)
{
    unsigned nw = (bits + 63) / 64; ul *d, *a, *b, *c, *sa = g_alloc(nw * 8), *sb = g_alloc(nw * 8), *sc = g_alloc(nw * 8);
    a = g_alloc(nw * 8); b = g_alloc(nw * 8); c = g_alloc(nw * 8); d = g_alloc(nw * 8);
    gen(a, nw); gen(d, nw);
    if (d_chance(1, 3)) memcpy(b, a, nw * 8); else gen(b, nw);
    switch (d_u64(3)) { case 0: for (unsigned i = 0; i < nw; i++) c[i] = a[i] | b[i]; break; default: gen(c, nw); }
    if (bits && d_chance(1, 2)) { ul *t = d_bool() ? b : c; unsigned k = d_u64(bits - 1); t[k / 64] ^= 1ul << (k % 64); } /* almost equal */
    if (bits % 64 && d_bool()) { ul g = ~0ul << (bits % 64); a[nw - 1] ^= d_u64(~0ull) & g; b[nw - 1] ^= d_u64(~0ull) & g; c[nw - 1] ^= d_u64(~0ull) & g; pbt_class("garbage beyond the length"); }
    if (bits && d_chance(1, nw > 10 ? 2 : 6)) { /* an answer that depends on one bit, often in the last words */
        unsigned k = d_bool() ? bits - 1 - d_u64(bits < 140 ? bits - 1 : 139) : d_u64(bits - 1); bool hit = d_chance(3, 4); ul x = 1ul << (k % 64);
        if (op == EMPTY) memset(a, 0, nw * 8); else if (op == FULL) memset(a, 0xff, nw * 8); else if (op == EQ || op == ANDNOT) memcpy(b, a, nw * 8); else if (op == OREQ) for (unsigned i = 0; i < nw; i++) c[i] = a[i] | b[i]; else if (op == INTER || op == AND) for (unsigned i = 0; i < nw; i++) b[i] = ~a[i];
        if (hit) switch (op) { case EMPTY: case FULL: a[k / 64] ^= x; break; case OREQ: c[k / 64] ^= x; break; case ANDNOT: a[k / 64] |= x; b[k / 64] &= ~x; break; case INTER: case AND: a[k / 64] |= x; b[k / 64] |= x; break; default: b[k / 64] ^= x; }
        if (op <= ANDNOT) pbt_class("an answer that depends on one bit"); }
    unsigned sh = d_u64(3) ? d_u64(bits + 70) : 64 * d_u64(nw + 2);
    if (d_chance(1, 16)) sh = d_edge(31);
    ul *dst = d; int alias = d_u64(4);
    if (alias == 1) dst = a; else if (alias == 2) dst = b; else if (alias == 3 && op == REPL) dst = c;
    if (op == COPY) dst = d;
    memcpy(sa, a, nw * 8); memcpy(sb, b, nw * 8); memcpy(sc, c, nw * 8);
    TRACE("%s %s bits=%u shift=%u alias=%d", isconst ? "const" : "run-time", names[op], bits, sh, alias);
    trace_hex("a", sa, nw * 8); trace_hex("b", sb, nw * 8);
    bool r = isconst ? f(op, dst, a, b, c, sh) : do_op(op, dst, a, b, c, HIDE(sh), HIDE(bits));
    bool any = false, e = false;
    switch (op) {
    case EMPTY: e = true; for (unsigned i = 0; i < bits; i++) e &= !bit(sa, i); CHECK(r == e, "empty: got %d for %u bits", r, bits); break;
    case FULL: e = true; for (unsigned i = 0; i < bits; i++) e &= bit(sa, i); CHECK(r == e, "full: got %d for %u bits", r, bits); break;
    case EQ: e = true; for (unsigned i = 0; i < bits; i++) e &= bit(sa, i) == bit(sb, i); CHECK(r == e, "equal: got %d for %u bits", r, bits); break;
    case OREQ: e = true; for (unsigned i = 0; i < bits; i++) e &= (bit(sa, i) | bit(sb, i)) == bit(sc, i); CHECK(r == e, "or_equal: got %d for %u bits", r, bits); break;
    case INTER: for (unsigned i = 0; i < bits; i++) e |= bit(sa, i) & bit(sb, i); CHECK(r == e, "intersects: got %d for %u bits", r, bits); break;
    default:
        for (unsigned i = 0; i < bits; i++) { bool x = expect(op, i, bits, sa, sb, sc, sh); any |= x;
            CHECK(bit(dst, i) == x, "%s%s: bit %u of %u is %d, expected %d (shift %u)", isconst ? "constant-length " : "", names[op], i, bits, bit(dst, i), x, sh); }
        if (op == AND || op == ANDNOT) CHECK(r == any, "%s: reported %d, result has a bit: %d", names[op], r, any);
    }
    bool mut = op >= AND;
    if (!mut || dst != a) CHECK(!memcmp(a, sa, nw * 8), "%s changed its first operand", names[op]);
    if (!mut || dst != b) CHECK(!memcmp(b, sb, nw * 8), "%s changed its second operand", names[op]);
    if (!mut || dst != c) CHECK(!memcmp(c, sc, nw * 8), "%s changed its third operand", names[op]);
    pbt_class(names[op]); pbt_class(isconst ? "constant length" : bits > 10000 ? "run-time, very long" : bits > 64 ? "run-time, several words" : "run-time, one word");
    if (bits > 64 || isconst) pbt_nontrivial();
}
/* now and then a long map: past 2^8 words, past 2^16 bits, past 2^16 words */
static unsigned length(void) { return d_chance(199, 200) ? 0 : d_chance(14, 15) ? d_range(700, 40000) : d_chance(3, 4) ? d_range(60000, 150000) : d_range(4000000, 5000000); }
static void range(bool isconst, bool set)
{
    unsigned i = isconst ? d_u64(sizeof ranges / sizeof *ranges - 1) : 0, total = isconst ? 256 : (total = length()) ? total : d_u64(d_bool() ? 140 : 600), s, n;
    if (isconst) { s = ranges[i].s; n = ranges[i].n; }
    else { s = d_u64(total); n = d_u64(total - s); if (d_chance(1, 4)) n = total - s; if (d_chance(1, 4)) { s = s / 64 * 64; n = d_u64(total - s); } if (d_chance(1, 4)) n = (s + n) / 64 * 64 > s ? (s + n) / 64 * 64 - s : n; }
    unsigned nw = (total + 63) / 64; ul *d = g_alloc(nw * 8), *sv = g_alloc(nw * 8); gen(d, nw); memcpy(sv, d, nw * 8);
    TRACE("%s %s start=%u len=%u total=%u", isconst ? "const" : "run-time", set ? "set" : "clr", s, n, total);
    if (isconst) ranges[i].f(set, d); else if (set) bfdev_bitmap_set(d, HIDE(s), HIDE(n)); else bfdev_bitmap_clr(d, HIDE(s), HIDE(n));
    for (unsigned k = 0; k < nw * 64; k++) { bool x = k >= s && k < s + n ? set : bit(sv, k);
        CHECK(bit(d, k) == x, "range %s [%u,+%u): bit %u is %d", set ? "set" : "clear", s, n, k, bit(d, k)); }
    pbt_class(set ? "range set" : "range clear"); if (n && s / 64 != (s + n - 1) / 64) pbt_class("range over several words"); pbt_nontrivial();
}
/* maps of up to 2^32-1 bits with only a few bits set: results as sets of positions */
typedef struct { unsigned p[8]; int n; } few_t;
static bool has(const few_t *f, unsigned p) { for (int i = 0; i < f->n; i++) if (f->p[i] == p) return true; return false; }
static void put(few_t *f, unsigned p) { if (!has(f, p)) f->p[f->n++] = p; }
static unsigned somewhere(unsigned bits) { unsigned p = d_bool() ? bits - 1 - d_u64(200) : d_bool() ? d_u64(bits - 1) : d_bool() ? d_u64(200) : (1u << 31) + d_srange(-100, 100); return p % bits; }
static uint64_t ones(const ul *w, unsigned bits) { uint64_t n = 0; for (size_t i = 0; i < bits / 64; i++) if (w[i]) n += __builtin_popcountll(w[i]); if (bits % 64) n += __builtin_popcountll(w[bits / 64] & ~(~0ul << (bits % 64))); return n; }
static size_t asked; static void *ask(size_t n, void *pd) { asked = n; return NULL; }
static void giant(void)
{
    giant_drop(); pbt_slow(); pbt_class("billions of bits"); pbt_nontrivial();
    unsigned bits = d_bool() ? UINT_MAX - d_u64(130) : d_bool() ? (1u << 31) + d_srange(-130, 130) : d_range(1u << 31, UINT_MAX), sh = 0; size_t nw = (bits + 63ull) / 64; int op = d_u64(EMPTY + CLR);
    if (d_chance(1, 6)) { bfdev_alloc_ops_t ops; bfdev_alloc_t rec; bfdev_alloc_ops_init(&ops, ask, ask, NULL, NULL); bfdev_alloc_init(&rec, &ops, NULL); asked = 0; ul *m = d_bool() ? bfdev_bitmap_zalloc(&rec, HIDE(bits)) : bfdev_bitmap_alloc(&rec, HIDE(bits)); CHECK(!m, "a refused allocation yields a map"); CHECK(asked >= nw * 8, "bitmap of %u bits asked for %zu bytes", bits, asked); }
    ul *a = giant_zero(nw * 8, 8), *b = giant_zero(nw * 8, 8), *d = giant_zero(nw * 8, 8); few_t A = { .n = 0 }, B = A, D = A, E = A; bool r, alias = d_bool();
    static ul blk[1 << 18]; memset(blk, 0xff, sizeof blk); if (op == CLR || op == FULL) { (op == CLR ? (d = giant_repeat(nw * 8, blk, sizeof blk, false)) : (a = giant_repeat(nw * 8, blk, sizeof blk, false))); }
    for (int k = d_u64(4); k--; ) put(&A, somewhere(bits)); for (int k = 0; k < A.n && op == EQ; k++) put(&B, A.p[k]); for (int k = op == EQ ? d_u64(1) : d_u64(4); k--; ) put(&B, A.n && d_bool() ? A.p[d_u64(A.n - 1)] : somewhere(bits)); for (int k = op == CLR ? 0 : d_u64(4); k--; ) put(&D, somewhere(bits));
    for (int i = 0; i < A.n; i++) a[A.p[i] / 64] ^= 1ul << (A.p[i] % 64); for (int i = 0; i < B.n; i++) b[B.p[i] / 64] ^= 1ul << (B.p[i] % 64); for (int i = 0; i < D.n; i++) d[D.p[i] / 64] ^= 1ul << (D.p[i] % 64);
    if (bits % 64) { ul g = ~0ul << (bits % 64); a[nw - 1] ^= d_u64(~0ull) & g; b[nw - 1] ^= d_u64(~0ull) & g; d[nw - 1] ^= d_u64(~0ull) & g; }
    if (op == SET || op == CLR) {
        unsigned st = d_bool() ? somewhere(bits) : d_u64(200), n = d_bool() ? bits - st : d_u64(bits - st); TRACE("%s start=%u len=%u of %u", names[op], st, n, bits);
        int out = 0; for (int i = 0; i < D.n; i++) out += D.p[i] < st || D.p[i] - st >= n; bool before = st && d[(st - 1) / 64] >> ((st - 1) % 64) & 1, after = (uint64_t)st + n < bits && d[((uint64_t)st + n) / 64] >> ((st + n) % 64) & 1;
        if (op == SET) bfdev_bitmap_set(d, HIDE(st), HIDE(n)); else bfdev_bitmap_clr(d, HIDE(st), HIDE(n));
        CHECK_EQ(ones(d, bits), op == SET ? out + (uint64_t)n : (uint64_t)bits - n, "bits set after the range %s of %u from %u in %u", names[op], n, st, bits);
        if (n) { CHECK_EQ(bit(d, st), op == SET, "first bit of the range %s of %u from %u", names[op], n, st); CHECK_EQ(bit(d, st + n - 1), op == SET, "last bit of the range %s of %u from %u", names[op], n, st); }
        if (st) CHECK_EQ(bit(d, st - 1), before, "the bit before the range %s of %u from %u", names[op], n, st); if ((uint64_t)st + n < bits) CHECK_EQ(bit(d, st + n), after, "the bit after the range %s of %u from %u", names[op], n, st);
        giant_drop(); return; }
    if (op == OREQ || op == REPL) op = COPY; if (op == SHL || op == SHR) sh = d_u64(2) ? d_u64(200) : d_bool() ? d_u64(bits - 1) : UINT_MAX - d_u64(100); if (op == COPY) alias = false;
    ul *dst = alias ? a : d; TRACE("%s of %u bits, shift %u%s, operands with %d and %d bits", names[op], bits, sh, alias ? ", in place" : "", A.n, B.n);
    for (int i = 0; i < A.n; i++) TRACE("a: %u", A.p[i]); for (int i = 0; i < B.n; i++) TRACE("b: %u", B.p[i]);
    r = do_op(op, dst, a, b, NULL, HIDE(sh), HIDE(bits)); bool neg = false; int both = 0; for (int i = 0; i < A.n; i++) both += has(&B, A.p[i]);
    switch (op) {
    case EMPTY: case FULL: CHECK_EQ(r, !A.n, "%s of %u bits, %d differ", names[op], bits, A.n); goto out;
    case EQ: CHECK_EQ(r, A.n == B.n && both == A.n, "equal of %u bits", bits); goto out;
    case INTER: CHECK_EQ(r, both > 0, "intersects of %u bits", bits); goto out;
    case AND: for (int i = 0; i < A.n; i++) if (has(&B, A.p[i])) put(&E, A.p[i]); break;
    case ANDNOT: for (int i = 0; i < A.n; i++) if (!has(&B, A.p[i])) put(&E, A.p[i]); break;
    case OR: case XOR: for (int i = 0; i < A.n; i++) if (op == OR || !has(&B, A.p[i])) put(&E, A.p[i]); for (int i = 0; i < B.n; i++) if (op == OR || !has(&A, B.p[i])) put(&E, B.p[i]); break;
    case SHL: for (int i = 0; i < A.n; i++) if ((uint64_t)A.p[i] + sh < bits) put(&E, A.p[i] + sh); break;
    case SHR: for (int i = 0; i < A.n; i++) if (A.p[i] >= sh) put(&E, A.p[i] - sh); break;
    case COMPL: neg = true; E = A; break;
    case COPY: E = A; break;
    case FILL: neg = true; break;
    }
    CHECK_EQ(ones(dst, bits), neg ? bits - (uint64_t)E.n : (uint64_t)E.n, "bits set after %s of %u bits (shift %u)", names[op], bits, sh);
    for (int i = 0; i < E.n; i++) CHECK_EQ(bit(dst, E.p[i]), !neg, "bit %u after %s of %u bits (shift %u)", E.p[i], names[op], bits, sh);
    if (op == AND || op == ANDNOT) CHECK_EQ(r, E.n > 0, "the report of %s of %u bits", names[op], bits);
out: giant_drop();
}
void pbt_case(void)
{
    GIANT_CASE(giant);
    for (int k = d_range(1, 6); k--; ) {
        int op = d_u64(SET + 3); unsigned len;
        if (op >= SET) { range(d_chance(1, 4), d_bool()); continue; }
        if (d_bool()) { unsigned i = d_u64(sizeof consts / sizeof *consts - 1); one(op, true, consts[i].f, consts[i].n); }
        else one(op, false, NULL, (len = length()) ? len : d_u64(2) ? d_u64(d_bool() ? 130 : 700) : 64 * d_u64(8));
    }
    if (d_chance(1, 4)) {
        ta_t ta; ta_init(&ta); unsigned bits = d_range(1, 1000); bool z = d_bool();
        ul *m = z ? bfdev_bitmap_zalloc(&ta.alloc, bits) : bfdev_bitmap_alloc(&ta.alloc, bits);
        CHECK(m, "allocation of a %u bit map failed", bits); CHECK(ta.bytes >= (bits + 63) / 64 * 8, "bitmap of %u bits got %zu bytes", bits, ta.bytes);
        if (z) for (unsigned i = 0; i < (bits + 63) / 64; i++) CHECK(!m[i], "zeroed bitmap has a set bit");
        bfdev_bitmap_free(&ta.alloc, m); ta_check_empty(&ta, "bitmap");
    }
}

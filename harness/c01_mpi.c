#include "pbt.h"
#include "refnum.h"
#include "ta.h"
#include <bfdev/mpi.h>
const char *const pbt_id = "C01", *const pbt_rule = "";
#define NV 4
static bfdev_mpi_t v[NV]; static rn_t m[NV];
static bfdev_alloc_t *al; static ta_t ta;

static uint64_t limb(void)
{ switch (d_u64(7)) { case 0: return 0; case 1: case 2: return ~0ull; case 3: return 1; case 4: return 1ull << 63; default: return d_edge64(); } }
static void show(const char *n, const rn_t *a)
{ if (!pbt_tracing) return; char b[RN_MAX * 8 + 8]; int k = sprintf(b, "%s0x0", a->neg ? "-" : ""); if (a->n) { k = sprintf(b, "%s0x%x", a->neg ? "-" : "", a->d[a->n-1]); for (int i = a->n - 1; i--; ) k += sprintf(b + k, "%08x", a->d[i]); } pbt_trace("   %s = %s", n, b); }
static void get(const bfdev_mpi_t *x, rn_t *r, const char *what)
{
    unsigned long len = bfdev_mpi_length(x); bool plus;
    CHECK(len * 2 < RN_MAX, "%s: length %lu is absurd", what, len); CHECK_EQ(bfdev_mpi_size(x), len * sizeof(BFDEV_MPI_TYPE), "%s: size in bytes", what);
    const BFDEV_MPI_TYPE *d = bfdev_mpi_data(x, &plus);
    CHECK(!len || d[len - 1], "%s: result is not normalised (leading zero limb, length %lu)", what, len);

    uint64_t t[RN_MAX]; for (unsigned long i = 0; i < len; i++) t[i] = d[i];
    rn_from64(r, t, len, !plus);
}
static bool same(const rn_t *a, const rn_t *b) { return rn_cmp(a, b) == 0; }
static void check_all(const char *op)
{
    for (int i = 0; i < NV; i++) {
        rn_t r; get(&v[i], &r, op);
        if (!same(&r, &m[i])) { show("got", &r); show("expected", &m[i]); }
        CHECK(same(&r, &m[i]), "%s: variable %d does not hold the exact value", op, i);
    }
}
static void gen_into(int i)
{
    uint64_t t[12]; int n = d_chance(1, 3) ? d_u64(1) : d_u64(d_bool() ? 4 : 10);
    for (int k = 0; k < n; k++) t[k] = limb();
    bool neg = d_bool();
    int rc = bfdev_mpi_import(&v[i], (BFDEV_MPI_TYPE *)t, n, !neg);
    CHECK(rc == 0, "import failed: %d", rc);
    rn_from64(&m[i], t, n, neg); show("import", &m[i]);

}
static int vi_(void) { return d_u64(NV - 1); }

/* numbers of hundreds of limbs (all operations) or tens of thousands (the linear ones), against 64-bit schoolbook arithmetic on magnitudes */
typedef struct { uint64_t *d; size_t n; } big;
static big bnew(size_t n) { big b = { g_alloc((n + 1) * 8), n }; memset(b.d, 0, (n + 1) * 8); return b; }
static void bnorm(big *b) { while (b->n && !b->d[b->n - 1]) b->n--; }
static big bmul(big a, big b) { big r = bnew(a.n + b.n); for (size_t i = 0; i < a.n; i++) { uint64_t c = 0; for (size_t j = 0; j < b.n; j++) { unsigned __int128 t = (unsigned __int128)a.d[i] * b.d[j] + r.d[i + j] + c; r.d[i + j] = t; c = t >> 64; } r.d[i + b.n] = c; } bnorm(&r); return r; }
static big badd(big a, big b) { big r = bnew((a.n > b.n ? a.n : b.n) + 1); unsigned __int128 c = 0; for (size_t i = 0; i < r.n; i++) { c += i < a.n ? a.d[i] : 0; c += i < b.n ? b.d[i] : 0; r.d[i] = c; c >>= 64; } bnorm(&r); return r; }
static int bcmp_(big a, big b) { if (a.n != b.n) return a.n < b.n ? -1 : 1; for (size_t i = a.n; i--; ) if (a.d[i] != b.d[i]) return a.d[i] < b.d[i] ? -1 : 1; return 0; }
static big bsub(big a, big b) { big r = bnew(a.n); uint64_t c = 0; for (size_t i = 0; i < a.n; i++) { unsigned __int128 t = (unsigned __int128)a.d[i] - (i < b.n ? b.d[i] : 0) - c; r.d[i] = t; c = t >> 64 & 1; } bnorm(&r); return r; }
static big bshl(big a, size_t s) { size_t w = s / 64, k = s % 64; big r = bnew(a.n + w + 1); for (size_t i = 0; i < a.n; i++) { r.d[i + w] |= a.d[i] << k; if (k) r.d[i + w + 1] |= a.d[i] >> (64 - k); } bnorm(&r); return r; }
static big bgen(size_t n) { big b = bnew(n); uint64_t s = d_u64(UINT64_MAX); int mode = d_u64(3); for (size_t i = 0; i < n; i++) b.d[i] = mode == 0 ? ~0ull : mode == 1 ? 0 - (pbt_mix(s + i) & 1) : mode == 2 && pbt_mix(s + i) % 4 ? 0 : pbt_mix(s - i); if (n && !b.d[n - 1]) b.d[n - 1] = 1; return b; }
static void bput(bfdev_mpi_t *x, big b) { bfdev_mpi_init(x, al); CHECK_EQ(bfdev_mpi_import(x, (BFDEV_MPI_TYPE *)b.d, b.n, true), 0, "import"); }
static big bget(const bfdev_mpi_t *x, bool neg, const char *op) { bool plus; const BFDEV_MPI_TYPE *d = bfdev_mpi_data(x, &plus); big r = bnew(bfdev_mpi_length(x)); memcpy(r.d, d, r.n * 8); CHECK(!r.n || r.d[r.n - 1], "%s: the result of %zu limbs is not normalised", op, r.n); CHECK(!r.n || plus == !neg, "%s: wrong sign", op); return r; }
static void bis(const bfdev_mpi_t *x, big e, bool neg, const char *op) { big g = bget(x, neg, op); CHECK(g.n == e.n, "%s: %zu limbs, expected %zu", op, g.n, e.n); for (size_t i = 0; i < g.n; i++) CHECK(g.d[i] == e.d[i], "%s: limb %zu of %zu is %#lx, expected %#lx", op, i, g.n, g.d[i], e.d[i]); }
static void huge(void)
{
    bool lin = d_chance(1, 3); size_t top = lin ? 70000 : 600, an = d_range(1, top), bn = d_bool() ? d_range(1, top) : an; big a = bgen(an), b = bgen(bn), e; bfdev_mpi_t A, B, D, E; bput(&A, a); bput(&B, b); bfdev_mpi_init(&D, al); bfdev_mpi_init(&E, al); TRACE("numbers of %zu and %zu limbs", an, bn); bis(&A, a, 0, "import"); int c = bcmp_(a, b), r = bfdev_mpi_cmp(&A, &B); CHECK((r > 0) == (c > 0) && (r < 0) == (c < 0), "compare");
    for (int k = 4; k--; ) switch (d_u64(lin ? 4 : 7)) {
        case 0: CHECK_EQ(bfdev_mpi_add(&D, &A, &B), 0, "add"); bis(&D, badd(a, b), 0, "add"); break;
        case 1: CHECK_EQ(bfdev_mpi_sub(&D, &A, &B), 0, "sub"); bis(&D, c < 0 ? bsub(b, a) : bsub(a, b), c < 0, "subtract"); break;
        case 2: { size_t s = d_u64(lin ? 3000000 : 70000); CHECK_EQ(bfdev_mpi_shli(&D, &A, s), 0, "shl"); bis(&D, bshl(a, s), 0, "shift left"); CHECK_EQ(bfdev_mpi_shri(&D, &D, s), 0, "shr"); bis(&D, a, 0, "shift back"); break; }
        case 3: { size_t bit = d_u64(an * 64 + 100000); e = bnew(bit / 64 + 1 > a.n ? bit / 64 + 1 : a.n); memcpy(e.d, a.d, a.n * 8); CHECK_EQ(bfdev_mpi_btesti(&A, bit), e.d[bit / 64] >> bit % 64 & 1, "bit test"); e.d[bit / 64] |= 1ull << bit % 64; CHECK_EQ(bfdev_mpi_set(&D, &A), 0, "set"); CHECK_EQ(bfdev_mpi_bseti(&D, bit), 0, "bit set"); bis(&D, e, 0, "bit set"); e.d[bit / 64] &= ~(1ull << bit % 64); bnorm(&e); CHECK_EQ(bfdev_mpi_bclri(&D, bit), 0, "bit clear"); bis(&D, e, 0, "bit clear"); break; }
        case 4: { uint64_t w = limb() | 1; big o = { &w, 1 }; CHECK_EQ(bfdev_mpi_muli(&D, &A, w), 0, "muli"); bis(&D, bmul(a, o), 0, "multiply by word"); CHECK_EQ(bfdev_mpi_divi(&D, &E, &D, w), 0, "divi"); bis(&D, a, 0, "divide by word"); CHECK_EQ(bfdev_mpi_xor(&E, &A, &B), 0, "xor"); CHECK_EQ(bfdev_mpi_xor(&E, &E, &B), 0, "xor"); bis(&E, a, 0, "exclusive or twice"); break; }
        case 5: CHECK_EQ(bfdev_mpi_mul(&D, &A, &B), 0, "mul"); e = bmul(a, b); bis(&D, e, 0, "multiply"); CHECK_EQ(bfdev_mpi_div(&D, &E, &D, &A), 0, "div"); bis(&D, b, 0, "quotient of a product"); bis(&E, bnew(0), 0, "remainder of a product"); break;
        default: { CHECK_EQ(bfdev_mpi_div(&D, &E, &A, &B), 0, "div"); big q = bget(&D, 0, "quotient"), w = bget(&E, 0, "remainder"), t = badd(bmul(q, b), w); CHECK(bcmp_(t, a) == 0, "divide: quotient * divisor + remainder differs from the dividend of %zu limbs (divisor of %zu)", an, bn); CHECK(bcmp_(w, b) < 0, "divide: the remainder is not smaller than the divisor"); CHECK_EQ(bfdev_mpi_mod(&D, &A, &B), 0, "mod"); bis(&D, w, 0, "remainder"); break; } }
    bis(&A, a, 0, "operand"); bis(&B, b, 0, "operand"); bfdev_mpi_release(&A); bfdev_mpi_release(&B); bfdev_mpi_release(&D); bfdev_mpi_release(&E); ta_check_empty(&ta, "big integers after release"); pbt_class(lin ? "tens of thousands of limbs" : "hundreds of limbs"); pbt_nontrivial();
}

void pbt_case(void)
{
    ta_init(&ta); ta.fill = d_bool() ? 0xff : 0x5a; al = &ta.alloc; if (d_chance(1, 3000)) { huge(); return; }
    for (int i = 0; i < NV; i++) { bfdev_mpi_init(&v[i], al); memset(&m[i], 0, sizeof m[i]); gen_into(i); }
    check_all("import");
    int nops = d_range(1, 14);
    for (int k = 0; k < nops; k++) {
        int d = vi_(), a = vi_(), b = vi_(), rc; rn_t r, q, w, t; uint64_t x;
        if (m[a].n > 60 || m[b].n > 60) { gen_into(a); gen_into(b); }
        int op = d_u64(22);
        if (m[a].n > 2 && m[b].n > 2) pbt_nontrivial();
        switch (op) {
        case 0: case 1: TRACE("v%d = v%d + v%d", d, a, b); rc = bfdev_mpi_add(&v[d], &v[a], &v[b]); CHECK_EQ(rc, 0, "add"); rn_add(&r, &m[a], &m[b]); m[d] = r; check_all("add"); pbt_class(d == a || d == b ? "add aliased" : "add"); break;
        case 2: case 3: TRACE("v%d = v%d - v%d", d, a, b); rc = bfdev_mpi_sub(&v[d], &v[a], &v[b]); CHECK_EQ(rc, 0, "sub"); rn_sub(&r, &m[a], &m[b]); m[d] = r; check_all("sub"); pbt_class(d == a || d == b ? "sub aliased" : "sub"); break;
        case 4: case 5: TRACE("v%d = v%d * v%d", d, a, b); rc = bfdev_mpi_mul(&v[d], &v[a], &v[b]); CHECK_EQ(rc, 0, "mul"); rn_mul(&r, &m[a], &m[b]); m[d] = r; check_all("mul"); pbt_class(d == a || d == b ? "mul aliased" : "mul"); break;
        case 6: case 7: case 8: {
            int e = vi_(); /* quotient d, remainder e */
            bool multi = m[b].n > 2 && rn_cmpmag(&m[a], &m[b]) > 0;
            if (m[b].n == 0) {
                TRACE("v%d,v%d = v%d divmod v%d (zero)", d, e, a, b);
                if (d == a || d == b || e == a || e == b || d == e) break;
                rc = bfdev_mpi_div(&v[d], &v[e], &v[a], &v[b]); CHECK(rc != 0, "division by zero was accepted");
                gen_into(d); gen_into(e); check_all("div by zero"); pbt_class("div by zero"); break;
            }
            TRACE("v%d,v%d = v%d divmod v%d", d, e, a, b);
            rn_t ma = m[a], mb = m[b];
            show("dividend", &ma); show("divisor", &mb);
            rc = bfdev_mpi_div(&v[d], &v[e], &v[a], &v[b]); CHECK_EQ(rc, 0, "div");
            get(&v[d], &q, "quotient"); show("quotient", &q);
            if (d != e) { get(&v[e], &w, "remainder"); show("remainder", &w); }
            else { rn_mul(&t, &q, &mb); rn_sub(&w, &ma, &t); } /* one destination for both: it holds the quotient */
            rn_mul(&t, &q, &mb); rn_add(&t, &t, &w);
            CHECK(same(&t, &ma), "div: quotient * divisor + remainder differs from the dividend");
            CHECK(rn_cmpmag(&w, &mb) < 0, "div: remainder is not smaller than the divisor");
            CHECK(!w.n || w.neg == ma.neg, "div: remainder has the wrong sign");
            m[e] = w; m[d] = q; check_all("div");
            pbt_class(multi ? (d == a || e == b || e == a || d == b ? "div multi-limb aliased" : "div multi-limb") : "div simple"); break; }
        case 9: case 10: {
            if (m[b].n == 0) {
                if (d == a || d == b) break;
                rc = bfdev_mpi_mod(&v[d], &v[a], &v[b]); CHECK(rc != 0, "remainder by zero was accepted"); gen_into(d); check_all("mod by zero"); break; }
            TRACE("v%d = v%d mod v%d", d, a, b);
            rn_t ma = m[a], mb = m[b]; bfdev_mpi_t qq; bfdev_mpi_init(&qq, al);
            bfdev_mpi_t rr; bfdev_mpi_init(&rr, al);
            rc = bfdev_mpi_mod(&v[d], &v[a], &v[b]); CHECK_EQ(rc, 0, "mod");
            get(&v[d], &w, "mod");
            CHECK(rn_cmpmag(&w, &mb) < 0, "mod: remainder is not smaller than the divisor");
            CHECK(!w.n || w.neg == ma.neg, "mod: remainder has the wrong sign");
            /* ma - w must be divisible: check with the divide just verified above */
            rn_sub(&t, &ma, &w);
            { uint64_t tmp[RN_MAX]; bfdev_mpi_t n2, dv; bfdev_mpi_init(&n2, al); bfdev_mpi_init(&dv, al);
              for (int i = 0; i < (t.n + 1) / 2; i++) tmp[i] = t.d[2*i] | (uint64_t)(2*i+1 < t.n ? t.d[2*i+1] : 0) << 32;
              CHECK_EQ(bfdev_mpi_import(&n2, (BFDEV_MPI_TYPE *)tmp, (t.n + 1) / 2, t.n ? !t.neg : true), 0, "import");
              for (int i = 0; i < (mb.n + 1) / 2; i++) tmp[i] = mb.d[2*i] | (uint64_t)(2*i+1 < mb.n ? mb.d[2*i+1] : 0) << 32;
              CHECK_EQ(bfdev_mpi_import(&dv, (BFDEV_MPI_TYPE *)tmp, (mb.n + 1) / 2, !mb.neg), 0, "import");
              CHECK_EQ(bfdev_mpi_div(&qq, &rr, &n2, &dv), 0, "div");
              get(&qq, &q, "q"); rn_mul(&q, &q, &mb); CHECK(same(&q, &t), "mod: dividend minus remainder is not a multiple of the divisor");
              bfdev_mpi_release(&n2); bfdev_mpi_release(&dv); }
            bfdev_mpi_release(&qq); bfdev_mpi_release(&rr);
            m[d] = w; check_all("mod"); pbt_class("mod"); break; }
        case 11: x = limb(); TRACE("v%d = v%d + %#lx", d, a, x); rc = bfdev_mpi_addi(&v[d], &v[a], x); CHECK_EQ(rc, 0, "addi"); rn_i(&t, x); rn_add(&r, &m[a], &t); m[d] = r; check_all("add word"); pbt_class("addi"); break;
        case 12: x = limb(); TRACE("v%d = v%d - %#lx", d, a, x); rc = bfdev_mpi_subi(&v[d], &v[a], x); CHECK_EQ(rc, 0, "subi"); rn_i(&t, x); rn_sub(&r, &m[a], &t); m[d] = r; check_all("subtract word"); pbt_class("subi"); break;
        case 13: x = limb(); TRACE("v%d = v%d * %#lx", d, a, x); rc = bfdev_mpi_muli(&v[d], &v[a], x); CHECK_EQ(rc, 0, "muli"); rn_i(&t, x); rn_mul(&r, &m[a], &t); m[d] = r; check_all("multiply by word"); pbt_class("muli"); break;
        case 14: { int e = vi_(); x = limb();
            TRACE("v%d,v%d = v%d divmod word %#lx", d, e, a, x);
            if (!x) { if (d == a || e == a || d == e) break; rc = bfdev_mpi_divi(&v[d], &v[e], &v[a], 0); CHECK(rc != 0, "division by zero word was accepted"); gen_into(d); gen_into(e); check_all("div by zero"); break; }
            rn_t ma = m[a]; rn_i(&t, x);
            rc = bfdev_mpi_divi(&v[d], &v[e], &v[a], x); CHECK_EQ(rc, 0, "divi");
            get(&v[d], &q, "quotient");
            rn_mul(&r, &q, &t); rn_sub(&w, &ma, &r);
            CHECK(rn_cmpmag(&w, &t) < 0, "divide by word: remainder implied by the quotient is not smaller than the divisor");
            CHECK(!w.n || w.neg == ma.neg, "divide by word: remainder implied by the quotient has the wrong sign");
            m[e] = w; m[d] = q; check_all("divide by word"); pbt_class("divi"); break; }
        case 15: { x = limb();
            TRACE("v%d = v%d mod word %#lx", d, a, x);
            if (!x) { if (d == a) break; rc = bfdev_mpi_modi(&v[d], &v[a], 0); CHECK(rc != 0, "remainder by zero word was accepted"); gen_into(d); check_all("mod by zero"); break; }
            /* reference remainder by Horner */
            unsigned __int128 h = 0; for (int i = m[a].n; i--; ) h = ((h << 32) | m[a].d[i]) % x;
            bool neg = m[a].neg;
            rc = bfdev_mpi_modi(&v[d], &v[a], x); CHECK_EQ(rc, 0, "modi");
            rn_i(&m[d], (uint64_t)h); m[d].neg = neg && m[d].n; check_all("remainder by word"); pbt_class("modi"); break; }
        case 16: case 17: { int kind = d_u64(2); int n = m[a].n > m[b].n ? m[a].n : m[b].n;
            r.n = n; r.neg = false;
            for (int i = 0; i < n; i++) { uint32_t p = i < m[a].n ? m[a].d[i] : 0, s = i < m[b].n ? m[b].d[i] : 0; r.d[i] = kind == 0 ? (p & s) : kind == 1 ? (p | s) : (p ^ s); }
            rn_norm(&r);
            TRACE("v%d = v%d %s v%d", d, a, kind == 0 ? "&" : kind == 1 ? "|" : "^", b);
            rc = kind == 0 ? bfdev_mpi_and(&v[d], &v[a], &v[b]) : kind == 1 ? bfdev_mpi_or(&v[d], &v[a], &v[b]) : bfdev_mpi_xor(&v[d], &v[a], &v[b]);
            CHECK_EQ(rc, 0, "bitwise"); m[d] = r; check_all(kind == 0 ? "and" : kind == 1 ? "or" : "xor"); pbt_class("bitwise"); break; }
        case 18: { unsigned s = d_bool() ? 64 * d_u64(4) + d_u64(2) : d_u64(300); TRACE("v%d = v%d << %u", d, a, s); rc = bfdev_mpi_shli(&v[d], &v[a], s); CHECK_EQ(rc, 0, "shl"); rn_shl(&r, &m[a], s); m[d] = r; check_all("shift left"); pbt_class("shl"); break; }
        case 19: { uint64_t s = d_bool() ? 64 * d_u64(12) + d_u64(2) : d_chance(1, 8) ? d_edge64() : d_u64(900); TRACE("v%d = v%d >> %lu", d, a, s); rc = bfdev_mpi_shri(&v[d], &v[a], s); CHECK_EQ(rc, 0, "shr"); rn_shr(&r, &m[a], s); m[d] = r; check_all("shift right"); pbt_class("shr"); break; }
        case 20: { uint64_t bit = d_u64(900); int kind = d_u64(2);
            TRACE("bit %lu of v%d kind %d", bit, d, kind);
            CHECK_EQ(bfdev_mpi_btesti(&v[d], bit), rn_bit(&m[d], bit), "bit test");
            if (kind) {
                rc = kind == 1 ? bfdev_mpi_bseti(&v[d], bit) : bfdev_mpi_bclri(&v[d], bit); CHECK_EQ(rc, 0, "bit set/clear");
                while (m[d].n <= bit / 32) m[d].d[m[d].n++] = 0;
                if (kind == 1) m[d].d[bit / 32] |= 1u << (bit % 32); else m[d].d[bit / 32] &= ~(1u << (bit % 32));
                rn_norm(&m[d]); check_all("bit set/clear"); }
            pbt_class("bit"); break; }
        case 21: if (d_bool()) { TRACE("v%d = v%d", d, a); rc = bfdev_mpi_set(&v[d], &v[a]); CHECK_EQ(rc, 0, "set"); m[d] = m[a]; }
                 else { x = limb(); TRACE("v%d = %#lx", d, x); rc = bfdev_mpi_seti(&v[d], x); CHECK_EQ(rc, 0, "seti"); rn_i(&m[d], x); } check_all("assign"); break;
        default: gen_into(d); check_all("import"); break;
        }
        /* comparisons */
        int c = bfdev_mpi_cmp(&v[a], &v[b]), e = rn_cmp(&m[a], &m[b]);
        CHECK((c > 0) == (e > 0) && (c < 0) == (e < 0), "compare: got %d, expected sign %d", c, e);
        x = d_bool() && m[a].n && m[a].n <= 2 ? (m[a].d[0] | (m[a].n > 1 ? (uint64_t)m[a].d[1] << 32 : 0)) : limb();
        rn_i(&t, x); c = bfdev_mpi_cmpi(&v[a], x); e = rn_cmp(&m[a], &t);
        CHECK((c > 0) == (e > 0) && (c < 0) == (e < 0), "compare with word: got %d, expected sign %d", c, e);
    }
    for (int i = 0; i < NV; i++) bfdev_mpi_release(&v[i]);
    ta_check_empty(&ta, "big integers after release");
}

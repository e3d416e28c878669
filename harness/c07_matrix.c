#include "pbt.h"
#include "ta.h"
#include <bfdev/matrix.h>
const char *const pbt_id = "C07", *const pbt_rule = "";
#define NV 4
#define MAXD 12
typedef uint64_t u64;
typedef struct { unsigned r, c; u64 a[MAXD * MAXD]; } mm;
static bfdev_matrix_t v[NV]; static mm m[NV]; static ta_t ta;
static void check_all(const char *op)
{
    for (int i = 0; i < NV; i++) {
        CHECK(v[i].row == m[i].r && v[i].col == m[i].c, "%s: matrix %d is %ux%u, expected %ux%u", op, i, v[i].row, v[i].col, m[i].r, m[i].c);
        for (unsigned r = 0; r < m[i].r; r++) for (unsigned c = 0; c < m[i].c; c++) {
            const BFDEV_MATRIX_TYPE *p = bfdev_matrix_data(&v[i], r, c); CHECK(p, "%s: element (%u,%u) of %ux%u not accessible", op, r, c, m[i].r, m[i].c);
            CHECK(*p == m[i].a[r * m[i].c + c], "%s: matrix %d element (%u,%u) of %ux%u is %#lx, expected %#lx", op, i, r, c, m[i].r, m[i].c, *p, m[i].a[r * m[i].c + c]);
        }
        if (m[i].r && m[i].c) { const BFDEV_MATRIX_TYPE *p = bfdev_matrix_data(&v[i], 0, 0); for (unsigned k = 0; k < m[i].r * m[i].c; k++) CHECK(p[k] == m[i].a[k], "%s: storage is not row-major", op); }
        unsigned r = d_chance(1, 2) ? m[i].r + d_u64(3) : d_u64(MAXD * 2), c = d_chance(1, 2) ? m[i].c + d_u64(3) : d_u64(MAXD * 2);
        if (r >= m[i].r || c >= m[i].c) CHECK(!bfdev_matrix_data(&v[i], r, c), "%s: out-of-range position (%u,%u) of %ux%u is accepted", op, r, c, m[i].r, m[i].c);
    }
}
static unsigned dim(void) { return d_chance(1, 8) ? MAXD : d_range(1, d_chance(1, 4) ? MAXD : 4); }
static void import(int i, unsigned r, unsigned c)
{
    u64 *b = g_alloc(r * c * 8); for (unsigned k = 0; k < r * c; k++) b[k] = d_chance(1, 3) ? d_u64(5) : d_edge64();
    TRACE("m%d = import %ux%u", i, r, c); int e = bfdev_matrix_import(&v[i], b, r, c); CHECK(!e, "import failed: %d", e); m[i].r = r; m[i].c = c; memcpy(m[i].a, b, r * c * 8);
}
static void big(void)
{
    /* element counts beyond the index type must be refused, not wrapped */
    bfdev_matrix_t a, b, d; bfdev_matrix_init(&a, &ta.alloc); bfdev_matrix_init(&b, &ta.alloc); bfdev_matrix_init(&d, &ta.alloc);
    unsigned sh = d_range(14, 18); unsigned n = 1u << sh, k = (unsigned)((1ull << 32) / n) + d_u64(1); u64 *buf = calloc(1 << 19, 8); TRACE("outer product %ux1 by 1x%u", n, k);
    CHECK(!bfdev_matrix_import(&a, buf, n, 1) && !bfdev_matrix_import(&b, buf, 1, k), "import");
    int e = bfdev_matrix_mul(&d, &a, &b); CHECK(e < 0, "a product of 2^32 elements cannot have been stored"); CHECK(d.row == 0 && d.col == 0, "a refused product changed the destination");
    unsigned ar = a.row, ac = a.col; e = bfdev_matrix_import(&a, buf, n, k); CHECK(e < 0, "importing %ux%u elements cannot have succeeded", n, k); CHECK(a.row == ar && a.col == ac, "a refused import changed the matrix");
    free(buf); bfdev_matrix_release(&a); bfdev_matrix_release(&b); bfdev_matrix_release(&d); pbt_class("oversized product");
}
/* hundreds of rows or columns, tens of thousands of elements */
static void huge(void)
{
    unsigned r = d_range(200, 400), c = d_range(200, 300), k = d_range(1, 4); if (d_bool()) r = d_range(65000, 70000), c = d_range(1, 3); uint64_t s = d_u64(UINT64_MAX); u64 *a = g_alloc(r * c * 8ul), *b = g_alloc(c * k * 8ul); bfdev_matrix_t A, B, D; bfdev_matrix_init(&A, &ta.alloc); bfdev_matrix_init(&B, &ta.alloc); bfdev_matrix_init(&D, &ta.alloc); TRACE("%ux%u", r, c); for (size_t i = 0; i < r * c; i++) a[i] = pbt_mix(s + i); for (size_t i = 0; i < c * k; i++) b[i] = pbt_mix(s - i);
    CHECK(!bfdev_matrix_import(&A, a, r, c) && !bfdev_matrix_import(&B, b, c, k), "import"); CHECK(!bfdev_matrix_mul(&D, &A, &B), "product"); CHECK(D.row == r && D.col == k, "the product is %ux%u", D.row, D.col); for (unsigned i = 0; i < r; i++) for (unsigned j = 0; j < k; j++) { u64 x = 0; for (unsigned t = 0; t < c; t++) x += a[i * c + t] * b[t * k + j]; CHECK(*bfdev_matrix_data(&D, i, j) == x, "element (%u,%u) of the product", i, j); }
    CHECK(!bfdev_matrix_trans(&D, &A), "transpose"); CHECK(D.row == c && D.col == r, "the transpose is %ux%u", D.row, D.col); for (unsigned i = 0; i < c; i++) for (unsigned j = 0; j < r; j++) CHECK(*bfdev_matrix_data(&D, i, j) == a[j * c + i], "element (%u,%u) of the transpose", i, j); CHECK(!bfdev_matrix_data(&D, c, 0) && !bfdev_matrix_data(&D, 0, r), "an out-of-range position is accepted");
    CHECK(!bfdev_matrix_set(&D, &A) && !bfdev_matrix_add(&D, &D, &A), "add"); for (unsigned i = 0; i < r; i++) for (unsigned j = 0; j < c; j++) CHECK(*bfdev_matrix_data(&D, i, j) == 2 * a[i * c + j], "element (%u,%u) of the sum", i, j); CHECK(!bfdev_matrix_sub(&D, &D, &A), "sub"); for (unsigned i = 0; i < r; i++) for (unsigned j = 0; j < c; j++) CHECK(*bfdev_matrix_data(&D, i, j) == a[i * c + j], "element (%u,%u) of the difference", i, j);
    bfdev_matrix_release(&A); bfdev_matrix_release(&B); bfdev_matrix_release(&D); ta_check_empty(&ta, "matrices"); pbt_class("tens of thousands of elements");
}
void pbt_case(void)
{
    ta_init(&ta); ta.fill = d_u64(255); bool nt = false;
    for (int i = 0; i < NV; i++) { bfdev_matrix_init(&v[i], &ta.alloc); m[i].r = m[i].c = 0; }
    if (d_chance(1, 4000)) big(); if (d_chance(1, 10000)) huge();
    unsigned sq = d_chance(1, 3) ? dim() : 0; for (int i = 0; i < NV; i++) { unsigned r = sq ?: dim(), c = sq ?: dim(); if (i && d_bool()) { r = m[i - 1].r; c = m[i - 1].c; } import(i, r, c); }
    check_all("import");
    for (int k = d_range(1, 8); k--; ) {
        int op = d_u64(6), d = d_u64(NV - 1), a = d_u64(NV - 1), b = d_u64(NV - 1), e; mm x;
        TRACE("op %d m%d = m%d (%ux%u), m%d (%ux%u)", op, d, a, m[a].r, m[a].c, b, m[b].r, m[b].c);
        if (op <= 1) {
            if (m[a].r * m[a].c != 0 && (m[a].r != m[b].r || m[a].c != m[b].c) && d_bool()) import(b, m[a].r, m[a].c);
            bool ok = m[a].r == m[b].r && m[a].c == m[b].c;
            e = op ? bfdev_matrix_sub(&v[d], &v[a], &v[b]) : bfdev_matrix_add(&v[d], &v[a], &v[b]); CHECK(ok ? !e : e < 0, "element-wise operation on %ux%u and %ux%u returned %d", m[a].r, m[a].c, m[b].r, m[b].c, e);
            if (ok) { x.r = m[a].r; x.c = m[a].c; for (unsigned i = 0; i < x.r * x.c; i++) x.a[i] = op ? m[a].a[i] - m[b].a[i] : m[a].a[i] + m[b].a[i]; m[d] = x; nt |= x.r * x.c > 1; pbt_class("element-wise"); } else pbt_class("refused");
        } else if (op <= 3) {
            if (m[a].c != m[b].r && a != b && d_chance(3, 4)) import(b, m[a].c, dim());
            bool ok = m[a].c == m[b].r; e = bfdev_matrix_mul(&v[d], &v[a], &v[b]); CHECK(ok ? !e : e < 0, "product of %ux%u and %ux%u returned %d", m[a].r, m[a].c, m[b].r, m[b].c, e);
            if (ok) { x.r = m[a].r; x.c = m[b].c; for (unsigned i = 0; i < x.r; i++) for (unsigned j = 0; j < x.c; j++) { u64 s = 0; for (unsigned t = 0; t < m[a].c; t++) s += m[a].a[i * m[a].c + t] * m[b].a[t * m[b].c + j]; x.a[i * x.c + j] = s; } m[d] = x; nt |= x.r * x.c > 1; pbt_class(d == a || d == b ? "product in place" : "product"); } else pbt_class("refused");
        } else if (op == 4) {
            if (d == a) continue; e = bfdev_matrix_trans(&v[d], &v[a]); CHECK(!e, "transpose returned %d", e);
            x.r = m[a].c; x.c = m[a].r; for (unsigned i = 0; i < x.r; i++) for (unsigned j = 0; j < x.c; j++) x.a[i * x.c + j] = m[a].a[j * m[a].c + i]; m[d] = x; nt |= x.r * x.c > 1; pbt_class("transpose");
        } else if (op == 5) { e = bfdev_matrix_set(&v[d], &v[a]); CHECK(!e, "copy returned %d", e); m[d] = m[a]; pbt_class("copy"); }
        else { if (d_chance(1, 3)) { bfdev_matrix_release(&v[d]); m[d].r = m[d].c = 0; check_all("release"); } import(d, dim(), dim()); }
        check_all("operation");
    }
    for (int i = 0; i < NV; i++) { bfdev_matrix_release(&v[i]); m[i].r = m[i].c = 0; } check_all("final release"); ta_check_empty(&ta, "matrices");
    if (nt) pbt_nontrivial();
}

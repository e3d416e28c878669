/* generated front ends over the typed FIFO / ring buffer macros */
#define _GNU_SOURCE
#include "pbt.h"
#include "ta.h"
#include "va.h"
typedef struct { const char *name; size_t es; unsigned rec; bool dyn; unsigned long ssize;
    void (*init)(void), (*reset)(void), (*homing)(void), (*pos)(unsigned long), (*fini)(void); int (*alloc)(const bfdev_alloc_t *, size_t);
    unsigned long (*put)(const void *), (*get)(void *), (*peek)(void *), (*in)(const void *, unsigned long), (*out)(void *, unsigned long), (*opeek)(void *, unsigned long), (*len)(void), (*size)(void), (*esize)(void), (*recsize)(void);
    bool (*empty)(void), (*full)(void); } q_t;
#define QFUN(K, tag, T, INIT) \
    static void tag##_init(void) { tag = INIT(&tag); } static void tag##_reset(void) { bfdev_##K##_reset(&tag); } static void tag##_homing(void) { bfdev_##K##_homing(&tag); } \
    static void tag##_pos(unsigned long v) { tag.K.in = tag.K.out = v; } static unsigned long tag##_put(const void *p) { return bfdev_##K##_put(&tag, *(const T *)p); } \
    static unsigned long tag##_get(void *p) { return bfdev_##K##_get(&tag, (T *)p); } static unsigned long tag##_peek(void *p) { return bfdev_##K##_peek(&tag, (T *)p); } \
    static unsigned long tag##_in(const void *p, unsigned long n) { return bfdev_##K##_in(&tag, (const T *)p, n); } static unsigned long tag##_out(void *p, unsigned long n) { return bfdev_##K##_out(&tag, (T *)p, n); } \
    static unsigned long tag##_opeek(void *p, unsigned long n) { return bfdev_##K##_out_peek(&tag, (T *)p, n); } static unsigned long tag##_len(void) { return bfdev_##K##_len(&tag); } \
    static unsigned long tag##_size(void) { return bfdev_##K##_size(&tag); } static unsigned long tag##_esize(void) { return bfdev_##K##_esize(&tag); } static unsigned long tag##_recsize(void) { return bfdev_##K##_recsize(&tag); } \
    static bool tag##_empty(void) { return bfdev_##K##_check_empty(&tag); } static bool tag##_full(void) { return bfdev_##K##_check_full(&tag); } \
    static int tag##_alloc(const bfdev_alloc_t *a, size_t n) { return bfdev_##K##_alloc(&tag, a, n); } static void tag##_fini(void) { bfdev_##K##_free(&tag); }
#define QROW(tag, T, rec, dyn, ss) { #tag, sizeof(T), rec, dyn, ss, tag##_init, tag##_reset, tag##_homing, tag##_pos, tag##_fini, tag##_alloc, tag##_put, tag##_get, tag##_peek, tag##_in, tag##_out, tag##_opeek, tag##_len, tag##_size, tag##_esize, tag##_recsize, tag##_empty, tag##_full }
typedef struct { uint8_t b[3]; } t3_t; typedef struct { uint32_t w[3]; } t12_t; typedef struct { uint8_t b[16]; } t16_t; typedef struct { uint8_t b[70000]; } t70k_t;
static ta_t ta; static const q_t *q; static unsigned long qsize; static unsigned serial;
static uint8_t *elems(size_t n) { uint8_t *p = g_alloc(n * q->es); for (size_t i = 0; i < n * q->es; i++) p[i] = (uint8_t)(pbt_mix(serial++) >> 17); return p; }
static unsigned long up2(unsigned long v) { unsigned long p = 1; while (p < v) p <<= 1; return p; }
static void q_open(const q_t *t, unsigned maxdyn)
{
    q = t; ta_init(&ta); ta.fill = d_u64(255); serial = d_u64(65535); q->init(); qsize = q->ssize;
    if (q->dyn) {
        unsigned long want = d_range(2, d_bool() ? 9 : maxdyn); CHECK(q->alloc(&ta.alloc, 1) < 0 && ta.live == 0, "a one-element buffer was allocated");
        if (d_chance(1, 10)) { ta_fail_in(&ta, 1); CHECK(q->alloc(&ta.alloc, want) < 0, "creation succeeded without memory"); ta_ok(&ta); }
        CHECK(!q->alloc(&ta.alloc, want), "creation of %lu elements failed", want); qsize = up2(want);
    } else CHECK(q->alloc(&ta.alloc, 8) < 0 && ta.live == 0, "a static buffer was allocated");
    CHECK(q->size() == qsize && q->esize() == q->es && q->recsize() == q->rec, "%s: size %lu esize %lu recsize %lu", q->name, q->size(), q->esize(), q->recsize());
    if (d_chance(2, 3)) { unsigned long p = d_bool() ? d_edge64() : (d_bool() ? 0ul : 1ul << 32) - d_u64(3 * qsize); TRACE("positions start at %#lx", p); q->pos(p); }
    TRACE("%s of %lu elements of %zu bytes, record header %u", q->name, qsize, q->es, q->rec);
}
static void q_close(void) { if (q->dyn) { q->fini(); ta_check_empty(&ta, q->name); } }
static va_t va;
static inline void q_open_vast(const q_t *t)
{
    va_init(&va); q = t; serial = d_u64(65535); q->init(); unsigned long es = q->es, want = (1ul << d_range(20, 38)) / es + d_u64(100); qsize = up2(want);
    CHECK(!q->alloc(&va.alloc, want), "creation of %lu elements failed", want); CHECK(q->size() == qsize, "size %lu, expected %lu", q->size(), qsize); CHECK(va_bytes(&va) >= qsize * es, "%lu elements of %lu bytes in %zu bytes", qsize, es, va_bytes(&va));
    unsigned long p = d_bool() ? d_edge64() : d_bool() ? (1ul << d_range(31, 40)) - d_u64(300) : qsize * d_u64(9) - d_u64(300); q->pos(p); TRACE("%s of %lu elements of %lu bytes, positions start at %#lx", q->name, qsize, es, p);
}
/* a dynamic buffer of up to hundreds of gigabytes, of which few elements are ever touched */
static inline void q_vast(const q_t *t)
{
    static uint8_t m[400 * 16]; q_open_vast(t); unsigned long es = q->es, n = 0, r;
    for (int k = d_range(4, 40); k--; ) { unsigned long c = d_u64(60); uint8_t *e;
        if (n + c < 400 && d_chance(3, 5)) { e = elems(c); TRACE("in %lu", c); if (c == 1 && d_bool()) { r = q->put(e); } else { r = q->in(e, c); CHECK(r == c, "inserting %lu of %lu accepted %lu", c, qsize, r); } memcpy(m + n * es, e, c * es); n += c; }
        else { bool pk = d_chance(1, 3); unsigned long x = c < n ? c : n; e = g_alloc(c * es); TRACE("%s %lu of %lu", pk ? "peek" : "out", c, n); r = pk ? q->opeek(e, c) : q->out(e, c); CHECK(r == x, "taking %lu from %lu delivered %lu", c, n, r); CHECK(!memcmp(e, m, x * es), "a block was delivered with wrong contents"); if (!pk) { n -= x; memmove(m, m + x * es, n * es); } }
        CHECK(q->len() == n && q->empty() == !n && !q->full(), "length %lu, expected %lu; empty %d full %d", q->len(), n, q->empty(), q->full()); }
    q->fini(); CHECK(!va.live, "memory left after release"); pbt_class("vast buffer"); pbt_nontrivial();
}

#include "queue.h"
#include <bfdev/fifo.h>
const char *const pbt_id = "C09", *const pbt_rule = "";
static BFDEV_DECLARE_FIFO(sf_u8, uint8_t, 8); static BFDEV_DECLARE_FIFO(sf_u8b, uint8_t, 64); static BFDEV_DECLARE_FIFO(sf_u32, uint32_t, 2); static BFDEV_DECLARE_FIFO(sf_u64, uint64_t, 16); static BFDEV_DECLARE_FIFO(sf_t3, t3_t, 4); static BFDEV_DECLARE_FIFO(sf_t12, t12_t, 32);
static BFDEV_DECLARE_FIFO_DYNAMIC(df_u8, uint8_t); static BFDEV_DECLARE_FIFO_DYNAMIC(df_u16, uint16_t); static BFDEV_DECLARE_FIFO_DYNAMIC(df_t12, t12_t); static BFDEV_DECLARE_FIFO_DYNAMIC(df_t3, t3_t);
QFUN(fifo, sf_u8, uint8_t, BFDEV_FIFO_INIT) QFUN(fifo, sf_u8b, uint8_t, BFDEV_FIFO_INIT) QFUN(fifo, sf_u32, uint32_t, BFDEV_FIFO_INIT) QFUN(fifo, sf_u64, uint64_t, BFDEV_FIFO_INIT) QFUN(fifo, sf_t3, t3_t, BFDEV_FIFO_INIT) QFUN(fifo, sf_t12, t12_t, BFDEV_FIFO_INIT)
QFUN(fifo, df_u8, uint8_t, BFDEV_FIFO_DYNAMIC_INIT) QFUN(fifo, df_u16, uint16_t, BFDEV_FIFO_DYNAMIC_INIT) QFUN(fifo, df_t12, t12_t, BFDEV_FIFO_DYNAMIC_INIT) QFUN(fifo, df_t3, t3_t, BFDEV_FIFO_DYNAMIC_INIT)
static BFDEV_DECLARE_FIFO(sf_big, t70k_t, 4); static BFDEV_DECLARE_FIFO_DYNAMIC(df_big, t70k_t); QFUN(fifo, sf_big, t70k_t, BFDEV_FIFO_INIT) QFUN(fifo, df_big, t70k_t, BFDEV_FIFO_DYNAMIC_INIT)
static const q_t bigrows[] = { QROW(sf_big, t70k_t, 0, 0, 4), QROW(df_big, t70k_t, 0, 1, 0) };
static const q_t rows[] = { QROW(sf_u8, uint8_t, 0, 0, 8), QROW(sf_u8b, uint8_t, 0, 0, 64), QROW(sf_u32, uint32_t, 0, 0, 2), QROW(sf_u64, uint64_t, 0, 0, 16), QROW(sf_t3, t3_t, 0, 0, 4), QROW(sf_t12, t12_t, 0, 0, 32), QROW(df_u8, uint8_t, 0, 1, 0), QROW(df_u16, uint16_t, 0, 1, 0), QROW(df_t12, t12_t, 0, 1, 0), QROW(df_t3, t3_t, 0, 1, 0) };
static uint8_t m[131072 * 16]; static unsigned long n;
static void check(const char *op)
{
    CHECK(q->len() == n, "%s: length %lu, expected %lu", op, q->len(), n); CHECK(q->empty() == !n && q->full() == (n == qsize), "%s: empty %d full %d with %lu of %lu", op, q->empty(), q->full(), n, qsize);
    if (d_chance(1, 4)) { uint8_t *b = g_alloc(qsize * q->es); unsigned long r = q->opeek(b, qsize); CHECK(r == n && !memcmp(b, m, n * q->es), "%s: the stored elements differ from what was inserted", op); }
}
void pbt_case(void)
{
    if (d_chance(1, 500)) { const q_t *v; do v = &d_of(rows); while (!v->dyn); q_vast(v); return; }
    bool wide = d_chance(1, 6000); if (wide) pbt_class("elements of tens of kilobytes"); q_open(wide ? &d_of(bigrows) : &d_of(rows), wide ? 8 : d_chance(1, 8000) ? 131072 : 140); if (qsize > 60000) pbt_class("very large"); n = 0; unsigned long total = 0; check("init");
    for (int k = d_range(1, 40); k--; ) {
        int op = d_u64(10); unsigned long es = q->es, cnt = d_chance(1, 4) ? d_u64(2 * qsize) : d_size(qsize), r, x; 
        switch (op) {
        case 0: case 1: { uint8_t *e = elems(1); TRACE("put (%lu stored)", n); r = q->put(e); CHECK(r == (n < qsize), "put into %lu of %lu returned %lu", n, qsize, r); if (r) { memcpy(m + n * es, e, es); n++; total++; } else pbt_class("refused when full"); break; }
        case 2: case 3: { uint8_t *e = g_alloc(es), *s = g_alloc(es); memset(e, 0x5a, es); memcpy(s, e, es); TRACE("get (%lu stored)", n); r = op == 2 ? q->get(e) : q->peek(e); CHECK(r == !!n, "get/peek with %lu stored returned %lu", n, r); if (!n) { CHECK(!memcmp(s, e, es), "an empty FIFO delivered data"); pbt_class("refused when empty"); break; }
            CHECK(!memcmp(e, m, es), "%s delivered the wrong element", op == 2 ? "get" : "peek"); if (op == 2) { n--; memmove(m, m + es, n * es); } break; }
        case 4: case 5: case 6: { uint8_t *e = elems(cnt); TRACE("in %lu (%lu stored)", cnt, n); x = cnt < qsize - n ? cnt : qsize - n; r = q->in(e, cnt); CHECK(r == x, "inserting %lu into %lu of %lu accepted %lu", cnt, n, qsize, r); memcpy(m + n * es, e, x * es); n += x; total += x; if (x < cnt) pbt_class("partial block"); break; }
        case 7: case 8: case 9: { uint8_t *e = g_alloc(cnt * es); memset(e, 0x77, cnt * es); TRACE("%s %lu (%lu stored)", op == 9 ? "peek" : "out", cnt, n); x = cnt < n ? cnt : n; r = op == 9 ? q->opeek(e, cnt) : q->out(e, cnt); CHECK(r == x, "taking %lu from %lu delivered %lu", cnt, n, r); CHECK(!memcmp(e, m, x * es), "a block was delivered with wrong contents");
            for (unsigned long i = x * es; i < cnt * es; i++) CHECK(e[i] == 0x77, "more was written than delivered"); if (op != 9) { n -= x; memmove(m, m + x * es, n * es); } break; }
        default: if (d_chance(1, 3)) { TRACE("reset"); d_bool() ? q->reset() : q->homing(); n = 0; } }
        check("operation");
    }
    q_close(); if (total > qsize) pbt_nontrivial();
}

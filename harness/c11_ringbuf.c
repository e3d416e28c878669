#include "queue.h"
#include <bfdev/ringbuf.h>
#include <bfdev/circle.h>
const char *const pbt_id = "C11", *const pbt_rule = "";
static BFDEV_DECLARE_RINGBUF(sr_u8, uint8_t, 8); static BFDEV_DECLARE_RINGBUF(sr_u8b, uint8_t, 64); static BFDEV_DECLARE_RINGBUF(sr_u32, uint32_t, 2); static BFDEV_DECLARE_RINGBUF(sr_u64, uint64_t, 16); static BFDEV_DECLARE_RINGBUF(sr_t3, t3_t, 4); static BFDEV_DECLARE_RINGBUF(sr_t12, t12_t, 32);
static BFDEV_DECLARE_RINGBUF_DYNAMIC(dr_u8, uint8_t); static BFDEV_DECLARE_RINGBUF_DYNAMIC(dr_u16, uint16_t); static BFDEV_DECLARE_RINGBUF_DYNAMIC(dr_t12, t12_t); static BFDEV_DECLARE_RINGBUF_DYNAMIC(dr_t3, t3_t);
#define R(t, T) QFUN(ringbuf, t, T, BFDEV_RINGBUF_INIT)
#define RD(t, T) QFUN(ringbuf, t, T, BFDEV_RINGBUF_DYNAMIC_INIT)
R(sr_u8, uint8_t) R(sr_u8b, uint8_t) R(sr_u32, uint32_t) R(sr_u64, uint64_t) R(sr_t3, t3_t) R(sr_t12, t12_t) RD(dr_u8, uint8_t) RD(dr_u16, uint16_t) RD(dr_t12, t12_t) RD(dr_t3, t3_t)
static BFDEV_DECLARE_RINGBUF(sr_big, t70k_t, 4); static BFDEV_DECLARE_RINGBUF_DYNAMIC(dr_big, t70k_t); QFUN(ringbuf, sr_big, t70k_t, BFDEV_RINGBUF_INIT) QFUN(ringbuf, dr_big, t70k_t, BFDEV_RINGBUF_DYNAMIC_INIT)
static const q_t bigrows[] = { QROW(sr_big, t70k_t, 0, 0, 4), QROW(dr_big, t70k_t, 0, 1, 0) };
static const q_t rows[] = { QROW(sr_u8, uint8_t, 0, 0, 8), QROW(sr_u8b, uint8_t, 0, 0, 64), QROW(sr_u32, uint32_t, 0, 0, 2), QROW(sr_u64, uint64_t, 0, 0, 16), QROW(sr_t3, t3_t, 0, 0, 4), QROW(sr_t12, t12_t, 0, 0, 32), QROW(dr_u8, uint8_t, 0, 1, 0), QROW(dr_u16, uint16_t, 0, 1, 0), QROW(dr_t12, t12_t, 0, 1, 0), QROW(dr_t3, t3_t, 0, 1, 0) };
static uint8_t m[2 * 131072 * 16]; static unsigned long n;
static void check(const char *op)
{
    CHECK(q->len() == n, "%s: length %lu, expected %lu", op, q->len(), n); CHECK(q->empty() == !n && q->full() == (n == qsize), "%s: empty %d full %d with %lu of %lu", op, q->empty(), q->full(), n, qsize);
    if (d_chance(1, 3)) { uint8_t *b = g_alloc(qsize * q->es); unsigned long r = q->opeek(b, qsize); CHECK(r == n && !memcmp(b, m, n * q->es), "%s: the retained elements are not the newest ones in order", op); }
}
static void put(const uint8_t *e, unsigned long c) { size_t es = q->es; memcpy(m + n * es, e, c * es); n += c; if (n > qsize) { memmove(m, m + (n - qsize) * es, qsize * es); n = qsize; pbt_class("overwritten"); } }
static void circle(void)
{
    unsigned long size = 1ul << d_range(0, d_bool() ? 4 : 20), head = HIDE(d_u64(size - 1)), tail = HIDE(d_chance(1, 3) ? head : d_u64(size - 1)); if (d_chance(1, 4)) tail = HIDE((head + 1) & (size - 1));
    unsigned long cnt = head >= tail ? head - tail : size - (tail - head), space = size - 1 - cnt, ce = cnt < size - tail ? cnt : size - tail, se = space < size - head ? space : size - head; int h = head, t = tail, s = size;
    TRACE("circle size %lu head %lu tail %lu", size, head, tail);
    #define C(m, x) do { unsigned long g = m(head, tail, size), g2 = m(h, t, s); CHECK(g == x, #m "(%lu, %lu, %lu) = %lu, expected %lu", head, tail, size, g, x); CHECK(g2 == x, #m " with int operands (%lu, %lu, %lu) = %lu, expected %lu", head, tail, size, g2, x); } while (0)
    C(BFDEV_CIRCLE_CNT, cnt); C(BFDEV_CIRCLE_SPACE, space); C(BFDEV_CIRCLE_CNT_END, ce); C(BFDEV_CIRCLE_SPACE_END, se); C(BFDEV_CIRCLE_CNT_END, ce);
    unsigned long fr = d_edge64(), fh = fr + cnt; CHECK(BFDEV_CIRCLE_CNT(fh, fr, size) == cnt && BFDEV_CIRCLE_SPACE(fh, fr, size) == space, "free-running positions %#lx %#lx", fh, fr);
    pbt_class("circle"); pbt_nontrivial();
}
void pbt_case(void)
{
    if (d_chance(1, 8)) { circle(); return; }
    if (d_chance(1, 500)) { const q_t *v; do v = &d_of(rows); while (!v->dyn); q_vast(v); return; }
    bool wide = d_chance(1, 6000); if (wide) pbt_class("elements of tens of kilobytes"); q_open(wide ? &d_of(bigrows) : &d_of(rows), wide ? 8 : d_chance(1, 8000) ? 131072 : 140); if (qsize > 60000) pbt_class("very large"); n = 0; unsigned long total = 0; check("init");
    for (int k = d_range(1, 40); k--; ) {
        int op = d_u64(10); unsigned long es = q->es, cnt = d_chance(1, 4) ? d_u64(2 * qsize) : d_size(qsize), r, x; 
        switch (op) {
        case 0: case 1: { uint8_t *e = elems(1); TRACE("put (%lu stored)", n); bool full = n == qsize; r = q->put(e); CHECK(!!r == full, "put into %lu of %lu reported %lu", n, qsize, r); put(e, 1); total++; break; }
        case 2: case 3: { uint8_t *e = g_alloc(es), *s = g_alloc(es); memset(e, 0x5a, es); memcpy(s, e, es); TRACE("get (%lu stored)", n); r = op == 2 ? q->get(e) : q->peek(e); CHECK(r == !!n, "get/peek with %lu stored returned %lu", n, r); if (!n) { CHECK(!memcmp(s, e, es), "an empty buffer delivered data"); pbt_class("refused when empty"); break; }
            CHECK(!memcmp(e, m, es), "%s delivered the wrong element", op == 2 ? "get" : "peek"); if (op == 2) { n--; memmove(m, m + es, n * es); } break; }
        case 4: case 5: case 6: { uint8_t *e = elems(cnt); TRACE("in %lu (%lu stored)", cnt, n); x = cnt < qsize ? cnt : qsize; r = q->in(e, cnt); CHECK(r == x, "inserting %lu into a ring of %lu accepted %lu", cnt, qsize, r); put(e, x); total += x; break; }
        case 7: case 8: case 9: { uint8_t *e = g_alloc(cnt * es); memset(e, 0x77, cnt * es); TRACE("%s %lu (%lu stored)", op == 9 ? "peek" : "out", cnt, n); x = cnt < n ? cnt : n; r = op == 9 ? q->opeek(e, cnt) : q->out(e, cnt); CHECK(r == x, "taking %lu from %lu delivered %lu", cnt, n, r); CHECK(!memcmp(e, m, x * es), "a block was delivered with wrong contents");
            for (unsigned long i = x * es; i < cnt * es; i++) CHECK(e[i] == 0x77, "more was written than delivered"); if (op != 9) { n -= x; memmove(m, m + x * es, n * es); } break; }
        default: if (d_chance(1, 3)) { TRACE("reset"); d_bool() ? q->reset() : q->homing(); n = 0; } }
        check("operation");
    }
    q_close(); if (total > qsize) pbt_nontrivial();
}

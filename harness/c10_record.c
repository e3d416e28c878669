#include "queue.h"
#include <bfdev/fifo.h>
#include <bfdev/ringbuf.h>
const char *const pbt_id = "C10", *const pbt_rule = "";
static BFDEV_DECLARE_FIFO_RECORD(sf1_u8, uint8_t, 16, 1); static BFDEV_DECLARE_FIFO_RECORD(sf2_u8, uint8_t, 64, 2); static BFDEV_DECLARE_FIFO_RECORD(sf1_u32, uint32_t, 16, 1); static BFDEV_DECLARE_FIFO_RECORD(sf2_t3, t3_t, 32, 2); static BFDEV_DECLARE_FIFO_DYNAMIC_RECORD(df1_u8, uint8_t, 1); static BFDEV_DECLARE_FIFO_DYNAMIC_RECORD(df2_u8, uint8_t, 2); static BFDEV_DECLARE_FIFO_DYNAMIC_RECORD(df2_u16, uint16_t, 2); static BFDEV_DECLARE_FIFO_DYNAMIC_RECORD(df1_t12, t12_t, 1);
static BFDEV_DECLARE_RINGBUF_RECORD(sr1_u8, uint8_t, 16, 1); static BFDEV_DECLARE_RINGBUF_RECORD(sr2_u8, uint8_t, 64, 2); static BFDEV_DECLARE_RINGBUF_RECORD(sr1_u32, uint32_t, 16, 1); static BFDEV_DECLARE_RINGBUF_RECORD(sr2_t3, t3_t, 32, 2); static BFDEV_DECLARE_RINGBUF_DYNAMIC_RECORD(dr1_u8, uint8_t, 1); static BFDEV_DECLARE_RINGBUF_DYNAMIC_RECORD(dr2_u8, uint8_t, 2); static BFDEV_DECLARE_RINGBUF_DYNAMIC_RECORD(dr2_u16, uint16_t, 2); static BFDEV_DECLARE_RINGBUF_DYNAMIC_RECORD(dr1_t12, t12_t, 1);
#define F(t, T) QFUN(fifo, t, T, BFDEV_FIFO_INIT)
#define FD(t, T) QFUN(fifo, t, T, BFDEV_FIFO_DYNAMIC_INIT)
#define R(t, T) QFUN(ringbuf, t, T, BFDEV_RINGBUF_INIT)
#define RD(t, T) QFUN(ringbuf, t, T, BFDEV_RINGBUF_DYNAMIC_INIT)
F(sf1_u8, uint8_t) F(sf2_u8, uint8_t) F(sf1_u32, uint32_t) F(sf2_t3, t3_t) FD(df1_u8, uint8_t) FD(df2_u8, uint8_t) FD(df2_u16, uint16_t) FD(df1_t12, t12_t)
R(sr1_u8, uint8_t) R(sr2_u8, uint8_t) R(sr1_u32, uint32_t) R(sr2_t3, t3_t) RD(dr1_u8, uint8_t) RD(dr2_u8, uint8_t) RD(dr2_u16, uint16_t) RD(dr1_t12, t12_t)
static const q_t rows[] = { QROW(sf1_u8, uint8_t, 1, 0, 16), QROW(sf2_u8, uint8_t, 2, 0, 64), QROW(sf1_u32, uint32_t, 1, 0, 16), QROW(sf2_t3, t3_t, 2, 0, 32), QROW(df1_u8, uint8_t, 1, 1, 0), QROW(df2_u8, uint8_t, 2, 1, 0), QROW(df2_u16, uint16_t, 2, 1, 0), QROW(df1_t12, t12_t, 1, 1, 0),
    QROW(sr1_u8, uint8_t, 1, 0, 16), QROW(sr2_u8, uint8_t, 2, 0, 64), QROW(sr1_u32, uint32_t, 1, 0, 16), QROW(sr2_t3, t3_t, 2, 0, 32), QROW(dr1_u8, uint8_t, 1, 1, 0), QROW(dr2_u8, uint8_t, 2, 1, 0), QROW(dr2_u16, uint16_t, 2, 1, 0), QROW(dr1_t12, t12_t, 1, 1, 0) };
enum { MAXR = 2048 };
static struct { unsigned long len; uint8_t *d; } m[MAXR]; static unsigned n; static unsigned long used;
static void drop(void) { used -= m[0].len + q->rec; memmove(m, m + 1, --n * sizeof m[0]); }
static void check(const char *op)
{ CHECK(q->len() == used && q->empty() == !n && q->full() == (used == qsize), "%s: %lu elements in use, expected %lu", op, q->len(), used);
  if (n && d_chance(1, 3)) { unsigned long all = qsize < 70000 || qsize == 131072 ? qsize : 70000; uint8_t *b = g_alloc(all * q->es); unsigned long r = q->opeek(b, all); CHECK(r == m[0].len && !memcmp(b, m[0].d, r * q->es), "%s: the oldest record has %lu elements instead of %lu, or other contents", op, r, m[0].len); } }
void pbt_case(void)
{
    unsigned w = d_u64(15); bool ring = w >= 8, nt = false, vast = rows[w].dyn && d_chance(1, 300); if (vast) { q_open_vast(&rows[w]); pbt_class("vast buffer"); } else q_open(&rows[w], d_chance(1, 4000) ? 131072 : d_chance(1, 3) ? 1024 : 100); if (qsize > 60000 && !vast) pbt_class("very large"); n = 0; used = 0; check("init"); unsigned long total = 0, hmax = q->rec == 1 ? 255 : 65535;
    for (int k = d_range(1, 30); k--; ) {
        int op = d_u64(8); unsigned long es = q->es, cnt = vast ? d_chance(1, 20) ? d_u64(66000) : d_u64(300) : qsize > 60000 && d_chance(1, 3) ? d_range(65530, 65541) : d_chance(1, 6) ? d_u64(qsize + 4) : d_chance(1, 5) ? d_range(250, 260) : d_size(qsize / 2), r;
        if (op <= 3) {
            bool single = op == 3; if (single) cnt = 1; uint8_t *e = elems(cnt); TRACE("%s record of %lu (%lu of %lu used)", single ? "put" : "in", cnt, used, qsize); r = single ? q->put(e) : q->in(e, cnt);
            unsigned long x = cnt;
            if (ring) { if (x > qsize - q->rec) x = qsize - q->rec; if (x > hmax) x = hmax; while (n && used + x + q->rec > qsize) { drop(); pbt_class("overwritten"); } }
            else if (cnt > hmax || cnt + q->rec > qsize - used) { CHECK(r == 0, "a record of %lu was accepted with %lu free", cnt, qsize - used); pbt_class("refused"); check("refused"); continue; }
            CHECK(r == x, "storing a record of %lu returned %lu", cnt, r); m[n].len = x; m[n++].d = e; used += x + q->rec; total += x + q->rec;
        } else if (op <= 7) {
            bool single = op == 5, peek = op == 7; if (single) cnt = 1; uint8_t *e = g_alloc(cnt * es); memset(e, 0x77, cnt * es); TRACE("%s %lu (%u records)", peek ? "peek" : single ? "get" : "out", cnt, n);
            if (peek && d_chance(1, 3)) { single = true; cnt = 1; e = g_alloc(es); memset(e, 0x77, es); }
            r = peek ? (single ? q->peek(e) : q->opeek(e, cnt)) : single ? q->get(e) : q->out(e, cnt); unsigned long x = n ? (cnt < m[0].len ? cnt : m[0].len) : 0;
            CHECK(r == x, "reading %lu from a record of %lu delivered %lu", cnt, n ? m[0].len : 0, r); if (n) CHECK(!memcmp(e, m[0].d, x * es), "a record was delivered with other contents"); for (unsigned long i = x * es; i < cnt * es; i++) CHECK(e[i] == 0x77, "more was written than delivered");
            if (n && x < m[0].len && !peek) pbt_class("short read"); if (n && !peek) { nt |= n > 1; drop(); }
        } else if (d_chance(1, 4)) { TRACE("reset"); d_bool() ? q->reset() : q->homing(); n = 0; used = 0; }
        check("operation");
    }
    while (n) { unsigned long all = qsize < 70000 || qsize == 131072 ? qsize : 70000; uint8_t *b = g_alloc(all * q->es); unsigned long r = q->out(b, all); CHECK(r == m[0].len && !memcmp(b, m[0].d, r * q->es), "draining: a record of %lu instead of %lu, or other contents", r, m[0].len); drop(); check("drain"); }
    if (vast) { q->fini(); CHECK(!va.live, "memory left after release"); if (nt) pbt_nontrivial(); return; }
    q_close(); if (total > qsize && nt) pbt_nontrivial();
}

#include "pbt.h"
#include <bfdev/log.h>
#include <bfdev/level.h>
const char *const pbt_id = "C45", *const pbt_rule = "";
static const char *const name[] = { "emerg", "alert", "crit", "error", "warning", "notice", "info", "debug", "default" }; static const int colour[] = { 91, 31, 35, 33, 34, 96, 92, 90, 39 };
static int writes, wret; static void *wdata; static char seen[BFDEV_LOG_BUFF_SIZE + 8]; static size_t slen; static unsigned slevel;
static int writer(bfdev_log_message_t *m, void *pdata) { writes++; wdata = pdata; slevel = m->level; slen = m->length; CHECK(slen < BFDEV_LOG_BUFF_SIZE, "a message of %zu bytes", slen); memcpy(seen, m->buff, slen + 1); CHECK(!seen[slen], "the message is not terminated at its length"); CHECK_EQ(strlen(seen), slen, "length of the message"); return wret; }
static __attribute__((format(printf, 2, 3))) int via_v(bfdev_log_t *l, const char *fmt, ...) { va_list a; va_start(a, fmt); int r = bfdev_vlog_core(l, fmt, a); va_end(a); return r; }
static void parse(void)
{
    char p[40]; int n = d_u64(30), want = BFDEV_LEVEL_DEFAULT; for (int i = 0; i < n; i++) p[i] = d_chance(2, 3) ? (i & 1 ? "0123456789ax"[d_u64(11)] : 1) : d_range(1, 255); p[n] = 0; char *q = g_alloc(n + 1); memcpy(q, p, n + 1);
    int i = 0; while (q[i] == 1 && q[i + 1]) { if (q[i + 1] >= '0' && q[i + 1] <= '9') want = q[i + 1] - '0'; i += 2; } const char *end = d_bool() ? NULL : q; bool ask = d_chance(3, 4); TRACE("a prefix of %d bytes, %d of them level marks", n, i); CHECK_EQ(bfdev_log_level(q, ask ? &end : NULL), want, "level of the prefix"); if (ask) CHECK_EQ(end - q, i, "end of the prefix"); if (i > 2) pbt_nontrivial();
}
#define bfdev_log_conf cfg
static bfdev_log_t *cfg;
static void message(void)
{
    unsigned def = d_chance(1, 3) ? 8 : d_u64(7), rec = d_chance(1, 3) ? 8 : d_chance(1, 12) ? 1u << d_range(8, 31) | d_u64(3) : d_u64(8), flags = d_u64(3), lvl; char pre[24] = ""; bfdev_log_t *l = g_alloc(sizeof *l + 1); bool console = d_chance(1, 20), deflt = d_chance(1, 10); if (d_bool()) bfdev_log_init(l, def, rec, flags, writer, l + 1); else *l = BFDEV_LOG_INIT(l, def, rec, flags, writer, l + 1); if (flags & 1) CHECK(bfdev_log_color_test(l), "colour flag"); if (console) l->write = NULL;
    size_t n = d_chance(1, 2000) ? d_far(60000, 150000) : d_chance(1, 40) ? d_u64(60000) : d_bool() ? d_u64(40) : 480 + d_u64(40); char *text = g_alloc(n + 1); for (size_t i = 0; i < n; i++) text[i] = "abcdefgh%\n "[(i * 7 + n) % 11]; text[n] = 0; if (n && d_chance(1, 8)) text[0] = 1;
    int marks = d_u64(3), k = 0; lvl = 8; while (marks--) { char c = d_chance(1, 6) ? "cd:/"[d_u64(3)] : '0' + d_u64(9); pre[k++] = 1; pre[k++] = c; if (c >= '0' && c <= '9') lvl = c - '0'; } pre[k] = 0;
    char fmt[64]; int shape = d_u64(3), num = d_srange(-9999, 9999); snprintf(fmt, sizeof fmt, "%s%s", pre, shape == 0 ? "%s" : shape == 1 ? "<%s|%d>" : shape == 2 ? "%.20s%5d" : "plain"); static char want[200000]; if (lvl >= 8) lvl = def; bool pass = lvl <= rec; int o = 0; if (flags & 2) o += sprintf(want + o, "[%s] ", name[lvl]); if (flags & 1) o += sprintf(want + o, "\e[%dm", colour[lvl]); o += shape == 0 ? sprintf(want + o, "%s", text) : shape == 1 ? sprintf(want + o, "<%s|%d>", text, num) : shape == 2 ? sprintf(want + o, "%.20s%5d", text, num) : sprintf(want + o, "plain"); if (flags & 1) o += sprintf(want + o, "\e[0m"); if (o > BFDEV_LOG_BUFF_SIZE - 1) { o = BFDEV_LOG_BUFF_SIZE - 1; if (pass) pbt_class("truncated"); } want[o] = 0;
    bfdev_log_t save = bfdev_log_default, *use = l; if (deflt) { bfdev_log_default = *l; use = NULL; }
    writes = 0; wret = d_srange(-3, 3); slen = 0; char *mo = NULL, *me = NULL; size_t no = 0, ne = 0; FILE *so = stdout, *se = stderr; bool direct = d_bool(); TRACE("level %u (default %u, record %u, flags %u), text of %zu bytes%s", lvl, def, rec, flags, n, console ? ", to the console" : ""); if (console) { stdout = open_memstream(&mo, &no); stderr = open_memstream(&me, &ne); }
    int r = shape == 3 ? (direct ? bfdev_log_core(use, fmt) : via_v(use, fmt)) : direct ? bfdev_log_core(use, fmt, text, num) : via_v(use, fmt, text, num); bfdev_log_default = save;
    if (console) { fclose(stdout); fclose(stderr); stdout = so; stderr = se; bool high = lvl > BFDEV_LEVEL_WARNING; char *got = high ? mo : me; size_t gl = high ? no : ne, rest = high ? ne : no, wl = pass ? o : 0; bool ok = gl == wl && (!wl || !memcmp(got, want, gl)) && !rest; free(mo); free(me); CHECK(ok, "console output of %zu bytes (%zu on the other stream), expected %zu (level %u)", gl, rest, wl, lvl); pbt_class("console"); return; }
    CHECK_EQ(writes, pass, "deliveries"); if (!pass) { CHECK(!r, "result %d of a filtered message", r); pbt_class("filtered"); return; }
    CHECK_EQ(r, wret, "result of the message"); CHECK(wdata == l + 1, "the writer received other data"); CHECK_EQ(slevel, lvl, "level passed to the writer"); CHECK(slen == (size_t)o && !memcmp(seen, want, o), "delivered text of %zu bytes \"%.60s\", expected %d bytes \"%.60s\"", slen, seen, o, want); if (o > 480) pbt_nontrivial();
}
static __attribute__((format(printf, 1, 2))) int via_vm(const char *fmt, ...) { va_list a; va_start(a, fmt); int r = bfdev_vlog(fmt, a); va_end(a); return r; }
/* a source file that defines bfdev_log_fmt puts its own prefix before every message of a level */
#define SAY switch (lv) { case 0: bfdev_log_emerg("m%u", v); break; case 1: bfdev_log_alert("m%u", v); break; case 2: bfdev_log_crit("m%u", v); break; case 3: bfdev_log_err("m%u", v); break; case 4: bfdev_log_warn("m%u", v); break; case 5: bfdev_log_notice("m%u", v); break; case 6: bfdev_log_info("m%u", v); break; case 7: bfdev_log_debug("m%u", v); break; }
static void say(unsigned lv, unsigned v) { SAY }
#undef bfdev_log_fmt
#define bfdev_log_fmt(fmt) "mine: " fmt
static void say_mine(unsigned lv, unsigned v) { SAY }
static void macros(void)
{
    bfdev_log_t l = BFDEV_LOG_INIT(&l, d_u64(8), 8, 0, writer, NULL); cfg = &l; l.record_level = d_u64(8); writes = 0; unsigned lv = d_u64(8), v = d_u64(999), real = lv;
    bool mine = lv < 8 && d_bool(); if (lv < 8) mine ? say_mine(lv, v) : say(lv, v); else { bfdev_log("m%u", v); real = l.default_level; if (d_bool()) { writes = 0; via_vm("m%u", v); } }
    char want[24]; sprintf(want, "%sm%u", mine ? "mine: " : "", v); CHECK_EQ(writes, real <= l.record_level, "deliveries at level %u, recorded up to %u", real, l.record_level); if (writes) { CHECK_EQ(slevel, real, "level"); CHECK(!strcmp(seen, want), "text %s instead of %s", seen, want); }
    writes = 0; int r = bfdev_log_none("\001" "0m%u", v++); CHECK(!writes && !r, "a disabled statement delivered %d messages and returned %d", writes, r);
}
void pbt_case(void) { int k = d_u64(9); if (k < 2) parse(); else if (k == 2) macros(); else message(); }

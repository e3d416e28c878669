#include "pbt.h"
#include <bfdev/once.h>
#include <bfdev/action.h>
#include <bfdev/guards.h>
#include <bfdev/errno.h>
const char *const pbt_id = "C47", *const pbt_rule = "";
/* ---- run once: a site is used up for the life of the process, so the model of a site lives as long */
static int ran, sum, evals; static bool plan_cond; static void body0(void) { ran++; } static void body2(int a, int b) { ran++; sum = a * 1000 + b; }
static bool cond(void) { evals++; return plan_cond; }
/* the condition is a call, an int with only high bits, or a pointer; the body has no or two arguments */
#define SITE(k) \
static bool s0_##k(int a) { return BFDEV_DO_ONCE_ON(cond(), body0); } \
static bool s1_##k(int a) { return BFDEV_DO_ONCE_ON(cond() ? 0x100 << 8 : 0, body2, a, a + 1); } \
static bool s2_##k(int a) { BFDEV_DO_ONCE(body2, a, a + 2); return true; } \
static bool s3_##k(int a) { if (BFDEV_DO_ONCE_DONE(cond() ? "x" : NULL)) { body0(); return true; } return false; }
#define S8(p) SITE(p##0) SITE(p##1) SITE(p##2) SITE(p##3) SITE(p##4) SITE(p##5) SITE(p##6) SITE(p##7)
#define S64(p) S8(p##0) S8(p##1) S8(p##2) S8(p##3) S8(p##4) S8(p##5) S8(p##6) S8(p##7)
S64(a) S64(b) S64(c) S64(d) S64(e) S64(f)
typedef bool (*site_t)(int);
#define R(k) { s0_##k, s1_##k, s2_##k, s3_##k },
#define R8(p) R(p##0) R(p##1) R(p##2) R(p##3) R(p##4) R(p##5) R(p##6) R(p##7)
#define R64(p) R8(p##0) R8(p##1) R8(p##2) R8(p##3) R8(p##4) R8(p##5) R8(p##6) R8(p##7)
static const site_t sites[][4] = { R64(a) R64(b) R64(c) R64(d) R64(e) R64(f) };
enum { NS = sizeof sites / sizeof *sites }; static unsigned char used[NS][4];
static void once_case(void)
{
    int steps = d_range(2, 30), pool[4][2], fresh = 0, idle = 0, again = 0; for (int i = 0; i < 4; i++) { pool[i][0] = d_u64(NS - 1); pool[i][1] = d_u64(3); fresh += !used[pool[i][0]][pool[i][1]]; }
    while (steps--) {
        int *p = pool[d_u64(3)], kind = p[1], a = d_u64(500); plan_cond = d_bool(); ran = evals = 0; sum = -1; unsigned char *u = &used[p[0]][kind]; bool c = kind == 2 ? true : plan_cond, run = c && !*u; TRACE("site %d.%d, condition %d, %s", p[0], kind, c, *u ? "has run" : "has not run");
        bool r = sites[p[0]][kind](a); if (run) *u = 1; CHECK_EQ(ran, run, "executions of the body"); if (kind != 2) CHECK_EQ(evals, 1, "evaluations of the condition"); CHECK_EQ(r, kind == 3 ? run : c, "result of the site"); if (run && (kind == 1 || kind == 2)) CHECK_EQ(sum, a * 1000 + a + (kind == 1 ? 1 : 2), "arguments of the body"); if (!c) idle++; if (c && !run) again++;
    }
    if (fresh) pbt_class("fresh site"); if (fresh && idle && again) pbt_nontrivial();
}
/* ---- actions */
static const void *got; static int who, result; static int fa(void *d) { who = 1; ran++; got = d; return result; } static int fb(void *d) { who = 2; ran++; got = d; return result; } static int fc(void *d) { who = 3; ran++; got = d; return result; }
static void action_case(void)
{
    static const bfdev_action_func_t f[] = { fa, fb, fc }; bfdev_action_t *a = g_alloc(sizeof *a), *b = g_alloc(sizeof *b); struct { int f; const void *d; } m[2] = {{0}}; bfdev_action_init(a, NULL, NULL); *b = BFDEV_ACTION_INIT(fb, "init"); m[1].f = 2; m[1].d = b->data; int steps = d_range(2, 25), rebound = 0, cleared = 0;
    while (steps--) {
        int x = d_u64(1); bfdev_action_t *t = x ? b : a; const void *d = d_chance(1, 5) ? NULL : (void *)(uintptr_t)d_u64(1000);
        switch (d_u64(4)) {
            case 0: m[x].f = d_range(1, 3); m[x].d = d; if (d_bool()) bfdev_action_init(t, f[m[x].f - 1], d); else { BFDEV_DEFINE_ACTION(n, f[m[x].f - 1], d); *t = n; } TRACE("bind %d to %d", x, m[x].f); break;
            case 1: TRACE("rebind data of %d", x); bfdev_action_update(t, d); m[x].d = d; rebound += !!m[x].f; break;
            case 2: if (d_bool()) { TRACE("clear %d", x); bfdev_action_clear(t); m[x].f = 0; cleared++; break; } __attribute__((fallthrough));
            default: { ran = who = 0; got = NULL; result = d_srange(-5, 5); TRACE("call %d", x); int r = bfdev_action_call(t); CHECK_EQ(ran, !!m[x].f, "calls of the function"); CHECK_EQ(who, m[x].f, "function that was called"); if (m[x].f) { CHECK(got == m[x].d, "the function received other data"); CHECK(r == result, "result %d of a function that returned %d", r, result); } else { CHECK(r == -BFDEV_ENODATA, "result %d of an action without function", r); pbt_class("absent"); } }
        }
    }
    if (rebound && cleared) pbt_nontrivial();
}
/* ---- scope guards: each object counts its cleanups */
typedef struct { int freed, order; } obj_t; static obj_t *ob; static int nob, clock_;
static obj_t *make(void) { obj_t *o = &ob[nob++]; memset(o, 0, sizeof *o); return o; } static void drop(obj_t *o) { o->freed++; o->order = ++clock_; }
BFDEV_CLEAN_TEMPLATE(obj, obj_t *, if (_T) drop(_T))
static int handles[64]; BFDEV_CLEAN_TEMPLATE(handle, int, if (_T >= 0) handles[_T]++)
static obj_t *g_plain(int k) { bfdev_clean(obj) obj_t *a = make(); CHECK(!a->freed, "freed while in scope"); if (k == 1) return NULL; bfdev_clean(obj) obj_t *b = make(); if (k == 2) return NULL; { bfdev_clean(obj) obj_t *c = make(); if (k == 3) return NULL; } CHECK_EQ(ob[nob - 1].freed, 1, "cleanups at the end of the inner scope"); return NULL; }
static obj_t *g_out(int k) { bfdev_clean(obj) obj_t *a = make(); bfdev_clean(obj) obj_t *b = make(); if (k == 0) bfdev_clean_return(a); if (k == 1) bfdev_clean_return(b); obj_t *x = bfdev_clean_lasting(b); CHECK(x == &ob[nob - 1] && !b, "handing out returned another object"); if (k == 2) { drop(x); return NULL; } return x; }
static int g_loop(int n, int brk, int cont) { int made = 0; for (int i = 0; i < n; i++) { bfdev_clean(obj) obj_t *a = make(); made++; if (i == cont) continue; if (i == brk) break; bfdev_clean(handle) int h = i; (void)h; } return made; }
static void g_replace(void) { bfdev_clean(obj) obj_t *a = make(); obj_t *old = bfdev_clean_lasting(a); a = make(); drop(old); }
static void guard_case(void)
{
    int steps = d_range(1, 12), kinds = 0; ob = g_alloc(sizeof *ob * 400);
    while (steps--) {
        nob = clock_ = 0; int w = d_u64(3), k = d_u64(3); kinds |= 1 << w; TRACE("guard %d.%d", w, k);
        switch (w) {
            case 0: g_plain(k); int n = k == 1 ? 1 : k == 2 ? 2 : 3; CHECK_EQ(nob, n, "objects"); for (int i = 0; i < n; i++) CHECK_EQ(ob[i].freed, 1, "cleanups of object %d", i); if (n > 1) CHECK(ob[0].order > ob[1].order, "cleanups run in order of declaration"); break;
            case 1: { obj_t *o = g_out(k); CHECK_EQ(nob, 2, "objects"); CHECK(o == (k == 0 ? &ob[0] : k == 2 ? NULL : &ob[1]), "another object was handed out"); for (int i = 0; i < 2; i++) CHECK_EQ(ob[i].freed, o != &ob[i], "cleanups of object %d", i); break; }
            case 2: { int n = d_range(0, 40), b = d_u64(45), c = d_u64(45); memset(handles, 0, sizeof handles); int made = g_loop(n, b, c); for (int i = 0; i < made; i++) { CHECK_EQ(ob[i].freed, 1, "cleanups of object %d", i); CHECK_EQ(handles[i], i != c && i != b, "cleanups of handle %d", i); } CHECK_EQ(nob, made, "objects"); break; }
            default: g_replace(); CHECK_EQ(ob[0].freed, 1, "cleanups of the replaced object"); CHECK_EQ(ob[1].freed, 1, "cleanups of the replacing object"); break;
        }
    }
    if (kinds & (kinds - 1)) pbt_nontrivial();
}
void pbt_case(void) { switch (d_u64(2)) { case 0: once_case(); break; case 1: action_case(); break; default: guard_case(); } }

#include "pbt.h"
#include <bfdev/allocator.h>
const char *const pbt_id = "C48", *const pbt_rule = "";
/* Tables with any subset of operations; each operation records what it was given. Everything is backed by the
 * platform, so that blocks may move between an allocator's own operations and the platform's. */
extern size_t __sanitizer_get_allocated_size(const volatile void *) __attribute__((weak)); extern int __sanitizer_get_ownership(const volatile void *) __attribute__((weak));
enum { TAB = 4, ALC = 3, BLK = 16, MAXB = 1 << 16 };
static struct rec { int calls, tab, op; size_t size; const void *block; void *pdata; void *ret; } R; static bool deny;
static void note(int tab, int op, size_t size, const void *b, void *pdata) { R.calls++; R.tab = tab; R.op = op; R.size = size; R.block = b; R.pdata = pdata; }
static void *gets(void *b, size_t n) { return R.ret = deny || n > MAXB ? NULL : b ? realloc(b, n) : malloc(n); }
#define MAKE(t) \
    static void *al##t(size_t n, void *p) { note(t, 0, n, NULL, p); return gets(NULL, n); } static void *zl##t(size_t n, void *p) { note(t, 1, n, NULL, p); void *q = gets(NULL, n); if (q) memset(q, 0, n); return q; } \
    static void *rl##t(void *b, size_t n, void *p) { note(t, 2, n, b, p); return gets(b, n); } static void fr##t(void *b, void *p) { note(t, 3, 0, b, p); free(b); }
MAKE(0) MAKE(1) MAKE(2) MAKE(3)
static bfdev_alloc_ops_t full[TAB] = { { al0, zl0, rl0, fr0 }, { al1, zl1, rl1, fr1 }, { al2, zl2, rl2, fr2 }, { al3, zl3, rl3, fr3 } };
static struct blk { uint8_t *p; size_t n; uint8_t fill; } B[BLK]; static int nb;
void pbt_case(void)
{
    static bfdev_alloc_ops_t tab[TAB]; static bfdev_alloc_t alc[ALC]; bool full_tab[TAB]; char pd[8]; nb = 0; deny = false;
    for (int t = 0; t < TAB; t++) { unsigned m = d_u64(15); bool z = d_bool(); tab[t] = (bfdev_alloc_ops_t){0}; bfdev_alloc_ops_t w = { m & 1 ? full[t].alloc : NULL, m & 2 ? full[t].zalloc : NULL, m & 4 ? full[t].realloc : NULL, m & 8 ? full[t].free : NULL }; if (z) bfdev_alloc_ops_init(&tab[t], w.alloc, w.zalloc, w.realloc, w.free); else tab[t] = BFDEV_ALLOC_OPS_INIT(w.alloc, w.zalloc, w.realloc, w.free); }
    /* table 3 is what the default table is replaced with; the model follows pointers of its own */
    const bfdev_alloc_ops_t *ops[ALC + 1]; void *pdata[ALC + 1]; bfdev_alloc_ops_t deft = {0}; bfdev_alloc_default_ops = deft; bfdev_alloc_default = (bfdev_alloc_t){0}; ops[ALC] = NULL; pdata[ALC] = NULL;
    for (int a = 0; a < ALC; a++) { int t = d_u64(TAB - 1); ops[a] = t == 3 ? NULL : &tab[t]; pdata[a] = d_bool() ? &pd[a] : NULL; if (d_bool()) bfdev_alloc_init(&alc[a], ops[a], pdata[a]); else alc[a] = BFDEV_ALLOC_INIT(ops[a], pdata[a]); }
    int steps = d_range(3, 60), custom = 0, platform = 0, refusals = 0, moved = 0;
    while (steps--) {
        if (d_chance(1, 8)) { switch (d_u64(3)) { case 0: deft = d_bool() ? tab[3] : (bfdev_alloc_ops_t){0}; bfdev_alloc_default_ops = deft; TRACE("default table replaced"); break; case 1: ops[ALC] = d_bool() ? &tab[d_u64(TAB - 2)] : NULL; bfdev_alloc_default.ops = ops[ALC]; TRACE("default allocator's table replaced"); break; default: pdata[ALC] = d_bool() ? &pd[6] : NULL; bfdev_alloc_default.pdata = pdata[ALC]; } continue; }
        int a = d_u64(ALC); const bfdev_alloc_t *A = a == ALC ? d_bool() ? NULL : &bfdev_alloc_default : &alc[a]; const bfdev_alloc_ops_t *o = ops[a] ?: &deft; int t = ops[a] ? ops[a] - tab : 3;
        int k = d_u64(6); bool array = k == 1 || k == 3 || k == 5; struct blk *b = NULL; if (k >= 4 && nb && (nb == BLK || !d_chance(1, 8))) b = &B[d_u64(nb - 1)]; if (k < 4 && nb == BLK) k = 6, b = &B[d_u64(nb - 1)], array = false;
        /* the request */
        size_t nr = d_chance(1, 10) ? 0 : d_size(2000), sz = 1; bool over = false;
        if (array) { sz = d_chance(1, 10) ? 0 : d_size(64); if (d_chance(1, 4)) { nr = d_edge64(); sz = d_edge64(); if (d_bool()) { sz = 1ull << d_u64(63); nr = (d_bool() ? 1ull << d_u64(63) : (0 - sz) / sz) + d_u64(2); } if (d_bool()) { size_t w = nr; nr = sz; sz = w; } } }
        else if (k < 6 && d_chance(1, 12)) nr = d_edge64();
        __uint128_t full128 = (__uint128_t)nr * sz; over = full128 > SIZE_MAX; size_t bytes = full128;
        /* what must happen: op -1 nothing */
        int op = k < 2 ? 0 : k < 4 ? 1 : k < 6 ? 2 : 3; bool frees = false; if (k == 6) { if (!b) op = -1; else frees = true; } else if (over) op = -1; else if (op == 2 && b && !bytes) { op = 3; frees = true; } else if (!bytes) op = -1; else if (op == 2 && !b) op = 0;
        bool own = op >= 0 && (op == 0 ? !!o->alloc : op == 1 ? !!o->zalloc : op == 2 ? !!o->realloc : !!o->free); if (op >= 0 && op != 3 && !own && bytes > MAXB) continue;
        deny = own && d_chance(1, 8); R = (struct rec){0}; void *old = b ? b->p : NULL, *p = NULL; size_t was = b ? b->n : 0;
        static const char *nm[] = { "malloc", "malloc_array", "zalloc", "zalloc_array", "realloc", "realloc_array", "free" }; TRACE("allocator %d: %s %s(%zu,%zu)%s -> op %d of %s", a, nm[k], b ? "block" : "", nr, sz, deny ? " denied" : "", op, op < 0 ? "nobody" : own ? "table" : "platform");
        switch (k) { case 0: p = bfdev_malloc(A, nr); break; case 1: p = bfdev_malloc_array(A, nr, sz); break; case 2: p = bfdev_zalloc(A, nr); break; case 3: p = bfdev_zalloc_array(A, nr, sz); break; case 4: p = bfdev_realloc(A, old, nr); break; case 5: p = bfdev_realloc_array(A, old, nr, sz); break; default: bfdev_free(A, old); }
        CHECK_EQ(R.calls, own, "operations of allocators called by %s", nm[k]);
        if (own) { custom++; CHECK(R.tab == t && R.op == op, "%s went to operation %d of table %d instead of operation %d of table %d", nm[k], R.op, R.tab, op, t); CHECK(R.pdata == pdata[a], "%s handed on the wrong private data", nm[k]); if (op != 3) CHECK_EQ(R.size, bytes, "bytes requested by %s", nm[k]); if (op >= 2) CHECK(R.block == old, "%s handed on the wrong block", nm[k]); if (op != 3) CHECK(p == R.ret, "%s does not return the allocator's block", nm[k]); }
        else if (op >= 0) platform++; if (op < 0 || op == 3) { CHECK(!p, "%s returns a block", nm[k]); if (op < 0) { refusals++; if (over) pbt_class("unrepresentable array"); } }
        if (frees) { CHECK(!__sanitizer_get_ownership || !__sanitizer_get_ownership(old), "%s did not give the block back", nm[k]); *b = B[--nb]; continue; } if (op < 0 || op == 3) { if (b) for (size_t i = 0; i < was; i++) CHECK(b->p[i] == b->fill, "a refused request changed the block"); continue; }
        if (own && deny || bytes > MAXB) { continue; }
        CHECK(p, "%s fails", nm[k]); if (!own && __sanitizer_get_allocated_size) CHECK_EQ(__sanitizer_get_allocated_size(p), bytes, "size of the block"); uint8_t *c = p;
        if (op == 2) { moved++; for (size_t i = 0; i < (was < bytes ? was : bytes); i++) CHECK(c[i] == b->fill, "byte %zu was lost by a resize", i); } else { if (op == 1) for (size_t i = 0; i < bytes; i++) CHECK(!c[i], "byte %zu is not zero", i); b = &B[nb++]; }
        *b = (struct blk){ p, bytes, d_u64(254) + 1 }; memset(p, b->fill, bytes);
    }
    deny = false; bfdev_alloc_default = (bfdev_alloc_t){0}; bfdev_alloc_default_ops = (bfdev_alloc_ops_t){0}; while (nb) bfdev_free(NULL, B[--nb].p);
    if (custom && platform && (moved || refusals)) pbt_nontrivial();
}

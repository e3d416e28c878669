#include "ta.h"
#include <bfdev/btree.h>
const char *const pbt_id = "C18", *const pbt_rule = "";
#define U 700
#define KM 40 /* most words of a key */
static uintptr_t val[U + 1]; static int n, universe; static ta_t ta; static bfdev_btree_layout_t L, *lay; static unsigned kl; static int keymode; static bfdev_btree_root_t T; static bool clashop, removeop; static int veto, clashes; static void *clash_seen, *clash_new;
static void mk(int i, uintptr_t *k)
{
    unsigned words = kl, kl; for (kl = words; kl > 3; kl--) *k++ = keymode == 1 ? UINTPTR_MAX : 7 + kl;
    uintptr_t base = keymode == 0 ? 0 : keymode == 1 ? UINTPTR_MAX - U : keymode == 2 ? 0x602000000000ul : 0, x = keymode == 3 ? (uintptr_t)i * (UINTPTR_MAX / U) : base + i;
    if (kl == 1) k[0] = x; else if (kl == 2) { k[0] = i / 5 ? base + i / 5 : 0; k[1] = i % 5 + 1 + (keymode == 3 ? UINTPTR_MAX - 9 : 0); } else { k[0] = i / 50; k[1] = i / 7 % 50 ? base + i / 7 : base + i / 7; k[2] = i % 7 + 1; }
}
static int unk(const uintptr_t *k) { uintptr_t t[KM]; for (int i = 1; i <= universe; i++) { mk(i, t); if (!memcmp(t, k, kl * sizeof *k)) return i; } return 0; }
static void *x_alloc(bfdev_btree_root_t *r) { CHECK(r == &T && r->pdata == &ta, "allocation hook received another root"); return bfdev_btree_alloc(r); }
static void x_free(bfdev_btree_root_t *r, void *b) { CHECK(r == &T, "the release hook received another tree"); bfdev_btree_free(r, b); }
static int x_clash(bfdev_btree_root_t *r, void *old, void *newv) { CHECK(r == &T, "the conflict handler received another tree"); clashes++; clash_seen = old; clash_new = newv; return -77; }
static void *x_remove(bfdev_btree_root_t *r, void *v) { CHECK(r == &T, "the removal hook received another tree"); clash_seen = v; return veto ? (void *)&veto : NULL; }
static uintptr_t key_[KM], tkey_[KM];
static void fullwalk(void)
{
    int i, c = 0, kind = d_u64(11); void *v, *t; uintptr_t k[KM], tk[KM];
    #define VIS(dir) do { int e = unk(k); CHECK(e, "iteration delivered a key that was never inserted"); CHECK(e == i, "iteration delivered key %d, expected %d", e, i); CHECK((uintptr_t)v == val[e], "iteration delivered another value for key %d", e); do i += dir; while (i >= 1 && i <= universe && !val[i]); c++; } while (0)
    #define DOWN() for (i = universe; i && !val[i]; i--)
    #define UP() for (i = 1; i <= universe && !val[i]; i++)
    int start = 0; if (n && kind >= 4) { start = d_range(1, universe); while (!val[start]) start = start % universe + 1; mk(start, k); v = (void *)val[start]; }
    switch (kind) {
    case 0: DOWN(); bfdev_btree_for_each(&T, k, v) VIS(-1); break;
    case 1: UP(); bfdev_btree_for_each_reverse(&T, k, v) VIS(1); break;
    case 2: DOWN(); bfdev_btree_for_each_safe(&T, k, v, tk, t) VIS(-1); break;
    case 3: UP(); bfdev_btree_for_each_reverse_safe(&T, k, v, tk, t) VIS(1); break;
    case 4: if (!n) return; i = start; bfdev_btree_for_each_from(&T, k, v) VIS(-1); CHECK(!i, "iteration from a key ended before key %d", i); return;
    case 5: if (!n) return; i = start; bfdev_btree_for_each_reverse_from_safe(&T, k, v, tk, t) VIS(1); CHECK(i > universe, "reverse iteration from a key ended before key %d", i); return;
    case 6: if (!n) return; i = start - 1; while (i && !val[i]) i--; bfdev_btree_for_each_continue(&T, k, v) VIS(-1); CHECK(!i, "iteration after a key ended before key %d", i); return;
    case 8: if (!n) return; i = start; bfdev_btree_for_each_reverse_from(&T, k, v) VIS(1); CHECK(i > universe, "reverse iteration from a key ended before key %d", i); return;
    case 9: if (!n) return; i = start; bfdev_btree_for_each_from_safe(&T, k, v, tk, t) VIS(-1); CHECK(!i, "safe iteration from a key ended before key %d", i); return;
    case 10: if (!n) return; i = start - 1; while (i && !val[i]) i--; bfdev_btree_for_each_continue_safe(&T, k, v, tk, t) VIS(-1); CHECK(!i, "safe iteration after a key ended before key %d", i); return;
    case 11: if (!n) return; i = start + 1; while (i <= universe && !val[i]) i++; bfdev_btree_for_each_reverse_continue_safe(&T, k, v, tk, t) VIS(1); CHECK(i > universe, "safe iteration before a key ended before key %d", i); return;
    default: if (!n) return; i = start + 1; while (i <= universe && !val[i]) i++; bfdev_btree_for_each_reverse_continue(&T, k, v) VIS(1); CHECK(i > universe, "iteration before a key ended before key %d", i); return; }
    CHECK(c == n, "iteration visited %d of %d keys", c, n);
}
static void probe(void)
{
    int i = d_range(1, universe), j; uintptr_t k[KM], q[KM]; mk(i, k); void *v = bfdev_btree_lookup(&T, k); CHECK((uintptr_t)v == val[i], "lookup of key %d: got %p, expected %#lx (%d keys)", i, v, val[i], n);
    memcpy(q, k, sizeof q); v = bfdev_btree_next(&T, q); for (j = i - 1; j && !val[j]; j--); CHECK((uintptr_t)v == (j ? val[j] : 0) && (!j || unk(q) == j), "the key after %skey %d is %d, expected %d", val[i] ? "" : "absent ", i, v ? unk(q) : 0, j);
    memcpy(q, k, sizeof q); v = bfdev_btree_prev(&T, q); for (j = i + 1; j <= universe && !val[j]; j++); if (j > universe) j = 0; CHECK((uintptr_t)v == (j ? val[j] : 0) && (!j || unk(q) == j), "the key before %skey %d is %d, expected %d", val[i] ? "" : "absent ", i, v ? unk(q) : 0, j);
    v = bfdev_btree_first(&T, q); for (j = universe; j && !val[j]; j--); CHECK((uintptr_t)v == (j ? val[j] : 0) && (!j || unk(q) == j), "first key is %d, expected %d", v ? unk(q) : 0, j);
    v = bfdev_btree_last(&T, q); for (j = 1; j <= universe && !val[j]; j++); if (j > universe) j = 0; CHECK((uintptr_t)v == (j ? val[j] : 0) && (!j || unk(q) == j), "last key is %d, expected %d", v ? unk(q) : 0, j);
}
static int rel; static uintptr_t relsum; static void release(void *v, void *p) { CHECK(p == &rel, "the release callback received the wrong pointer"); rel++; relsum += (uintptr_t)v; }
/* tens of thousands of keys */
static void huge(void)
{
    int N = d_range(20000, 70000), k = 0; uint64_t seed = d_u64(UINT64_MAX), mul = d_u64(UINT64_MAX) | 1; int mode = d_u64(2), deepest; bool *in = g_alloc(N); memset(in, 0, N); TRACE("%d keys, order %d", N, mode);
    #define HK(i) ((uintptr_t[KM]){ kl > 1 ? (i) / 1000 : (i) * step + 1, kl > 2 ? (i) / 10 % 100 + 1 : (i) % 1000 + 1, (i) % 10 + 1 })
    uintptr_t step = d_bool() ? 1 : 0x1000001; uintptr_t key[KM], got[KM]; int *o = g_alloc(N * sizeof *o); for (int i = 0; i < N; i++) o[i] = mode == 1 ? N - 1 - i : i; if (mode == 2) for (int i = N - 1; i; i--) { int j = pbt_mix(seed + i) % (i + 1), t = o[i]; o[i] = o[j]; o[j] = t; }
    for (int i = 0; i < N; i++) { memcpy(key, HK(o[i]), sizeof key); int r = bfdev_btree_insert(&T, key, (void *)(uintptr_t)(o[i] + 1)); CHECK(r == 0, "inserting key %d as number %d returned %d", o[i], i, r); in[o[i]] = true; k++; } deepest = T.height;
    for (int r = 3; r--; ) { int at = N, c = 0; void *v; bfdev_btree_for_each(&T, key, v) { do at--; while (at >= 0 && !in[at]); CHECK(at >= 0 && (uintptr_t)v == at + 1, "the iteration delivered value %lu, expected %d", (unsigned long)v, at + 1); CHECK(!memcmp(key, HK(at), kl * sizeof *key), "the iteration delivered another key with value %d", at + 1); c++; } CHECK(c == k, "the iteration visits %d of %d keys", c, k); c = 0; bfdev_btree_for_each_reverse(&T, key, v) CHECK(c++ < k, "endless"); CHECK(c == k, "the reverse iteration visits %d of %d keys", c, k);
        for (int i = 0; i < N; i++) { memcpy(key, HK(i), sizeof key); v = bfdev_btree_lookup(&T, key); CHECK((uintptr_t)v == (in[i] ? i + 1 : 0), "lookup of key %d among %d returned %p", i, k, v); }
        for (int j = 0; j < N / 2 && r; j++) { int i = mode == 2 ? o[(j + (2 - r) * (N / 2)) % N] : mode == 1 ? j + (2 - r) * (N / 2) : N - 1 - j - (2 - r) * (N / 2); memcpy(key, HK(i), sizeof key); v = bfdev_btree_remove(&T, key); CHECK((uintptr_t)v == (in[i] ? i + 1 : 0), "removing key %d of %d returned %p", i, k, v); if (in[i]) in[i] = false, k--; } }
    rel = 0; relsum = 0; bfdev_btree_release(&T, release, &rel); CHECK(rel == k, "releasing %d keys released %d", k, rel); ta_check_empty(&ta, "released tree"); if (deepest > 4) pbt_class("five or more levels"); pbt_class("tens of thousands of keys"); pbt_nontrivial();
}
void pbt_case(void)
{
    static bfdev_btree_ops_t ops; ta_init(&ta); bool big = d_chance(1, 30), huge_node = false; universe = big ? U : d_range(10, 80); memset(val, 0, sizeof val); n = 0; keymode = d_u64(3);
    switch (d_u64(5)) { case 0: lay = &bfdev_btree_layout32; break; case 1: lay = &bfdev_btree_layout64; break; case 2: lay = &bfdev_btree_layoutptr; break; default: kl = d_chance(1, 25) ? d_range(4, KM) : d_range(1, 3); if (kl > 3) pbt_class("long keys"); L.keylen = kl; L.keynum = d_chance(1, 15) ? d_range(10, 600) : d_range(4, 9); L.ptrindex = kl * L.keynum; L.nodesize = (kl + 1) * L.keynum * sizeof(uintptr_t); lay = &L; huge_node = L.keynum > 60 && d_bool(); if (huge_node) big = true, universe = U, pbt_class("hundreds of keys per node"); pbt_class("own layout"); }
    kl = lay->keylen; clashop = d_chance(1, 3); removeop = d_chance(1, 4); veto = 0; ops = (bfdev_btree_ops_t){ .alloc = d_bool() ? x_alloc : bfdev_btree_alloc, .free = d_bool() ? x_free : bfdev_btree_free, .find = bfdev_btree_key_find, .clash = clashop ? x_clash : NULL, .remove = removeop ? x_remove : NULL };
    if (d_bool()) bfdev_btree_init(&T, lay, &ops, &ta); else T = BFDEV_BTREE_INIT(lay, &ops, &ta); T.alloc = &ta.alloc;
    if (kl < 4 && d_chance(1, 10000)) { huge(); return; }
    int mode = d_u64(2), cursor = d_range(1, universe), insw = d_range(2, 8), phase = 0, deepest = 0, dels = 0, vmode = d_u64(2);
    for (int k = huge_node ? d_range(600, 2500) : big ? d_range(300, 1200) : d_range(2, 120); k--; ) {
        if (big && d_chance(1, 100)) insw = d_range(1, 9);
        int op = d_u64(10), i = mode == 0 ? d_range(1, universe) : (cursor = (cursor + (mode == 1 ? 0 : universe - 2)) % universe + 1); if (mode && d_chance(1, 8)) i = d_range(1, universe); uintptr_t key[KM], nv; mk(i, key);
        uintptr_t kt[KM]; mk(d_range(1, universe), kt); nv = vmode == 0 ? pbt_mix(i * 977 + k) | 1 : vmode == 1 ? kt[kl - 1] : key[kl - 1]; if (!nv) nv = 1; uintptr_t saved[KM]; memcpy(saved, key, sizeof key);
        bool inject = d_chance(1, 12); if (inject) ta_fail_in(&ta, d_range(1, 3)); else ta_ok(&ta); size_t live = ta.live;
        if (op < insw) {
            bool nul = d_chance(1, 40); TRACE("insert key %d%s", i, nul ? " without value" : ""); clashes = 0; int r = bfdev_btree_insert(&T, key, nul ? NULL : (void *)nv);
            if (nul) CHECK(r == -BFDEV_EINVAL, "inserting no value returned %d", r); else if (r == -BFDEV_ENOMEM) { CHECK(ta.failed && !val[i], "insertion reported an allocation failure that did not happen"); pbt_class("allocation failure"); }
            else if (val[i]) { if (clashop) CHECK(r == -77 && clashes == 1 && clash_seen == (void *)val[i] && clash_new == (void *)nv, "inserting present key %d: the conflict handler was not asked exactly once (returned %d)", i, r); else CHECK(r == -BFDEV_EALREADY, "inserting present key %d returned %d", i, r); pbt_class("conflict"); }
            else { CHECK(r == 0 && !clashes, "inserting absent key %d returned %d", i, r); val[i] = nv; n++; }
        } else if (op == 9) { bool nul = d_chance(1, 8); TRACE("update key %d%s", i, nul ? " to no value" : ""); int r = bfdev_btree_update(&T, key, nul ? NULL : (void *)nv); int x = nul ? -BFDEV_EINVAL : val[i] ? 0 : -BFDEV_ENOENT; if (nul) CHECK(r != 0, "a key was updated to no value"); else CHECK(r == x, "updating key %d returned %d, expected %d", i, r, x); if (!nul && val[i]) val[i] = nv; CHECK(live == ta.live, "updating changed the memory in use"); }
        else if (op == 10 && n && d_chance(1, 6)) { /* deletion during safe iteration */
            ta_ok(&ta); uint64_t r = d_u64(UINT64_MAX); void *v, *t; uintptr_t a[KM], b[KM]; int c = 0, total = n, e; veto = 0; TRACE("delete some of %d keys while iterating", n); bool rev = d_bool();
            #define BODY { e = unk(a); CHECK(e && val[e] == (uintptr_t)v, "safe iteration delivered a wrong key or value"); c++; if (pbt_mix(r + e) & 1) { void *d = bfdev_btree_remove(&T, a); CHECK((uintptr_t)d == val[e], "removing key %d during iteration returned another value", e); val[e] = 0; n--; dels++; } }
            if (rev) bfdev_btree_for_each_reverse_safe(&T, a, v, b, t) BODY else bfdev_btree_for_each_safe(&T, a, v, b, t) BODY
            CHECK(c == total, "deletion-safe iteration visited %d of %d keys", c, total); pbt_class("deletion while iterating"); fullwalk();
        } else { veto = removeop && d_chance(1, 3); TRACE("remove key %d%s", i, veto ? " (vetoed)" : ""); clash_seen = NULL; void *v = bfdev_btree_remove(&T, key);
            if (val[i] && veto) CHECK(v == &veto, "a vetoed removal of key %d did not return the hook's answer", i); else { CHECK((uintptr_t)v == val[i], "removing key %d returned %p, expected %#lx", i, v, val[i]); if (removeop && val[i]) CHECK(clash_seen == (void *)val[i], "the removal hook saw another value"); if (val[i]) { n--; dels++; val[i] = 0; } } veto = 0; }
        CHECK(!memcmp(saved, key, kl * sizeof *key), "the caller's key was modified"); ta_ok(&ta); if (!big || d_chance(1, 8)) probe(); if (!big ? d_chance(1, 3) : d_chance(1, 60)) fullwalk(); if (T.height > deepest) deepest = T.height;
        if (d_chance(1, huge_node ? 3000 : 200)) { TRACE("release %d keys", n); rel = 0; relsum = 0; uintptr_t s = 0; for (int j = 1; j <= universe; j++) s += val[j]; bfdev_btree_release(&T, release, &rel); CHECK(rel == n && relsum == s, "releasing %d keys released %d", n, rel); memset(val, 0, sizeof val); n = 0; ta_check_empty(&ta, "released tree"); }
    }
    if (deepest > 2) pbt_class("three or more levels"); rel = 0; relsum = 0; uintptr_t s = 0; for (int j = 1; j <= universe; j++) s += val[j]; bool cb = d_chance(7, 8); TRACE("release %d keys", n); bfdev_btree_release(&T, cb ? release : NULL, &rel); if (cb) CHECK(rel == n && relsum == s, "releasing %d keys released %d", n, rel); ta_check_empty(&ta, "released tree");
    if (deepest > 1 && dels) pbt_nontrivial();
}

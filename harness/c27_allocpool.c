#include "pbt.h"
#include <bfdev/allocpool.h>
#include <sys/mman.h>
#include <unistd.h>
const char *const pbt_id = "C27", *const pbt_rule = "";
#define NB 80
typedef struct { uint8_t *p; size_t n; uint8_t v; bool live; } blk_t;
/* a pool of up to 2^40 bytes; nothing behind the addresses is touched */
static void vast(void)
{
    static uint8_t *A; enum { SH = 40 }; if (!A) { A = mmap(NULL, 1ul << SH, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (A == MAP_FAILED) { A = NULL; return; } }
    if (d_chance(1, 3)) { /* very many blocks at a time */
        bfdev_allocpool_t P; size_t size = 1ul << 33; bfdev_allocpool_init(&P, A, size); static struct { uint8_t *p; size_t w; } at[6 * 140000]; unsigned long live = 0;
        for (int k = d_range(1, 6); k--; ) {
            unsigned long n = d_chance(1, 30) ? d_far(60000, 140000) : d_chance(1, 4) ? d_range(200, 3000) : d_u64(600); uint64_t step = d_u64(63); TRACE("%lu live, %lu more", live, n);
            for (unsigned long i = 0; i < n; i++) { size_t w = 1 + (i * 7 + step) % 40; uint8_t *p = bfdev_allocpool_alloc(&P, w, 0); CHECK(p, "a request of %zu bytes was refused although it fits", w); CHECK(!live || p >= at[live - 1].p + at[live - 1].w, "a new block overlaps one handed out before"); CHECK(p >= A && p + w <= A + size && (uintptr_t)p % 8 == 0, "block outside the pool or misaligned"); at[live].p = p; at[live++].w = w; }
            if (!live) continue; unsigned long f = d_chance(1, 3) ? live : d_bool() ? live - 1 : d_u64(live); TRACE("free %lu of %lu", f, live);
            for (unsigned long i = 0; i < f; i++) bfdev_allocpool_free(&P, at[--live].p); if (live > 256) pbt_class("more than 256 blocks at a time"); pbt_mix(live);
        }
        pbt_nontrivial(); return;
    }
    size_t size = (1ul << d_range(31, SH)) - d_u64(100), last = 0; bfdev_allocpool_t P; bfdev_allocpool_init(&P, A, size); int n = 0; uint8_t *blk[40];
    for (int k = d_range(1, 30); k--; ) { if (n && d_chance(1, 6)) { TRACE("free one"); bfdev_allocpool_free(&P, blk[--n]); if (!n) last = 0; continue; } size_t want = d_bool() ? d_edge(SH) : size - last - d_u64(40) * 8, al = d_bool() ? 8ul << d_u64(33) : 0, mx = al > 8 ? al : 8, st = (((uintptr_t)A + last + mx - 1) & -mx) - (uintptr_t)A; bool fits = want && st <= size && want <= size - st; TRACE("alloc %zu aligned to %zu, %zu used of %zu", want, al, last, size); uint8_t *p = bfdev_allocpool_alloc(&P, want, al);
        if (!p) { CHECK(!fits, "a request of %zu bytes aligned to %zu was refused although it fits", want, al); continue; } CHECK(p >= A + last, "a new block overlaps one handed out before"); CHECK(p <= A + size && want <= (size_t)(A + size - p), "a block of %zu bytes at offset %td of a pool of %zu", want, p - A, size); CHECK((uintptr_t)p % mx == 0, "a block at %p is not aligned to %zu", p, mx); blk[n++] = p; last = p - A + want; }
    pbt_class("vast pool"); pbt_nontrivial();
}
void pbt_case(void)
{
    if (d_chance(1, 100)) { vast(); return; }
    static blk_t b[NB]; int nb = 0, live = 0, cycles = 0; size_t size = d_chance(1, 15000) ? d_range(60000, 200000) : d_chance(1, 10) ? d_u64(16) : d_range(16, 3000); uint8_t *raw = g_alloc(size + 64); size_t off = d_u64(63); uint8_t *R = raw + off; memset(raw, 0x77, size + 64);
    bfdev_allocpool_t P; switch (d_u64(2)) { case 0: bfdev_allocpool_init(&P, R, size); break; case 1: P = BFDEV_ALLOCPOOL_INIT(R, size); break; default: { BFDEV_DEFINE_ALLOCPOOL(x, R, size); P = x; } } size_t high = 0; uint8_t *top = R;
    for (int k = d_range(1, 80); k--; ) {
        int op = d_u64(9);
        if (op < 6) { if (nb == NB) continue; size_t n = d_chance(1, 8) ? (d_bool() ? SIZE_MAX - d_u64(3000) : d_edge64()) : d_chance(1, 3) ? size - (top - R) - d_u64(20) : size > 60000 && d_chance(1, 4) ? d_u64(size / 2) : d_u64(100), al = d_chance(1, 10) ? 1ul << d_u64(63) : d_bool() ? 1ul << d_u64(8) : 0; TRACE("alloc %zu aligned to %zu, %d outstanding, %td used of %zu", n, al, live, top - R, size); uint8_t *p = bfdev_allocpool_alloc(&P, n, al);
            if (!n) CHECK(!p, "an empty request returned a block"); size_t mx = al > 8 ? al : 8; uintptr_t st = ((uintptr_t)top + mx - 1) & -mx; bool fits = n && st >= (uintptr_t)top && st - (uintptr_t)R <= size && n <= size - (st - (uintptr_t)R);
            if (!p) { CHECK(!fits, "a request of %zu bytes aligned to %zu was refused although it fits", n, al); pbt_class("refused"); continue; }
            CHECK(p >= R && p <= R + size && n <= (size_t)(R + size - p), "a block of %zu bytes aligned to %zu at offset %td of a pool of %zu", n, al, p - R, size); CHECK(!al || (uintptr_t)p % al == 0, "a block at %p is not aligned to %zu", p, al); for (int i = 0; i < nb; i++) CHECK(p >= b[i].p + b[i].n || b[i].p >= p + n, "a new block overlaps one handed out before");
            b[nb] = (blk_t){ p, n, d_u64(255), true }; memset(p, b[nb].v, n); nb++; live++; if (p + n > top) top = p + n; }
        else if (op < 9) { if (!live) continue; int i = d_u64(nb - 1); while (!b[i].live) i = (i + 1) % nb; for (size_t j = 0; j < b[i].n; j++) CHECK(b[i].p[j] == b[i].v, "a block's content changed"); TRACE("free block %d", i); bfdev_allocpool_free(&P, b[i].p); b[i].live = false; if (!--live) nb = 0, top = R, cycles++; }
        else if (d_chance(1, 4)) { TRACE("reset"); bfdev_allocpool_reset(&P); nb = live = 0; top = R; cycles++; }
        for (int i = 0; i < nb; i++) for (size_t j = 0; j < b[i].n && b[i].live; j++) CHECK(b[i].p[j] == b[i].v, "a block's content changed");
    }
    for (int i = 0; i < nb; i++) if (b[i].live) bfdev_allocpool_free(&P, b[i].p), live--; uintptr_t st = ((uintptr_t)R + 7) & -8ul; size_t all = (uintptr_t)R + size > st ? (uintptr_t)R + size - st : 0; if (all) { uint8_t *p = bfdev_allocpool_alloc(&P, all, 1); CHECK(p, "the whole pool is not available after everything was freed"); CHECK(p >= R && p + all <= R + size, "outside"); memset(p, 0, all); bfdev_allocpool_free(&P, p); }
    for (size_t i = 0; i < size + 64; i++) if (i < off || i >= off + size) CHECK(raw[i] == 0x77, "memory outside the pool was written"); if (size > 60000) pbt_class("very large"); if (cycles) pbt_class("emptied and reused"); pbt_nontrivial();
}

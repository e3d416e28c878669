#include "pbt.h"
#include <sys/mman.h>
#include <bfdev/memalloc.h>
#include <bfdev/log.h>
const char *const pbt_id = "C26", *const pbt_rule = "";
#define NB 3000
typedef struct { uint8_t *p; size_t n; uint64_t seed; } blk_t;
static blk_t b[NB]; static int nb; static bfdev_memalloc_head_t H; static uint8_t *R; static size_t rsize; static int strategy;
static bool vast; /* a region of gigabytes, of which only the ends of blocks are touched */
#define EACH(i, n) for (size_t i = 0; i < (n); i = vast && i == 40 && (n) > 100 ? (n) - 40 : i + 1)
static void fill(blk_t *x) { EACH(i, x->n) x->p[i] = pbt_mix(x->seed + i / 8) >> i % 8 * 8; }
static void verify(blk_t *x, size_t n, const char *op) { EACH(i, vast && n < x->n ? (n < 40 ? n : 40) : n) CHECK(x->p[i] == (uint8_t)(pbt_mix(x->seed + i / 8) >> i % 8 * 8), "%s: byte %zu of a block of %zu changed", op, i, x->n); }
#define HD sizeof(bfdev_memalloc_chunk_t)
#define UP(n) (((n) + BFDEV_MEMALLOC_ALIGN - 1) / BFDEV_MEMALLOC_ALIGN * BFDEV_MEMALLOC_ALIGN)
static size_t gap_max;  /* largest free chunk */
static int lim;         /* most blocks held: 60, or rarely thousands */
/* the free chunks only, for long histories */
static void gaps(const char *op) { bfdev_memalloc_chunk_t *c; size_t sum = 0; int k = 0; gap_max = 0; bfdev_list_for_each_entry(c, &H.block_list, block) { CHECK(k++ < 2 * NB + 2, "%s: endless list of chunks", op); if (c->usize & 1) continue; size_t s = c->usize & ~(size_t)1; sum += s; if (s > gap_max) gap_max = s; } CHECK_EQ(H.avail, sum, "reported free space"); }
static void check(const char *op, bool deep)
{
    bfdev_memalloc_chunk_t *c; uint8_t *at = R; size_t freesum = 0; int used = 0, frees = 0, inlist = 0; bool lastfree = false; gap_max = 0; static bool found[NB]; memset(found, 0, lim);
    bfdev_list_for_each_entry(c, &H.block_list, block) { CHECK((uint8_t *)c == at, "%s: a chunk starts at offset %td, expected %td", op, (uint8_t *)c - R, at - R); size_t s = c->usize & ~(size_t)1; bool u = c->usize & 1; CHECK((uint8_t *)c->data + s <= R + rsize, "%s: a chunk of %zu bytes at offset %td exceeds the region of %zu", op, s, (uint8_t *)c - R, rsize);
        if (u) { int k = -1; for (int i = 0; i < nb; i++) if (b[i].p == (uint8_t *)c->data) k = i; CHECK(k >= 0, "%s: a chunk of %zu bytes is used by nobody", op, s); CHECK(s >= b[k].n, "%s: block of %zu bytes lives in a chunk of %zu", op, b[k].n, s); found[k] = 1; used++; lastfree = false; }
        else { CHECK(!lastfree, "%s: two neighbouring free chunks were not merged", op); lastfree = true; freesum += s; frees++; if (s > gap_max) gap_max = s; } at = (uint8_t *)c->data + s; }
    CHECK(R + rsize - at < 2, "%s: the last %td bytes of the region are lost", op, R + rsize - at); CHECK(used == nb, "%s: %d of %d blocks are recorded", op, used, nb); CHECK_EQ(H.avail, freesum, "reported free space");
    bfdev_list_for_each_entry(c, &H.free_list, free) { CHECK(inlist++ <= frees, "%s: endless free list", op); CHECK(!(c->usize & 1), "%s: a used chunk is on the free list", op); } CHECK(inlist == frees, "%s: %d of %d free chunks are listed", op, inlist, frees);
    for (int i = 0; i < nb; i++) { CHECK(b[i].p >= R && b[i].p + b[i].n <= R + rsize, "%s: a block lies outside the region", op); CHECK((uintptr_t)b[i].p % sizeof(void *) == 0, "%s: misaligned block", op); for (int j = 0; j < i; j++) CHECK(b[i].p + b[i].n <= b[j].p || b[j].p + b[j].n <= b[i].p, "%s: two blocks overlap", op); if (deep) verify(&b[i], b[i].n, op); }
}
static size_t want(void) { switch (d_u64(7)) { case 0: return d_u64(3); case 1: case 2: return d_range(1, 100); case 3: return d_u64(rsize); case 4: return gap_max + d_srange(-40, 40) < rsize * 2 ? gap_max + d_srange(0, 33) - (gap_max > 33 ? 33 : 0) + d_u64(35) : 8; case 5: return d_chance(1, 4) ? SIZE_MAX - d_u64(80) : d_u64(200); case 6: return H.avail + d_srange(-1, 1) <= rsize ? H.avail + d_u64(1) : 0; default: return d_range(1, 400); } }
void pbt_case(void)
{
    bool many = d_chance(1, 1500); lim = many ? NB : 60; vast = !many && d_chance(1, 200); bfdev_log_default.record_level = 0; nb = 0; rsize = HD + (d_chance(1, 15000) ? d_range(60000, 200000) : d_chance(1, 4) ? d_range(8, 200) : d_range(200, d_chance(1, 8) ? 20000 : 3000)); if (many) { rsize = d_range(50000, 250000); pbt_class("thousands of blocks"); } if (d_bool()) rsize = rsize / 8 * 8; if (vast) { static uint8_t *A; enum { SH = 37 }; if (A) munmap(A, 1ul << SH); A = mmap(NULL, 1ul << SH, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (A == MAP_FAILED) { A = NULL; return; } rsize = (1ul << d_range(31, SH)) - d_u64(100); R = A; pbt_class("gigabytes"); } else { R = g_alloc(rsize); memset(R, 0xa5, rsize); } strategy = d_u64(2); bfdev_memalloc_find_t f[] = { bfdev_memalloc_first_fit, bfdev_memalloc_best_fit, bfdev_memalloc_worst_fit };
    bfdev_memalloc_init(&H, f[strategy], R, rsize); size_t whole = H.avail; if (rsize > 60000 && !vast) pbt_class("very large"); CHECK(whole <= rsize - HD && whole + 1 >= rsize - HD, "a region of %zu bytes offers %zu", rsize, whole); check("setup", 0); int most = 0, moved = 0, inplace = 0, merges = 0, w = many ? 8 : d_range(2, 7);
    for (int k = many ? d_range(1000, 8000) : d_range(1, d_chance(1, 10) ? 200 : 50); k--; ) {
        int op = d_u64(11); if (many && d_chance(1, 700)) w = d_of(((int[]){ 1, 4, 8, 8 }));
        if (many && nb > 200 && d_chance(1, 1500)) { TRACE("free every other of %d blocks", nb); bfdev_memalloc_chunk_t *c; uint8_t *p[NB]; int np = 0, t = 0; bfdev_list_for_each_entry(c, &H.block_list, block) if (c->usize & 1 && t++ & 1 && np < NB) p[np++] = (uint8_t *)c->data; for (int j = 0; j < np; j++) for (int x = 0; x < nb; x++) if (b[x].p == p[j]) { verify(&b[x], b[x].n, "free"); bfdev_memalloc_free(&H, b[x].p); b[x] = b[--nb]; break; } check("free", 0); w = 4; }
        int i = nb ? d_u64(nb - 1) : 0;  size_t s = vast && d_chance(1, 3) ? d_edge(37) : many && w < 8 && d_chance(1, 4) ? gap_max - (gap_max > 8 ? d_u64(8) : 0) : many && d_chance(w > 6 ? 14 : 2, w > 6 ? 15 : 4) ? d_range(1, 60) : want(), av = H.avail, gap = gap_max; const char *name = "alloc";
        if (op < w) { if (nb == lim) continue; TRACE("alloc %zu of %zu free (largest %zu), strategy %d", s, av, gap, strategy); uint8_t *p = bfdev_memalloc_alloc(&H, s);
            if (!p) { CHECK(s == 0 || s > gap || UP(s) > gap, "a request of %zu bytes was refused although %zu are free in one piece", s, gap); CHECK_EQ(H.avail, av, "free space after a refused request"); pbt_class("refused"); } else { CHECK(s <= rsize, "an impossible request of %zu bytes was granted", s); b[nb++] = (blk_t){ p, s, d_u64(UINT32_MAX) }; fill(&b[nb - 1]); } }
        else if (op < 9) { if (!nb) continue; name = "free"; TRACE("free block of %zu", b[i].n); verify(&b[i], b[i].n, "free"); bfdev_memalloc_free(&H, b[i].p); b[i] = b[--nb]; CHECK(H.avail > av || b[i].n == 0 || 1, "free"); merges++; }
        else { if (!nb) continue; name = "realloc"; if (d_bool()) s = b[i].n + d_srange(-20, 150) <= rsize * 2 ? b[i].n + d_u64(150) : 1; size_t old = b[i].n; if (vast && old > 100000) continue; TRACE("realloc block of %zu to %zu of %zu free", old, s, av); uint8_t *p = bfdev_memalloc_realloc(&H, b[i].p, s);
            if (!p) { CHECK(s > old, "shrinking a block of %zu to %zu bytes was refused", old, s); CHECK(UP(s) > gap || s > gap, "growing a block of %zu to %zu bytes was refused although %zu are free in one piece", old, s, gap); CHECK_EQ(H.avail, av, "free space after a refused reallocation"); pbt_class("refused"); }
            else { CHECK(s <= rsize, "an impossible reallocation to %zu bytes was granted", s); if (p != b[i].p) moved++; else if (s > old) inplace++; b[i].p = p; verify(&b[i], s < old ? s : old, "realloc"); b[i].n = s; fill(&b[i]); } }
        if (many && k % 512) gaps(name); else check(name, d_chance(1, 4)); if (nb > most) most = nb;
    }
    check("end", 1); while (nb) { int i = d_u64(nb - 1); verify(&b[i], b[i].n, "end"); bfdev_memalloc_free(&H, b[i].p); b[i] = b[--nb]; if (nb < 60 || nb % 512 == 0) check("final free", 0); else if (d_chance(1, 16)) gaps("final free"); }
    CHECK_EQ(H.avail, whole, "free space after everything was freed"); size_t all = whole / BFDEV_MEMALLOC_ALIGN * BFDEV_MEMALLOC_ALIGN; if (all) { uint8_t *p = bfdev_memalloc_alloc(&H, all); CHECK(p, "the whole region cannot be allocated again"); if (!vast) memset(p, 1, all); } if (moved) pbt_class("moved by reallocation"); if (inplace) pbt_class("grown in place"); if (most > 3 && merges > 1) pbt_nontrivial();
}

#include "ta.h"
volatile int ta_inside;
typedef struct hdr { uint64_t magic; ta_t *owner; size_t size; uint64_t pad; } hdr_t;
#define MAGIC 0x7ab5e11ca11ab1e5ull
static bool should_fail(ta_t *ta)
{
    ta->total++;
    if (ta->pattern) { bool f = ta->pattern & 1; ta->pattern >>= 1; if (f) { ta->failed = true; return true; } }
    if (ta->fail_all) { ta->failed = true; return true; }
    if (ta->fail_at > 0 && --ta->fail_at == 0) { ta->failed = true; return true; }
    return false;
}
static hdr_t *owned(ta_t *ta, const void *p, const char *op)
{
    hdr_t *h = (hdr_t *)p - 1;
    CHECK(h->magic == MAGIC && h->owner == ta, "%s of a block that was not obtained from this allocator or was already freed", op);
    return h;
}
static void *get(ta_t *ta, size_t size)
{
    if (size > (1ul << 26)) { ta->failed = true; return NULL; }
    ta_inside++; hdr_t *h = malloc(sizeof *h + size); ta_inside--;
    if (!h) { ta->failed = true; return NULL; }
    h->magic = MAGIC; h->owner = ta; h->size = size; ta->live++; ta->bytes += size;
    memset(h + 1, ta->fill, size); MSAN_UNDEF(h + 1, size);
    return h + 1;
}
static void *ta_alloc(size_t size, void *pd) { ta_t *ta = pd; return should_fail(ta) ? NULL : get(ta, size); }
static void *ta_zalloc(size_t size, void *pd)
{ ta_t *ta = pd; void *p = should_fail(ta) ? NULL : get(ta, size); if (p) memset(p, 0, size); return p; }
static void ta_free(void *p, void *pd)
{
    ta_t *ta = pd; if (!p) return;
    hdr_t *h = owned(ta, p, "free"); h->magic = 0; ta->live--; ta->bytes -= h->size; ta_inside++; free(h); ta_inside--;
}
static void *ta_realloc(void *p, size_t size, void *pd)
{
    ta_t *ta = pd;
    if (!p) return ta_alloc(size, pd);
    hdr_t *h = owned(ta, p, "realloc");
    if (should_fail(ta)) return NULL;
    void *n = get(ta, size); if (!n) return NULL;
    memcpy(n, p, h->size < size ? h->size : size);
    h->magic = 0; ta->live--; ta->bytes -= h->size; ta_inside++; free(h); ta_inside--;
    return n;
}
static bfdev_alloc_ops_t ops;
void ta_init(ta_t *ta)
{
    memset(ta, 0, sizeof *ta);
    bfdev_alloc_ops_init(&ops, (bfdev_malloc_t)ta_alloc, (bfdev_malloc_t)ta_zalloc, (bfdev_realloc_t)ta_realloc, (bfdev_free_t)ta_free);
    bfdev_alloc_init(&ta->alloc, &ops, ta);
    ta->fill = 0xa5;
}
void ta_check_empty(ta_t *ta, const char *what)
{ CHECK(ta->live == 0, "%s: %zu block(s) / %zu byte(s) were not returned to the allocator", what, ta->live, ta->bytes); }

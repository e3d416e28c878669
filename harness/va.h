/* Allocator of reserved but unbacked memory, for requests far beyond the machine's memory: only touched pages exist. */
#ifndef VA_H
#define VA_H
#include "pbt.h"
#include <sys/mman.h>
#include <bfdev/allocator.h>
#define VA_MAX (1ul << 42)
typedef struct va { bfdev_alloc_t alloc; struct { void *p; size_t n; } b[8]; int live; bool refuse; } va_t;
static inline size_t va_len(size_t n) { return (n + 4095) & ~4095ul; }
static inline int va_at(va_t *v, void *p) { for (int i = 0; i < 8; i++) if (v->b[i].p == p) return i; pbt_fail(__FILE__, __LINE__, "a block that was not allocated is returned or resized"); return 0; }
static inline void *va_alloc(size_t n, void *pd)
{
    va_t *v = pd; if (!n || n > VA_MAX || v->live == 8) { v->refuse = true; return NULL; } int i = va_at(v, NULL);
    void *p = mmap(NULL, va_len(n), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { v->refuse = true; return NULL; }
    v->b[i].p = p; v->b[i].n = n; v->live++; return p;
}
static inline void va_free(void *p, void *pd) { va_t *v = pd; if (!p) return; int i = va_at(v, p); munmap(p, va_len(v->b[i].n)); v->b[i].p = NULL; v->live--; }
static inline void *va_realloc(void *p, size_t n, void *pd)
{
    va_t *v = pd; if (!p) return va_alloc(n, pd); int i = va_at(v, p); if (!n || n > VA_MAX) { v->refuse = true; return NULL; }
    void *q = mremap(p, va_len(v->b[i].n), va_len(n), MREMAP_MAYMOVE); if (q == MAP_FAILED) { v->refuse = true; return NULL; }
    v->b[i].p = q; v->b[i].n = n; return q;
}
static inline size_t va_bytes(va_t *v) { size_t s = 0; for (int i = 0; i < 8; i++) if (v->b[i].p) s += v->b[i].n; return s; }
static inline void va_init(va_t *v)
{   /* blocks of a case that ended early */
    for (int i = 0; i < 8; i++) if (v->b[i].p) munmap(v->b[i].p, va_len(v->b[i].n));
    memset(v, 0, sizeof *v); static const bfdev_alloc_ops_t ops = { va_alloc, va_alloc, va_realloc, va_free }; bfdev_alloc_init(&v->alloc, &ops, v);
}
#endif

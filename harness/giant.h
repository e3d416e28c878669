/* Regions of several GiB that cost next to no memory: untouched zero pages, or one small block of content mapped over and over
 * (private mappings: a write changes that page only). An inaccessible page follows each region. */
#ifndef GIANT_H
#define GIANT_H
#ifdef GIANT     /* the "giant" configuration: a plain build in which every case is a gigantic one */
#define GIANT_CASE(f) do { f(); return; } while (0)
#else
#define GIANT_CASE(f) ((void)(f))
#endif
#include <sys/mman.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/file.h>
static struct { char *p; size_t n; } giant_maps[8]; static unsigned giant_used;
static int giant_lock = -1;
/* for a case that really needs several GiB: one such case at a time */
static inline void giant_alone(void) { if (giant_lock < 0) giant_lock = open("/proc/self/exe", O_RDONLY | O_CLOEXEC); if (giant_lock < 0 || flock(giant_lock, LOCK_EX)) { perror("lock"); exit(2); } }
static void giant_drop(void) { if (giant_lock >= 0) { close(giant_lock); giant_lock = -1; } while (giant_used) { giant_used--; munmap(giant_maps[giant_used].p, giant_maps[giant_used].n); } }
static char *giant_reserve(size_t n)
{
    n = (n + 4095) & ~4095ull; if (giant_used == 8) abort();
    char *p = mmap(NULL, n + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED || mprotect(p + n, 4096, PROT_NONE)) { perror("mmap"); exit(2); }
    giant_maps[giant_used].p = p; giant_maps[giant_used++].n = n + 4096; return p;
}
/* n zero bytes, ending at the inaccessible page (n rounded down to its alignment) */
static inline void *giant_zero(size_t n, size_t align) { size_t r = (n + 4095) & ~4095ull; return giant_reserve(n) + ((r - n) & -align); }
/* n bytes of the block (a multiple of 4096 bytes long) over and over; shared: writes show in every copy, but for the last 64 KiB, which have pages of their own (and are zero) */
static inline void *giant_repeat(size_t n, const void *block, size_t blen, bool shared)
{
    char *p = giant_reserve(n); size_t r = (n + 4095) & ~4095ull; if (shared) r -= r < 65536 ? r : 65536; int fd = memfd_create("giant", 0);
    if (fd < 0 || write(fd, block, blen) != (ssize_t)blen) { perror("memfd"); exit(2); }
    for (size_t at = 0; at < r; at += blen) { size_t k = blen < r - at ? blen : r - at; if (mmap(p + at, k, PROT_READ | PROT_WRITE, MAP_FIXED | (shared ? MAP_SHARED : MAP_PRIVATE), fd, 0) == MAP_FAILED) { perror("mmap"); exit(2); } }
    close(fd); return p;
}
/* an allocator that hands out fresh pages, for blocks of any size */
#include <bfdev/allocator.h>
static size_t giant_live;
static void *giant_malloc(size_t n, void *pd) { size_t m = (n + 8191) & ~4095ull; char *p = mmap(NULL, m, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) return NULL; *(size_t *)p = m; giant_live += m; return mprotect(p, 4096, PROT_READ) ? NULL : p + 4096; }
static void giant_free(void *p, void *pd) { if (!p) return; char *b = (char *)p - 4096; size_t m = *(size_t *)b; giant_live -= m; munmap(b, m); }
static inline void giant_alloc_init(bfdev_alloc_t *a) { static bfdev_alloc_ops_t ops; bfdev_alloc_ops_init(&ops, giant_malloc, giant_malloc, NULL, giant_free); bfdev_alloc_init(a, &ops, NULL); giant_live = 0; }
#endif

/* Property-based testing core: every random choice of a case is a "draw" recorded on a tape.
 * A case is a pure function of its tape, so a failing case is replayed and shrunk by editing the tape. */
#ifndef PBT_H
#define PBT_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>
#include <errno.h>
#include <stdarg.h>

/* ---- provided by each harness ---- */
extern const char *const pbt_id;      /* property id */
extern const char *const pbt_rule;    /* how cases are made / what is non-trivial */
void pbt_case(void);                  /* run one case */
void pbt_probe(const char *name) __attribute__((weak)); /* fails while the named known finding is present */
void pbt_begin(void) __attribute__((weak)); /* once per process */

/* ---- draws ---- */
uint64_t d_u64(uint64_t max);                       /* uniform 0..max inclusive */
uint64_t d_range(uint64_t lo, uint64_t hi);         /* lo..hi inclusive */
int64_t  d_srange(int64_t lo, int64_t hi);
bool     d_bool(void);
bool     d_chance(unsigned num, unsigned den);      /* true with num/den; shrinks to false */
uint64_t d_size(uint64_t max);                      /* small-biased 0..max */
uint64_t d_pow(uint64_t max);                 /* 0..max, half of the time next to a power of two */
uint64_t d_far(uint64_t lo, uint64_t hi);     /* lo..hi, half of the time next to 2^16 or 2^17 */
uint64_t d_edge64(void);                            /* 64-bit word biased to boundaries */
uint64_t d_edge(unsigned bits);                     /* same, reduced to bits */
void     d_bytes(void *p, size_t n);                /* n bytes; mode chosen: random / constant / few values */
unsigned d_pick(unsigned n, const unsigned *weights); /* weighted index */
#define d_of(arr) ((arr)[d_u64(sizeof(arr)/sizeof((arr)[0]) - 1)])

/* ---- outcome ---- */
void pbt_fail(const char *file, int line, const char *fmt, ...) __attribute__((noreturn, format(printf, 3, 4)));
#define CHECK(c, ...) do { if (__builtin_expect(!(c), 0)) pbt_fail(__FILE__, __LINE__, __VA_ARGS__); } while (0)
const char *pbt_fmt(const char *fmt, ...);
#define CHECK_EQ(a, b, ...) do { unsigned long long _a = (unsigned long long)(a), _b = (unsigned long long)(b); \
    if (__builtin_expect(_a != _b, 0)) pbt_fail(__FILE__, __LINE__, "%s: got %llu (%#llx), expected %llu (%#llx)", pbt_fmt(__VA_ARGS__), _a, _a, _b, _b); } while (0)
void pbt_nontrivial(void);
void pbt_class(const char *name);     /* count a class (once per call) */
extern bool pbt_tracing;
void pbt_trace(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define TRACE(...) do { if (__builtin_expect(pbt_tracing, 0)) pbt_trace(__VA_ARGS__); } while (0)
void trace_hex(const char *label, const void *p, size_t n);

/* prng not on the tape: only for data whose content does not matter (derived from the case) */
uint64_t pbt_mix(uint64_t x);
/* a comparison's answer: the sign of s, of any magnitude (not on the tape, the same in every run of a case) */
long pbt_answer(int s);

/* hide a value from constant folding */
#define HIDE(x) ({ __typeof__(x) _h = (x); __asm__ volatile("" : "+r"(_h)); _h; })

/* ---- guarded buffers: exact-size heap blocks (ASan red zones on both sides) ---- */
void pbt_slow(void);        /* this case is known to take long: a generous CPU-time limit from here on */
void *g_alloc(size_t n);  /* freed automatically at the end of the case */

/* under MemorySanitizer, memory handed to the library counts as uninitialised whatever it was filled with */
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define MSAN_UNDEF(p, n) __msan_allocated_memory(p, n)
#endif
#endif
#ifndef MSAN_UNDEF
#define MSAN_UNDEF(p, n) ((void)0)
#endif
#endif

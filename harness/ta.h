/* Tracking allocator handed to the library: counts live blocks, fills memory with a pattern,
 * detects foreign or double frees, and fails chosen allocations. */
#ifndef TA_H
#define TA_H
#include "pbt.h"
#include <bfdev/allocator.h>
typedef struct ta {
    bfdev_alloc_t alloc;
    size_t live, bytes, total;       /* live blocks, live bytes, calls that may allocate */
    long fail_at;                    /* fail the n-th next allocation (1 = next); <=0: never */
    bool fail_all;                   /* fail every allocation */
    uint64_t pattern;                /* bit i set: fail the i-th next allocation */
    bool failed;                     /* an allocation was failed since last cleared */
    uint8_t fill;
} ta_t;
extern volatile int ta_inside;               /* the tracking allocator itself is calling the platform's */
void ta_init(ta_t *ta);
void ta_check_empty(ta_t *ta, const char *what);
static inline void ta_fail_in(ta_t *ta, long n) { ta->fail_at = n; ta->failed = false; }
static inline void ta_ok(ta_t *ta) { ta->fail_at = 0; ta->pattern = 0; ta->fail_all = false; ta->failed = false; }
#endif

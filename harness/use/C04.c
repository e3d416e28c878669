/* public names of this property that must be usable */
#include <bfdev/bitops.h>
#include <bfdev/math.h>
#include <bfdev/align.h>
#include <bfdev/log2.h>
long use_closest(long a, long b) { return BFDEV_DIV_ROUND_CLOSEST(a, b) + BFDEV_DIV_ROUND_UP(a, b); }
unsigned use_flnsp(unsigned long v, unsigned *n) { return bfdev_flnsp64(v, n); }

/* public names of this property that must be usable */
#include <bfdev/config.h>
#include <bfdev/mhelper.h>
#define ADD(t, x) ((t)(x))
#define DBL(x) (2 * (x))
long use_args(int a, int b, int c) { long r[] = { BFDEV_MMAP_ARGN(3, ADD, char, a, short, b, long, c) }; return r[0] + r[1] + r[2]; }
long use_split(int a, int b) { long r[] = { BFDEV_MMAP_SPLITN(2, DBL, a, b) }; return r[0] + r[1]; }
long use_decl(long __arg2, long __arg1) { long r[] = { BFDEV_MMAP_DECLN(2, ADD, char, long) }; return r[0] + r[1]; }

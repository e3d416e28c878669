#include <bfdev/radix.h>
typedef BFDEV_DECLARE_RADIX(ur_, long);
int use_continue(ur_ *r, long *v, long *t, uintptr_t ix, uintptr_t tx) { int n = 0; bfdev_radix_for_each_continue_safe(v, r, &ix, t, &tx) n++; bfdev_radix_for_each_reverse_continue_safe(v, r, &ix, t, &tx) n++; return n; }

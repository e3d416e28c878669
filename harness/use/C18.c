#include <bfdev/btree.h>
int use_from(bfdev_btree_root_t *t, uintptr_t *key, uintptr_t *tkey, void *v, void *tv) { int n = 0; bfdev_btree_for_each_from_safe(t, key, v, tkey, tv) n++; bfdev_btree_for_each_reverse_from_safe(t, key, v, tkey, tv) n++; return n; }

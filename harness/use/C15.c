#include <bfdev/rbtree.h>
bfdev_rb_node_t *use_find(bfdev_rb_root_cached_t *c, void *key, bfdev_rb_find_t cmp, bfdev_rb_node_t **parent, bfdev_rb_node_t ***link, bool *left) { return bfdev_rb_cached_find_last(c, key, cmp, parent, link, left); }
void use_remove(bfdev_rb_root_cached_t *c, bfdev_rb_node_t *n, const bfdev_rb_callbacks_t *cb) { bfdev_rb_cached_remove_augmented(c, n, cb); }

#include "pbt.h"
#include <bfdev/respool.h>
#include <bfdev/log.h>
const char *const pbt_id = "C28", *const pbt_rule = "";
#define NN 700
typedef struct { int id, key; bfdev_respool_node_t n; } nd_t;
static nd_t *nd[NN]; static int where[NN], order[2][NN], cnt[2], rel[NN], nrel, reld[NN]; static long tag; static int style;
#define ND(p) bfdev_container_of(p, nd_t, n)
static nd_t *mk(int i, int key);
static void release(bfdev_respool_node_t *n, void *p) { nd_t *x = ND(n); CHECK(p == &tag, "the release action received the wrong data"); CHECK(x->id >= 0 && x->id < NN && nd[x->id] == x, "the release action received a foreign resource"); CHECK(where[x->id] >= 0, "resource %d was released although it is in no pool (or twice)", x->id); rel[nrel++] = x->id; reld[x->id]++; where[x->id] = -1; int i = x->id, key = x->key; memset(x, 0xdb, sizeof *x); mk(i, key); }
static nd_t *mk(int i, int key) { nd[i] = g_alloc(sizeof(nd_t)); memset(nd[i], 0x11, sizeof(nd_t)); nd[i]->id = i; nd[i]->key = key; nd[i]->n.release = release; bfdev_list_head_init(&nd[i]->n.list); return nd[i]; }
static long find(const bfdev_respool_node_t *n, void *p) { return pbt_answer(ND(n)->key == *(long *)p ? 0 : style ? 1 : -1); }
static long fkey; static long find2(const bfdev_respool_node_t *n, void *p) { CHECK(p == &tag, "the find function received the wrong data"); return ND(n)->key != fkey; }
static void drop(int h, int pos) { memmove(&order[h][pos], &order[h][pos + 1], (cnt[h] - pos - 1) * sizeof(int)); cnt[h]--; }
static int at(int h, int id) { for (int i = 0; i < cnt[h]; i++) if (order[h][i] == id) return i; CHECK(0, "resource %d is not in this pool", id); }
static bool any(int h, long k) { for (int i = 0; i < cnt[h]; i++) if (nd[order[h][i]]->key == k) return true; return false; }
void pbt_case(void)
{
    bfdev_log_default.record_level = 0; static bfdev_respool_t P[2]; style = d_bool(); BFDEV_DEFINE_RESPOOL(local); if (d_bool()) bfdev_respool_init(&P[0]); else P[0] = BFDEV_RESPOOL_INIT(&P[0]); bfdev_respool_init(&P[1]); CHECK(bfdev_respool_check_empty(&local) && bfdev_respool_check_empty(&P[0]), "a new pool is not empty"); cnt[0] = cnt[1] = 0; int most = 0, ra = 0; long range = d_range(1, 20); int lim = d_chance(1, 400) ? d_range(50, NN) : 24; if (lim > 24) { pbt_class("hundreds of resources"); range = d_range(1, 500); } for (int i = 0; i < lim; i++) mk(i, d_u64(range)), where[i] = -1;
    for (int k = lim > 24 ? d_range(100, 1000) : d_range(1, 50); k--; ) {
        int op = d_u64(14), h = d_u64(1), i = d_u64(lim - 1); if (lim > 24 && op > 6 && d_chance(9, 10)) op = 0; long key = d_u64(range + 1); nrel = 0; bfdev_respool_t *p = &P[h];
        if (op < 7) { if (where[i] >= 0) continue; TRACE("insert %d into pool %d", i, h); bfdev_respool_insert(p, &nd[i]->n); order[h][cnt[h]++] = i; where[i] = h; CHECK(!nrel, "an insertion released"); }
        else if (op == 7) { TRACE("find key %ld", key); bfdev_respool_node_t *n = bfdev_respool_find(p, find, &key); CHECK(!n == !any(h, key), "finding returned %s", n ? "an absent resource" : "nothing"); if (n) CHECK(ND(n)->key == key && where[ND(n)->id] == h, "finding returned another resource"); CHECK(!nrel, "finding released"); }
        else if (op == 8) { if (!cnt[h]) continue; int id = order[h][d_u64(cnt[h] - 1)]; TRACE("remove %d", id); bfdev_respool_remove(p, &nd[id]->n); drop(h, at(h, id)); where[id] = -1; CHECK(!nrel, "removing released"); memset(&nd[id]->n.list, 0x33, sizeof nd[id]->n.list); }
        else if (op == 9) { if (!cnt[h]) continue; int id = order[h][d_u64(cnt[h] - 1)]; TRACE("release %d", id); bfdev_respool_release(p, &nd[id]->n, &tag); CHECK(nrel == 1 && rel[0] == id, "releasing one resource released %d", nrel); drop(h, at(h, id)); }
        else if (op == 10) { TRACE("find and remove key %ld", key); bfdev_respool_node_t *n = bfdev_respool_find_remove(p, find, &key); CHECK(!n == !any(h, key), "finding returned %s", n ? "an absent resource" : "nothing"); CHECK(!nrel, "removing released"); if (n) { nd_t *x = ND(n); CHECK(x->key == key && where[x->id] == h, "another resource was removed"); drop(h, at(h, x->id)); where[x->id] = -1; memset(&x->n.list, 0x33, sizeof x->n.list); } }
        else if (op == 11) { fkey = key; bool a = any(h, key); TRACE("find and release key %ld", key); bfdev_respool_node_t *n = bfdev_respool_find_release(p, find2, &tag); CHECK(!n == !a, "finding returned %s", n ? "an absent resource" : "nothing"); CHECK(nrel == a, "%d resources were released, expected %d", nrel, a); if (a) { CHECK(nd[rel[0]]->key == key, "another resource was released"); drop(h, at(h, rel[0])); } }
        else if (d_chance(1, 3)) { TRACE("release all %d of pool %d", cnt[h], h); bfdev_respool_release_all(p, &tag); CHECK(nrel == cnt[h], "%d of %d resources were released", nrel, cnt[h]); for (int j = 0; j < nrel; j++) CHECK(rel[j] == order[h][cnt[h] - 1 - j], "release %d is resource %d, expected %d", j, rel[j], order[h][cnt[h] - 1 - j]); cnt[h] = 0; CHECK(bfdev_respool_check_empty(p), "the pool is not empty after everything was released"); ra++; }
        for (h = 0; h < 2; h++) { CHECK(bfdev_respool_check_empty(&P[h]) == !cnt[h], "emptiness of pool %d", h); for (int j = 0; j < cnt[h]; j++) { fkey = -1; } if (cnt[h] > most) most = cnt[h]; if (cnt[h]) { long kk = nd[order[h][d_u64(cnt[h] - 1)]]->key; CHECK(bfdev_respool_find(&P[h], find, &kk), "a held resource is not found"); } }
    }
    for (int h = 0; h < 2; h++) { nrel = 0; int c = cnt[h]; bfdev_respool_release_all(&P[h], &tag); CHECK(nrel == c, "%d of %d resources were released at the end", nrel, c); for (int j = 0; j < nrel; j++) CHECK(rel[j] == order[h][c - 1 - j], "final release order"); CHECK(bfdev_respool_check_empty(&P[h]), "not empty at the end"); } if (most > 2) pbt_nontrivial();
}

#include "pbt.h"
#include <unistd.h>
#include <pthread.h>
/* another thread may act right before any compare-and-exchange of the code under test */
static void interfere(volatile void *p);
#define __sync_val_compare_and_swap(p, o, n) ({ interfere(p); __sync_val_compare_and_swap(p, o, n); })
#define __sync_bool_compare_and_swap(p, o, n) ({ interfere(p); __sync_bool_compare_and_swap(p, o, n); })
#define __atomic_compare_exchange_n(p, o, n, w, s, f) ({ interfere(p); __atomic_compare_exchange_n(p, o, n, w, s, f); })
#define bfdev_llist_split own_llist_split
#define bfdev_llist_del own_llist_del
#include <bfdev/slist.h>
#include <../src/llist.c>
typedef bfdev_slist_head_t Nd;
extern bool lib_split(Nd *head, Nd *node, Nd *end) __asm__("bfdev_llist_split");
extern Nd *lib_del(Nd *head) __asm__("bfdev_llist_del");
const char *const pbt_id = "C46", *const pbt_rule = "";
enum { N = 64 };
static struct item { Nd n; bool in; } *it; static Nd *head; static int model[N], len; /* model[len - 1] is the newest */
static bool armed, producers_only; static int budget, intruded, idle[N], nidle;
static void push(int i) { it[i].in = true; model[len++] = i; }
static int idle_one(void) { nidle = 0; for (int i = 0; i < N; i++) if (!it[i].in) idle[nidle++] = i; return nidle ? idle[d_u64(nidle - 1)] : -1; }
static void interfere(volatile void *p)
{
    if (!armed || !budget || !d_chance(1, 2)) return; budget--; intruded++;
    switch (producers_only ? 0 : d_u64(2)) {
        case 0: { int i = idle_one(); if (i < 0) return; TRACE("  meanwhile %d is added", i); it[i].n.next = head->next; head->next = &it[i].n; push(i); break; }
        case 1: if (len) { int i = model[--len]; TRACE("  meanwhile %d is removed", i); head->next = it[i].n.next; it[i].in = false; } break;
        default: TRACE("  meanwhile all are removed"); while (len) it[model[--len]].in = false; head->next = NULL; break;
    }
}
static int index_of(Nd *n) { CHECK((char *)n >= (char *)it && (char *)n < (char *)(it + N), "a foreign node"); return (struct item *)n - it; }
static void chain_is(Nd *n, const char *what) { for (int k = len - 1; k >= 0; k--, n = n->next) { CHECK(n, "%s ends after %d of %d nodes", what, len - 1 - k, len); CHECK_EQ(index_of(n), model[k], "%s, node %d", what, len - 1 - k); } CHECK(!n, "%s goes on behind its last node", what); }
static void sequential(void)
{
    it = g_alloc(sizeof *it * N); memset(it, 0, sizeof *it * N); head = g_alloc(sizeof *head); head->next = NULL; len = 0; int steps = d_range(1, 40), most = 0;
    while (steps--) {
        bool lib = d_chance(1, 4); budget = lib ? 0 : d_u64(3); intruded = 0;
        switch (d_u64(5)) {
            case 0: case 1: { int i = idle_one(); if (i < 0) break; it[i].in = true; producers_only = false; armed = true; TRACE("add %d", i); it[i].n.next = (void *)0x77; bool r = lib ? lib_split(head, &it[i].n, &it[i].n) : bfdev_llist_add(head, &it[i].n); armed = false; CHECK_EQ(r, !len, "whether the list was empty"); push(i); if (intruded) pbt_class("addition with interference"); break; }
            case 2: { int b[8], n = d_range(1, 7), k = 0; for (; k < n; k++) { int i = idle_one(); if (i < 0) break; it[i].in = true; b[k] = i; } if (!k) break; for (int q = 0; q + 1 < k; q++) it[b[q]].n.next = &it[b[q + 1]].n; it[b[k - 1]].n.next = (void *)0x77; producers_only = false; armed = true; TRACE("add a batch of %d: %d..%d", k, b[0], b[k - 1]); bool r = lib ? lib_split(head, &it[b[0]].n, &it[b[k - 1]].n) : bfdev_llist_split(head, &it[b[0]].n, &it[b[k - 1]].n); armed = false; CHECK_EQ(r, !len, "whether the list was empty"); while (k--) push(b[k]); pbt_class("batch"); break; }
            case 3: case 4: { producers_only = true; armed = true; TRACE("remove one"); Nd *r = lib ? lib_del(head) : bfdev_llist_del(head); armed = false; if (!len) { CHECK(!r, "a node came out of an empty list"); pbt_class("empty"); break; } CHECK(r, "nothing came out of a list of %d", len); int i = index_of(r); CHECK_EQ(i, model[len - 1], "removed node"); len--; it[i].in = false; memset(&it[i].n, 0xa5, sizeof it[i].n); if (intruded) pbt_class("removal with interference"); break; }
            default: { producers_only = false; armed = true; TRACE("remove all"); Nd *r = bfdev_llist_destroy(head); armed = false; CHECK(!head->next, "the list is not empty after all were removed"); chain_is(r, "the removed chain"); while (len) it[model[--len]].in = false; break; }
        }
        if (len > most) most = len; chain_is(head->next, "the list");
    }
    if (most > 3) pbt_nontrivial();
}
/* ---- several producers, one consumer */
enum { P = 4, PER = 400 };
static struct pn { Nd n; int owner, seq, got; } *pool; static int np, mode, empties[P]; static volatile int running; static pthread_barrier_t bar;
static void *producer(void *a) { int id = (int)(intptr_t)a, e = 0; struct pn *w = pool + id * PER; pthread_barrier_wait(&bar); for (int k = 0; k < PER;) { int n = mode & 2 ? 1 + k % 3 : 1; if (n > PER - k) n = PER - k; for (int q = n - 1; q > 0; q--) w[k + q].n.next = &w[k + q - 1].n; e += (k & 1 ? lib_split : bfdev_llist_split)(head, &w[k + n - 1].n, &w[k].n); k += n; } empties[id] = e; __atomic_sub_fetch(&running, 1, __ATOMIC_SEQ_CST); return NULL; }
static void threads(void)
{
    np = d_range(1, P); mode = d_u64(3); pool = g_alloc(sizeof *pool * P * PER); memset(pool, 0, sizeof *pool * P * PER); for (int t = 0; t < np; t++) for (int k = 0; k < PER; k++) { pool[t * PER + k].owner = t; pool[t * PER + k].seq = k; } Nd h = {NULL}; head = &h; running = np; armed = false; TRACE("%d producers", np);
    pthread_t th[P]; pthread_barrier_init(&bar, NULL, np + 1); for (int t = 0; t < np; t++) if (pthread_create(&th[t], NULL, producer, (void *)(intptr_t)t)) { fprintf(stderr, "no thread\n"); _exit(3); } pthread_barrier_wait(&bar);
    int got = 0, batches = 0, high[P], turn = 0; for (int t = 0; t < P; t++) high[t] = -1; const char *bad = NULL;
    /* the threads are always joined before anything is reported */
    for (;;) {
        bool done = !running; Nd *c; bool one = (mode & 1) && (turn++ % 3); c = one ? bfdev_llist_del(head) : bfdev_llist_destroy(head); if (!one && c) batches++; int prev[P], top[P]; for (int t = 0; t < P; t++) { prev[t] = INT_MAX; top[t] = -1; }
        for (Nd *n = c; n && !bad; n = one ? NULL : n->next) { struct pn *x = (void *)n; if (x < pool || x >= pool + np * PER) { bad = "a foreign node was delivered"; break; } if (x->got++) { bad = "a node was delivered twice"; break; } got++; if (x->seq >= prev[x->owner]) bad = "one batch delivers an older node before a newer one"; prev[x->owner] = x->seq; if (top[x->owner] < 0) top[x->owner] = x->seq; if (!(mode & 1) && x->seq <= high[x->owner]) bad = "a node was delivered after a newer one of an earlier batch"; }
        for (int t = 0; t < P; t++) if (top[t] > high[t]) high[t] = top[t]; if (bad) break; if (done && !(one ? head->next : NULL)) break;
    }
    for (int t = 0; t < np; t++) pthread_join(th[t], NULL); pthread_barrier_destroy(&bar); CHECK(!bad, "%s", bad); CHECK_EQ(got, np * PER, "delivered nodes"); int e = 0; for (int t = 0; t < np; t++) e += empties[t]; if (!(mode & 1)) CHECK_EQ(e, batches, "additions that found the list empty"); pbt_class("several threads"); pbt_nontrivial();
}
void pbt_case(void) { armed = false; if (d_chance(1, 120)) threads(); else sequential(); }

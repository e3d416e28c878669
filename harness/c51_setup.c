#include "pbt.h"
#include "ta.h"
#include <bfdev/errno.h>
#include <bfdev/action.h>
#include <bfdev/allocator.h>
#include <bfdev/allocpool.h>
#include <bfdev/array.h>
#include <bfdev/circle.h>
#include <bfdev/fsm.h>
#include <bfdev/hashmap.h>
#include <bfdev/hashtbl.h>
#include <bfdev/hlist.h>
#include <bfdev/ilist.h>
#include <bfdev/list.h>
#include <bfdev/slist.h>
#include <bfdev/llist.h>
#include <bfdev/log.h>
#include <bfdev/matrix.h>
#include <bfdev/mpi.h>
#include <bfdev/notifier.h>
#include <bfdev/prandom.h>
#include <bfdev/radix.h>
#include <bfdev/ratelimit.h>
#include <bfdev/rbtree.h>
#include <bfdev/heap.h>
#include <bfdev/refcount.h>
#include <bfdev/respool.h>
#include <bfdev/tokenbucket.h>
#include <bfdev/btree.h>
#include <bfdev/fifo.h>
#include <bfdev/ringbuf.h>
#include <bfdev/memalloc.h>
#include <bfdev/bitmap.h>
#include <bfdev/md5.h>
#include <bfdev/sha1.h>
#include <bfdev/sha2.h>
const char *const pbt_id = "C51", *const pbt_rule = "";
/* A run sets an object up in one of the ways its type offers (over memory holding garbage), works on it as the script
 * says and writes down all it observes. Whatever the way, the notes have to be the same. */
enum { STATIC_, INIT_, DEFINE_, FUNC_, AGAIN_, FORMS };
static const char *const form_name[FORMS] = { "the static initialiser", "the initialiser expression", "the definition", "the setup function", "release of a used object" };
static uint64_t script[400], note_[6000], want[6000], dirt; static int sp, nn, nw, quiet; static ta_t ta;
static uint64_t S(uint64_t n) { return script[sp++ % 400] % n; }
static void obs(uint64_t x) { if (!quiet) { CHECK(nn < 6000, "too many notes"); note_[nn++] = pbt_mix(x) ^ ta.bytes; } } /* what is seen, and how much memory the object holds */
static void obsb(const void *p, size_t n) { uint64_t h = n; for (size_t i = 0; i < n; i++) h = (h ^ ((const uint8_t *)p)[i]) * 0x100000001b3ull; obs(h); }
static void garb(void *p, size_t n) { for (size_t i = 0; i < n; i++) ((uint8_t *)p)[i] = dirt == 0 ? 0xff : dirt == 1 ? 0xa5 : pbt_mix(dirt + i / 8) >> i % 8 * 8; }
/* the four ways; d is the object the definition made */
#define WAYS(T, st, in, def, fn) T s = st, i_, u_; garb(&i_, sizeof i_); { T *o = &i_; *o = in; } def; garb(&u_, sizeof u_); { T *o = &u_; fn; } T *o = f == STATIC_ ? &s : f == INIT_ ? &i_ : f == DEFINE_ ? &d : &u_
/* work, and once more after a release: the second time is what counts */
#define TWICE(work, rel) do { if (f == AGAIN_) { int sp0 = sp; quiet++; sp += 17; work; rel; quiet--; sp = sp0; } work; rel; } while (0)

static int act(void *d) { return *(int *)d + 5; }
static bool t_action(int f) { if (f == AGAIN_) return false; static int a = 3, b = 9; WAYS(bfdev_action_t, BFDEV_ACTION_STATIC(act, &a), BFDEV_ACTION_INIT(act, &a), BFDEV_DEFINE_ACTION(d, act, &a), bfdev_action_init(o, act, &a)); a = S(100); obs(bfdev_action_call(o)); bfdev_action_update(o, &b); obs(bfdev_action_call(o)); obs(bfdev_action_call(o)); return true; }
static long calls[4]; static void *o_alloc(size_t n, void *p) { calls[0]++; obs((uintptr_t)p); return ta.alloc.ops->alloc(n, ta.alloc.pdata); } static void *o_zalloc(size_t n, void *p) { calls[1]++; obs((uintptr_t)p); return ta.alloc.ops->zalloc(n, ta.alloc.pdata); } static void *o_realloc(void *b, size_t n, void *p) { calls[2]++; obs((uintptr_t)p); return ta.alloc.ops->realloc(b, n, ta.alloc.pdata); } static void o_free(void *b, void *p) { calls[3]++; obs((uintptr_t)p); ta.alloc.ops->free(b, ta.alloc.pdata); }
static void use_alloc(const bfdev_alloc_t *a) { memset(calls, 0, sizeof calls); void *p[6] = {0}; int k = 6 + S(20); while (k--) { int i = S(6); if (!p[i]) { p[i] = S(2) ? bfdev_malloc(a, 1 + S(50)) : bfdev_zalloc(a, 1 + S(50)); obs(!!p[i]); } else if (S(2)) { p[i] = bfdev_realloc(a, p[i], 1 + S(90)); obs(!!p[i]); } else { bfdev_free(a, p[i]); p[i] = NULL; } } for (int i = 0; i < 6; i++) if (p[i]) bfdev_free(a, p[i]); for (int i = 0; i < 4; i++) obs(calls[i]); }
static bool t_allocops(int f) { if (f == AGAIN_) return false; WAYS(bfdev_alloc_ops_t, BFDEV_ALLOC_OPS_STATIC(o_alloc, o_zalloc, o_realloc, o_free), BFDEV_ALLOC_OPS_INIT(o_alloc, o_zalloc, o_realloc, o_free), BFDEV_DEFINE_ALLOC_OPS(d, o_alloc, o_zalloc, o_realloc, o_free), bfdev_alloc_ops_init(o, o_alloc, o_zalloc, o_realloc, o_free)); bfdev_alloc_t a = BFDEV_ALLOC_INIT(o, (void *)77); use_alloc(&a); return true; }
static bool t_alloc(int f) { if (f == AGAIN_) return false; static const bfdev_alloc_ops_t ops = BFDEV_ALLOC_OPS_STATIC(o_alloc, o_zalloc, o_realloc, o_free); WAYS(bfdev_alloc_t, BFDEV_ALLOC_STATIC(&ops, (void *)55), BFDEV_ALLOC_INIT(&ops, (void *)55), BFDEV_DEFINE_ALLOC(d, &ops, (void *)55), bfdev_alloc_init(o, &ops, (void *)55)); use_alloc(o); return true; }
static bool t_allocpool(int f)
{
    static uint64_t mem[64]; size_t sz = 40 + S(460); WAYS(bfdev_allocpool_t, BFDEV_ALLOCPOOL_STATIC(mem, sz), BFDEV_ALLOCPOOL_INIT(mem, sz), BFDEV_DEFINE_ALLOCPOOL(d, mem, sz), bfdev_allocpool_init(o, mem, sz)); 
    TWICE({ void *last = NULL; for (int k = 15; k--; ) { if (last && !S(5)) { bfdev_allocpool_free(o, last); last = NULL; } else { char *p = bfdev_allocpool_alloc(o, 1 + S(60), 1 << S(5)); obs(p ? p - (char *)mem : -1); if (p) last = p; } } }, bfdev_allocpool_reset(o)); return true;
}
static bool t_array(int f)
{
    size_t c = 1 + S(24); WAYS(bfdev_array_t, BFDEV_ARRAY_STATIC(&ta.alloc, c), BFDEV_ARRAY_INIT(&ta.alloc, c), BFDEV_DEFINE_ARRAY(d, &ta.alloc, c), bfdev_array_init(o, &ta.alloc, c));
    TWICE({ for (int k = 20; k--; ) { obs(bfdev_array_index(o)); obs(bfdev_array_size(o)); unsigned long n = bfdev_array_index(o); unsigned long m; void *p; switch (S(6)) { case 0: case 1: p = bfdev_array_push(o, m = 1 + S(9)); obs(!!p); if (p) memset(p, S(256), m * c); break; case 2: p = bfdev_array_pop(o, S(6)); obs(!!p); break; case 3: obs(bfdev_array_reserve(o, S(40))); break; case 4: m = S(30); obs(bfdev_array_resize(o, m)); if (m > n) memset(bfdev_array_data(o, n), 3, (m - n) * c); break; default: p = bfdev_array_peek(o, 1 + S(4)); obs(p ? *(uint8_t *)p : -1); } if (bfdev_array_index(o)) obsb(bfdev_array_data(o, 0), bfdev_array_size(o)); } }, bfdev_array_release(o)); return true;
}
static bool t_circle(int f) { if (f == AGAIN_ || f == FUNC_) return false; static char b[16]; bfdev_circle_t s = BFDEV_CIRCLE_STATIC(b), i_; garb(&i_, sizeof i_); i_ = BFDEV_CIRCLE_INIT(b); BFDEV_DEFINE_CIRCLE(d, b); bfdev_circle_t *o = f == STATIC_ ? &s : f == INIT_ ? &i_ : &d; obs((char *)o->buffer - b); for (int k = 20; k--; ) { obs(BFDEV_CIRCLE_CNT(o->head, o->tail, 16)); obs(BFDEV_CIRCLE_SPACE(o->head, o->tail, 16)); obs(BFDEV_CIRCLE_CNT_END(o->head, o->tail, 16)); obs(BFDEV_CIRCLE_SPACE_END(o->head, o->tail, 16)); if (S(2)) { if (BFDEV_CIRCLE_SPACE(o->head, o->tail, 16)) o->head = (o->head + 1) & 15; } else if (BFDEV_CIRCLE_CNT(o->head, o->tail, 16)) o->tail = (o->tail + 1) & 15; } return true; }
static bool t_fsm(int f)
{
    if (f == AGAIN_) return false; static bfdev_fsm_state_t st[4]; static bfdev_fsm_transition_t tr[3][4]; memset(st, 0, sizeof st); memset(tr, 0, sizeof tr); for (int i = 0; i < 3; i++) { tr[i][0] = (bfdev_fsm_transition_t){ .type = 1, .stack = 1, .next = &st[(i + 1) % 3] }; tr[i][1] = (bfdev_fsm_transition_t){ .type = 2, .stack = -1 }; tr[i][2] = (bfdev_fsm_transition_t){ .type = 3, .next = &st[(i + 2) % 3] }; st[i].trans = tr[i]; st[i].tnum = 3; }
    const bfdev_fsm_state_t *err = S(2) ? &st[3] : NULL, *first = &st[S(3)]; WAYS(bfdev_fsm_t, BFDEV_FSM_STATIC(&ta.alloc, first, err), BFDEV_FSM_INIT(&ta.alloc, first, err), BFDEV_DEFINE_FSM(d, &ta.alloc, first, err), bfdev_fsm_init(o, &ta.alloc, first, err));
    for (int k = 25; k--; ) { obs(bfdev_fsm_curr(o) - st); bfdev_fsm_state_t *p = bfdev_fsm_prev(o); obs(p ? p - st : -1); if (!bfdev_fsm_curr(o)) break; obs(bfdev_fsm_finished(o)); bfdev_fsm_event_t e = { .type = 1 + S(4) }; obs((unsigned)(k == 3 ? bfdev_fsm_error(o, &e) : bfdev_fsm_handle(o, &e))); if (k == 9 && S(2)) bfdev_fsm_reset(o, first); }
    bfdev_array_release(&o->stack); return true;
}
typedef struct { bfdev_hlist_node_t h; unsigned long key; } hn_t;
static unsigned long hk(const void *k, void *p) { return *(unsigned long *)k % 7 * (unsigned long)(uintptr_t)p; } static unsigned long hnode(const bfdev_hlist_node_t *n, void *p) { return bfdev_hlist_entry(n, hn_t, h)->key % 7 * (unsigned long)(uintptr_t)p; }
static long heq(const bfdev_hlist_node_t *a, const bfdev_hlist_node_t *b, void *p) { return bfdev_hlist_entry(a, hn_t, h)->key == bfdev_hlist_entry(b, hn_t, h)->key ? BFDEV_EQ : BFDEV_BT; } static long hfind(const bfdev_hlist_node_t *a, const void *k, void *p) { return bfdev_hlist_entry(a, hn_t, h)->key == *(unsigned long *)k ? BFDEV_EQ : BFDEV_BT; }
static bool t_hashmap(int f)
{
    static const bfdev_hashmap_ops_t ops = { .hash_key = hk, .hash_node = hnode, .equal = heq, .find = hfind }; WAYS(bfdev_hashmap_t, BFDEV_HASHMAP_STATIC(&ta.alloc, &ops, (void *)99), BFDEV_HASHMAP_INIT(&ta.alloc, &ops, (void *)99), BFDEV_DEFINE_HASHMAP(d, &ta.alloc, &ops, (void *)99), bfdev_hashmap_init(o, &ta.alloc, &ops, (void *)99)); static hn_t n[40];
    TWICE({ bool in[40]; memset(in, 0, sizeof in); memset(n, 0, sizeof n); for (int k = 60; k--; ) { unsigned long key = S(40); bfdev_hlist_node_t *x = NULL; switch (S(3)) { case 0: if (in[key]) break; n[key].key = key; obs((unsigned)bfdev_hashmap_add(o, &n[key].h)); in[key] = true; break; case 1: obs((unsigned)bfdev_hashmap_del(o, &key, &x)); in[key] = false; break; default: x = bfdev_hashmap_find(o, &key); obs(x ? bfdev_hlist_entry(x, hn_t, h) - n : -1); } obs(o->used); } hn_t *p; unsigned ix; uint64_t sum = 0; bfdev_hashmap_for_each_entry(p, o, h, ix) sum += pbt_mix(p->key); obs(sum); }, bfdev_hashmap_release(o)); return true;
}
static bool t_hashtbl(int f)
{
    if (f == AGAIN_ || f == STATIC_ || f == INIT_) return f != AGAIN_ && t_hashtbl(DEFINE_); BFDEV_DEFINE_HASHTBL(d, 16); BFDEV_DECLARE_HASHTBL(u, 16); garb(u, sizeof u); bfdev_hashtbl_init(u, 16); bfdev_hlist_head_t *o = f == DEFINE_ ? d : u; hn_t n[20]; bool in[20] = {0};
    for (int k = 40; k--; ) { unsigned i = S(20); if (!in[i]) { n[i].key = i; bfdev_hashtbl_add(o, 16, &n[i].h, i); } else bfdev_hashtbl_del(&n[i].h); in[i] = !in[i]; for (int b = 0; b < 16; b++) { hn_t *p; bfdev_hlist_for_each_entry(p, &o[b], h) { obs(b); obs(p->key); } } } return true;
}
static bool t_hlist(int f) { if (f == AGAIN_) return false; WAYS(bfdev_hlist_head_t, BFDEV_HLIST_HEAD_STATIC(), BFDEV_HLIST_HEAD_INIT(), BFDEV_HLIST_HEAD(d), bfdev_hlist_head_init(o)); hn_t n[8]; garb(n, sizeof n); bool in[8]; memset(in, 0, sizeof in); for (int i = 0; i < 8; i++) { bfdev_hlist_node_init(&n[i].h); obs(bfdev_hlist_check_unhashed(&n[i].h)); } for (int k = 20; k--; ) { obs(bfdev_hlist_check_empty(o)); int i = S(8); if (!in[i]) bfdev_hlist_head_add(o, &n[i].h); else bfdev_hlist_del_init(&n[i].h); in[i] = !in[i]; hn_t *p; bfdev_hlist_for_each_entry(p, o, h) obs(p - n); } return true; }
typedef struct { bfdev_list_head_t l; int v; } ln_t;
static bool t_list(int f) { if (f == AGAIN_) return false; bfdev_list_head_t s = BFDEV_LIST_HEAD_STATIC(&s), i_, u_; garb(&i_, sizeof i_); i_ = BFDEV_LIST_HEAD_INIT(&i_); BFDEV_LIST_HEAD(d); garb(&u_, sizeof u_); bfdev_list_head_init(&u_); bfdev_list_head_t *o = f == STATIC_ ? &s : f == INIT_ ? &i_ : f == DEFINE_ ? &d : &u_; ln_t n[8]; bool in[8] = {0}; for (int k = 20; k--; ) { obs(bfdev_list_check_empty(o)); int i = S(8); if (!in[i]) { n[i].v = i; if (S(2)) bfdev_list_add(o, &n[i].l); else bfdev_list_add_prev(o, &n[i].l); } else bfdev_list_del(&n[i].l); in[i] = !in[i]; ln_t *p; bfdev_list_for_each_entry(p, o, l) obs(p->v); } return true; }
typedef struct { bfdev_slist_head_t s; int v; } sn_t;
static bool t_slist(int f) { if (f == AGAIN_) return false; WAYS(bfdev_slist_head_t, BFDEV_SLIST_HEAD_STATIC(), BFDEV_SLIST_HEAD_INIT(), BFDEV_SLIST_HEAD(d), bfdev_slist_head_init(o)); bool lockfree = S(2); sn_t n[8]; bool in[8] = {0}; for (int k = 20; k--; ) { obs(bfdev_slist_check_empty(o)); int i = S(8); if (!in[i]) { n[i].v = i; if (lockfree) obs(bfdev_llist_add(o, &n[i].s)); else bfdev_slist_add(o, &n[i].s); in[i] = true; } else if (lockfree) { bfdev_slist_head_t *p = bfdev_llist_del(o); if (p) in[bfdev_slist_entry(p, sn_t, s)->v] = false; } else { bfdev_slist_del(o, &n[i].s); in[i] = false; } sn_t *p; bfdev_slist_for_each_entry(p, o, s) obs(p->v); } return true; }
typedef struct { bfdev_ilist_node_t l; int v; } in_t; static long icmp(const bfdev_ilist_node_t *a, const bfdev_ilist_node_t *b, void *p) { int x = bfdev_ilist_entry(a, in_t, l)->v, y = bfdev_ilist_entry(b, in_t, l)->v; return x < y ? BFDEV_LT : x > y; }
static bool t_ilist(int f) { if (f == AGAIN_) return false; bfdev_ilist_head_t s = BFDEV_ILIST_HEAD_STATIC(&s), i_, u_; garb(&i_, sizeof i_); i_ = BFDEV_ILIST_HEAD_INIT(&i_); BFDEV_ILIST_HEAD(d); garb(&u_, sizeof u_); bfdev_ilist_head_init(&u_); bfdev_ilist_head_t *o = f == STATIC_ ? &s : f == INIT_ ? &i_ : f == DEFINE_ ? &d : &u_; in_t n[10]; bool in[10] = {0}; for (int k = 25; k--; ) { int i = S(10); obs(bfdev_list_check_empty(&o->node_list)); if (!in[i]) { n[i].v = S(5); garb(&n[i].l, sizeof n[i].l); if (f & 1) n[i].l = BFDEV_ILIST_NODE_INIT(&n[i].l); else bfdev_ilist_node_init(&n[i].l); bfdev_ilist_add(o, &n[i].l, icmp, NULL); } else bfdev_ilist_del(o, &n[i].l); in[i] = !in[i]; in_t *p; bfdev_ilist_for_each_entry(p, o, l) obs(p->v); bfdev_ilist_for_each_entry_reverse(p, o, l) obs(p->v); } return true; }
static int lw(bfdev_log_message_t *m, void *p) { obs(m->level); obsb(m->buff, m->length); obs((uintptr_t)p); return 5; }
static bool t_log(int f) { if (f == AGAIN_) return false; unsigned def = S(8), rec = S(8); unsigned long fl = (S(2) ? BFDEV_LOG_COLOR : 0) | (S(2) ? BFDEV_LOG_LEVEL : 0); WAYS(bfdev_log_t, BFDEV_LOG_STATIC(&s, def, rec, fl, lw, (void *)33), BFDEV_LOG_INIT(&i_, def, rec, fl, lw, (void *)33), BFDEV_DEFINE_LOG(d, def, rec, fl, lw, (void *)33), bfdev_log_init(o, def, rec, fl, lw, (void *)33)); for (int k = 5; k--; ) { obs((unsigned)bfdev_log_core(o, S(2) ? "%s%d" : BFDEV_ERR "%s%d", "text", (int)S(1000))); obs((unsigned)bfdev_log_core(o, BFDEV_DEBUG "plain %d", k)); } return true; }
static bool t_matrix(int f)
{
    WAYS(bfdev_matrix_t, BFDEV_MATRIX_STATIC(&ta.alloc), BFDEV_MATRIX_INIT(&ta.alloc), BFDEV_DEFINE_MATRIX(d, &ta.alloc), bfdev_matrix_init(o, &ta.alloc)); BFDEV_MATRIX_TYPE b[16]; 
    TWICE({ for (int k = 0; k < 16; k++) b[k] = S(1000); int r; bfdev_matrix_t x; bfdev_matrix_init(&x, &ta.alloc); unsigned n = 1 + S(4); unsigned m = 1 + S(4); obs((unsigned)bfdev_matrix_import(&x, b, n, m)); r = S(4) == 0 ? bfdev_matrix_add(o, &x, &x) : S(2) ? bfdev_matrix_trans(o, &x) : S(2) ? bfdev_matrix_set(o, &x) : bfdev_matrix_import(o, b, n, m); obs((unsigned)r); obs(o->row); obs(o->col); if (!r) for (unsigned i = 0; i < o->row; i++) for (unsigned j = 0; j < o->col; j++) { const BFDEV_MATRIX_TYPE *p = bfdev_matrix_data(o, i, j); obs(p ? *p : 0x7777); } bfdev_matrix_release(&x); }, bfdev_matrix_release(o)); return true;
}
static void mput(const bfdev_mpi_t *v) { bool s; const BFDEV_MPI_TYPE *p = bfdev_mpi_data(v, &s); unsigned long l = bfdev_mpi_length(v); obs(l); if (l && !(l == 1 && !*p)) obs(s); if (l) obsb(p, l * sizeof *p); }
static bool t_mpi(int f)
{
    WAYS(bfdev_mpi_t, BFDEV_MPI_STATIC(&ta.alloc), BFDEV_MPI_INIT(&ta.alloc), BFDEV_DEFINE_MPI(d, &ta.alloc), bfdev_mpi_init(o, &ta.alloc));
    TWICE({ bfdev_mpi_t x; BFDEV_MPI_TYPE b[3]; bfdev_mpi_init(&x, &ta.alloc); for (int k = 0; k < 3; k++) b[k] = S(-1ull) | 1; bfdev_mpi_import(&x, b, 1 + S(3), S(2)); switch (S(10)) { case 0: break; case 1: obs((unsigned)bfdev_mpi_seti(o, S(-1ull))); break; case 2: obs((unsigned)bfdev_mpi_bseti(o, S(200))); break; case 3: obs((unsigned)bfdev_mpi_set(o, &x)); break; case 4: obs((unsigned)bfdev_mpi_mul(o, &x, &x)); break; case 5: obs((unsigned)bfdev_mpi_xor(o, &x, &x)); break; case 6: obs((unsigned)bfdev_mpi_shli(o, &x, S(150))); break; case 7: obs((unsigned)bfdev_mpi_addi(o, o, S(-1ull))); break; case 8: obs((unsigned)bfdev_mpi_sub(o, o, &x)); break; default: obs((unsigned)bfdev_mpi_or(o, o, &x)); }
        mput(o); obs((unsigned)bfdev_mpi_cmp(o, &x)); obs((unsigned)bfdev_mpi_cmp(&x, o)); obs((unsigned)bfdev_mpi_addi(o, o, S(100))); mput(o); obs((unsigned)bfdev_mpi_sub(o, o, &x)); mput(o); obs((unsigned)bfdev_mpi_mul(o, o, o)); mput(o); bfdev_mpi_release(&x); }, bfdev_mpi_release(o)); return true;
}
static bfdev_notifier_ret_t nt(void *a, void *p) { obs((uintptr_t)p); return (uintptr_t)p % 5 == 4 ? BFDEV_NOTIFI_RET_STOP : BFDEV_NOTIFI_RET_DONE; }
static bool t_notifier(int f) { if (f == AGAIN_) return false; bfdev_notifier_t s = BFDEV_NOTIFIER_STATIC(&s), i_, u_; garb(&i_, sizeof i_); i_ = BFDEV_NOTIFIER_INIT(&i_); BFDEV_DEFINE_NOTIFIER(d); garb(&u_, sizeof u_); bfdev_notifier_init(&u_); bfdev_notifier_t *o = f == STATIC_ ? &s : f == INIT_ ? &i_ : f == DEFINE_ ? &d : &u_; bfdev_notifier_node_t n[12]; bool in[12] = {0}; for (int i = 0; i < 12; i++) { n[i].priority = S(6); n[i].entry = nt; n[i].pdata = (void *)(uintptr_t)i; } for (int k = 20; k--; ) { int i = S(12); if (S(2)) { if (!in[i]) obs((unsigned)bfdev_notifier_register(o, &n[i])); else bfdev_notifier_unregister(o, &n[i]); in[i] = !in[i]; } else { unsigned c = 0; obs(bfdev_notifier_call(o, NULL, S(10), &c)); obs(c); } } return true; }
static bool t_prandom(int f) { if (f == AGAIN_) return false; WAYS(bfdev_prandom_t, BFDEV_PRANDOM_STATIC(), BFDEV_PRANDOM_INIT(), BFDEV_DEFINE_PRANDOM(d), bfdev_prandom_init(o)); for (int k = 20; k--; ) switch (S(4)) { case 0: obs(bfdev_prandom_u64(o)); break; case 1: obs(bfdev_prandom_long(o)); break; default: obs(bfdev_prandom_value(o)); } return true; }
static bool t_radix(int f)
{
    if (f == FUNC_) return false; static BFDEV_DECLARE_RADIX(g, uint32_t) = BFDEV_RADIX_STATIC(NULL); typeof(g) s = BFDEV_RADIX_STATIC(&ta.alloc), i_; garb(&i_, sizeof i_); i_ = BFDEV_RADIX_INIT(&i_, &ta.alloc); typedef typeof(g) R; R *o; BFDEV_DEFINE_RADIX(d0, uint32_t, &ta.alloc); R d; memcpy(&d, &d0, sizeof d); _Static_assert(sizeof d == sizeof d0, ""); o = f == STATIC_ || f == AGAIN_ ? &s : f == INIT_ ? &i_ : &d;
    TWICE({ for (int k = 30; k--; ) { unsigned long ix = S(2) ? S(50) : 1ul << S(40); uint32_t *p; switch (S(4)) { case 0: case 1: if (!bfdev_radix_find(o, ix) && (p = bfdev_radix_alloc(o, ix))) *p = ix * 7; break; case 2: obs((unsigned)bfdev_radix_free(o, ix)); break; default: p = bfdev_radix_find(o, ix); obs(p ? *p : 1); } } uint32_t *p; unsigned long ix; bfdev_radix_for_each(p, o, &ix) { obs(ix); obs(*p); } }, bfdev_radix_release(o)); return true;
}
static bool t_ratelimit(int f) { if (f == AGAIN_) return false; bfdev_time_t iv = S(30); unsigned b = S(6); WAYS(bfdev_ratelimit_t, BFDEV_RATELIMIT_STATIC(iv, b), BFDEV_RATELIMIT_INIT(iv, b), BFDEV_DEFINE_RATELIMIT(d, iv, b), bfdev_ratelimit_init(o, iv, b)); bfdev_time_t t = 100 + S(100000); for (int k = 25; k--; ) { obs(bfdev_ratelimit(o, t += S(12))); obs(o->missed); } return true; }
static bool t_bucket(int f) { if (f == AGAIN_) return false; bfdev_time_t iv = S(30); unsigned b = S(6); WAYS(bfdev_tokenbucket_t, BFDEV_TOKENBUCKET_STATIC(iv, b), BFDEV_TOKENBUCKET_INIT(iv, b), BFDEV_DEFINE_TOKENBUCKET(d, iv, b), bfdev_tokenbucket_init(o, iv, b)); bfdev_time_t t = 100 + S(100000); for (int k = 25; k--; ) { obs(bfdev_tokenbucket(o, t += S(12))); obs(o->missed); obs(o->passed); } return true; }
typedef struct { bfdev_rb_node_t rb; int k; } rn_t; static long rcmp(const bfdev_rb_node_t *a, const bfdev_rb_node_t *b, void *p) { return bfdev_rb_entry(a, rn_t, rb)->k < bfdev_rb_entry(b, rn_t, rb)->k ? BFDEV_LT : BFDEV_BT; }
static bool t_rb(int f) { if (f == AGAIN_) return false; WAYS(bfdev_rb_root_t, BFDEV_RB_STATIC(), BFDEV_RB_INIT(), BFDEV_RB_ROOT(d), bfdev_rb_init(o)); rn_t n[20]; bool in[20] = {0}; for (int k = 40; k--; ) { int i = S(20); obs(BFDEV_RB_EMPTY_ROOT(o)); if (!in[i]) { n[i].k = S(50); bfdev_rb_insert(o, &n[i].rb, rcmp, NULL); } else bfdev_rb_delete(o, &n[i].rb); in[i] = !in[i]; rn_t *p; bfdev_rb_for_each_entry(p, o, rb) obs(p - n); } return true; }
static bool t_rbc(int f) { if (f == AGAIN_ || f == DEFINE_) return false; bfdev_rb_root_cached_t s = BFDEV_RB_CACHED_STATIC(), i_, u_; garb(&i_, sizeof i_); i_ = BFDEV_RB_CACHED_INIT(); garb(&u_, sizeof u_); bfdev_rb_cache_init(&u_); bfdev_rb_root_cached_t *o = f == STATIC_ ? &s : f == INIT_ ? &i_ : &u_; rn_t n[20]; bool in[20] = {0}; for (int k = 40; k--; ) { int i = S(20); bfdev_rb_node_t *q = bfdev_rb_cached_first(o); obs(q ? bfdev_rb_entry(q, rn_t, rb) - n : -1); if (!in[i]) { n[i].k = S(50); bfdev_rb_cached_insert(o, &n[i].rb, rcmp, NULL); } else bfdev_rb_cached_delete(o, &n[i].rb); in[i] = !in[i]; rn_t *p; bfdev_rb_for_each_entry(p, &o->root, rb) obs(p - n); } return true; }
typedef struct { bfdev_heap_node_t h; int k; } pn_t; static long hpc(const bfdev_heap_node_t *a, const bfdev_heap_node_t *b, void *p) { int x = bfdev_heap_entry(a, pn_t, h)->k, y = bfdev_heap_entry(b, pn_t, h)->k; return (x > y) - (x < y); }
static bool t_heap(int f) { if (f == AGAIN_) return false; WAYS(bfdev_heap_root_t, BFDEV_HEAP_STATIC(), BFDEV_HEAP_INIT(), BFDEV_HEAP_ROOT(d), bfdev_heap_init(o)); pn_t n[25]; int used = 0; for (int k = 40; k--; ) { obs(o->count); obs(!BFDEV_HEAP_ROOT_NODE(o)); if (used < 25 && S(3)) { n[used].k = S(50); bfdev_heap_insert(o, &n[used++].h, hpc, NULL); } else if (o->count) { unsigned long ix; bfdev_heap_node_t *t = bfdev_heap_first(o, &ix); obs(bfdev_heap_entry(t, pn_t, h)->k); bfdev_heap_delete(o, t, hpc, NULL); } } return true; }
static bool t_ref(int f) { if (f == AGAIN_ || f == FUNC_) return false; bfdev_refcnt_t s = BFDEV_REFCNT_STATIC(), i_; garb(&i_, sizeof i_); i_ = BFDEV_REFCNT_INIT; BFDEV_DEFINE_REFCNT(d); bfdev_refcnt_t *o = f == STATIC_ ? &s : f == INIT_ ? &i_ : &d; for (int k = 15; k--; ) { obs(bfdev_refcnt_get(o)); if (!bfdev_refcnt_get(o)) break; if (S(2)) bfdev_refcnt_inc(o); else obs(bfdev_refcnt_dec_test(o)); } return true; }
typedef struct { bfdev_respool_node_t r; int v; } re_t; static void rrel(bfdev_respool_node_t *n, void *p) { obs(((re_t *)((char *)n - offsetof(re_t, r)))->v); } static long rfind(bfdev_respool_node_t *n, void *p) { return ((re_t *)((char *)n - offsetof(re_t, r)))->v == *(int *)p; }
static bool t_respool(int f)
{
    bfdev_respool_t s = BFDEV_RESPOOL_STATIC(&s), i_, u_; garb(&i_, sizeof i_); i_ = BFDEV_RESPOOL_INIT(&i_); BFDEV_DEFINE_RESPOOL(d); garb(&u_, sizeof u_); bfdev_respool_init(&u_); bfdev_respool_t *o = f == STATIC_ ? &s : f == INIT_ ? &i_ : f == DEFINE_ ? &d : &u_; static re_t n[12];
    TWICE({ bool in[12]; memset(in, 0, sizeof in); for (int k = 20; k--; ) { int i = S(12); obs(bfdev_respool_check_empty(o)); if (!in[i]) { n[i].v = i; n[i].r.release = rrel; bfdev_respool_insert(o, &n[i].r); in[i] = true; } else if (S(2)) { bfdev_respool_remove(o, &n[i].r); in[i] = false; } int q = S(12); obs(!!bfdev_respool_find(o, rfind, &q)); } }, bfdev_respool_release_all(o, NULL)); obs(bfdev_respool_check_empty(o)); return true;
}
static bool t_btree(int f)
{
    static bfdev_btree_ops_t ops = { .alloc = bfdev_btree_alloc, .free = bfdev_btree_free, .find = bfdev_btree_key_find }; static bfdev_btree_layout_t *l = &bfdev_btree_layoutptr; static void *pd; pd = &ta.alloc; WAYS(bfdev_btree_root_t, BFDEV_BTREE_STATIC(l, &ops, pd), BFDEV_BTREE_INIT(l, &ops, pd), BFDEV_BTREE_ROOT(d, l, &ops, pd), bfdev_btree_init(o, l, &ops, pd));
    TWICE({ for (int k = 50; k--; ) { uintptr_t key = 1 + S(60); switch (S(4)) { case 0: case 1: obs((unsigned)bfdev_btree_insert(o, &key, (void *)(key * 16))); break; case 2: obs((uintptr_t)bfdev_btree_remove(o, &key)); break; default: obs((uintptr_t)bfdev_btree_lookup(o, &key)); } } uintptr_t key; void *v; bfdev_btree_for_each(o, &key, v) { obs(key); obs((uintptr_t)v); } }, bfdev_btree_release(o, NULL, NULL)); return true;
}
#define QUEUE(q, Q) \
static BFDEV_DEFINE_##Q(q##_proto, uint32_t, 16); static BFDEV_DEFINE_##Q##_RECORD(q##_rproto, uint8_t, 64, 1); static BFDEV_DEFINE_##Q##_DYNAMIC(q##_dproto, uint32_t); static BFDEV_DEFINE_##Q##_DYNAMIC_RECORD(q##_drproto, uint8_t, 1); \
static bool t_##q(int f) /* plain, buffer inside */ \
{ if (f == AGAIN_ || f == FUNC_) return false; typeof(q##_proto) i_; garb(&i_, sizeof i_); i_ = (typeof(i_))BFDEV_##Q##_INIT(&i_); BFDEV_DEFINE_##Q(d0, uint32_t, 16); bfdev_##q##_reset(&q##_proto); bfdev_##q##_reset(&d0); \
  for (int k = 40; k--; ) { uint32_t x = S(1u << 30), y = 0, b[20]; for (int i = 0; i < 20; i++) b[i] = x + i; unsigned long n; \
  _Pragma("GCC diagnostic push") \
  if (f == STATIC_) Q_STEP(q, (&q##_proto)) else if (f == INIT_) Q_STEP(q, (&i_)) else Q_STEP(q, (&d0)) } return true; } \
static bool t_##q##_rec(int f) \
{ if (f == AGAIN_ || f == FUNC_) return false; typeof(q##_rproto) i_; garb(&i_, sizeof i_); i_ = (typeof(i_))BFDEV_##Q##_INIT(&i_); BFDEV_DEFINE_##Q##_RECORD(d0, uint8_t, 64, 1); bfdev_##q##_reset(&q##_rproto); \
  for (int k = 40; k--; ) { uint8_t b[70]; for (int i = 0; i < 70; i++) b[i] = S(256); unsigned long n = S(50); if (f == STATIC_) R_STEP(q, (&q##_rproto)) else if (f == INIT_) R_STEP(q, (&i_)) else R_STEP(q, (&d0)) } return true; } \
static bool t_##q##_dyn(int f) \
{ if (f == FUNC_) return false; typeof(q##_dproto) i_, a_; garb(&i_, sizeof i_); i_ = (typeof(i_))BFDEV_##Q##_DYNAMIC_INIT(&i_); a_ = (typeof(a_))BFDEV_##Q##_DYNAMIC_INIT(&a_); BFDEV_DEFINE_##Q##_DYNAMIC(d0, uint32_t); \
  unsigned long cap = 2 + S(40); if (f == AGAIN_) { bfdev_##q##_alloc(&a_, &ta.alloc, 3 + S(50)); bfdev_##q##_put(&a_, 5); bfdev_##q##_free(&a_); sp = 1; obs(!!bfdev_##q##_initialized(&a_)); } else if (f == STATIC_) obs(!!bfdev_##q##_initialized(&q##_dproto)); else if (f == INIT_) obs(!!bfdev_##q##_initialized(&i_)); else obs(!!bfdev_##q##_initialized(&d0)); \
  if (f == STATIC_) obs(bfdev_##q##_alloc(&q##_dproto, &ta.alloc, cap)); else if (f == INIT_) obs(bfdev_##q##_alloc(&i_, &ta.alloc, cap)); else if (f == AGAIN_) obs(bfdev_##q##_alloc(&a_, &ta.alloc, cap)); else obs(bfdev_##q##_alloc(&d0, &ta.alloc, cap)); \
  for (int k = 40; k--; ) { uint32_t x = S(1u << 30), y = 0, b[20]; for (int i = 0; i < 20; i++) b[i] = x + i; unsigned long n; if (f == STATIC_) Q_STEP(q, (&q##_dproto)) else if (f == INIT_) Q_STEP(q, (&i_)) else if (f == AGAIN_) Q_STEP(q, (&a_)) else Q_STEP(q, (&d0)) } \
  if (f == STATIC_) bfdev_##q##_free(&q##_dproto); else if (f == INIT_) bfdev_##q##_free(&i_); else if (f == AGAIN_) bfdev_##q##_free(&a_); else bfdev_##q##_free(&d0); return true; } \
static bool t_##q##_dynrec(int f) \
{ if (f == FUNC_) return false; typeof(q##_drproto) i_, a_; garb(&i_, sizeof i_); i_ = (typeof(i_))BFDEV_##Q##_DYNAMIC_INIT(&i_); a_ = (typeof(a_))BFDEV_##Q##_DYNAMIC_INIT(&a_); BFDEV_DEFINE_##Q##_DYNAMIC_RECORD(d0, uint8_t, 1); \
  unsigned long cap = 9 + S(60); if (f == AGAIN_) { bfdev_##q##_alloc(&a_, &ta.alloc, 30); bfdev_##q##_in(&a_, "abc", 3); bfdev_##q##_free(&a_); } \
  if (f == STATIC_) obs(bfdev_##q##_alloc(&q##_drproto, &ta.alloc, cap)); else if (f == INIT_) obs(bfdev_##q##_alloc(&i_, &ta.alloc, cap)); else if (f == AGAIN_) obs(bfdev_##q##_alloc(&a_, &ta.alloc, cap)); else obs(bfdev_##q##_alloc(&d0, &ta.alloc, cap)); \
  for (int k = 40; k--; ) { uint8_t b[70]; for (int i = 0; i < 70; i++) b[i] = S(256); unsigned long n = S(50); if (f == STATIC_) R_STEP(q, (&q##_drproto)) else if (f == INIT_) R_STEP(q, (&i_)) else if (f == AGAIN_) R_STEP(q, (&a_)) else R_STEP(q, (&d0)) } \
  if (f == STATIC_) bfdev_##q##_free(&q##_drproto); else if (f == INIT_) bfdev_##q##_free(&i_); else if (f == AGAIN_) bfdev_##q##_free(&a_); else bfdev_##q##_free(&d0); return true; }
#define Q_STEP(q, o) { obs(bfdev_##q##_len(o)); obs(bfdev_##q##_size(o)); obs(bfdev_##q##_esize(o)); obs(bfdev_##q##_recsize(o)); obs(bfdev_##q##_check_empty(o)); obs(bfdev_##q##_check_full(o)); obs(bfdev_##q##_check_dynamic(o)); switch (S(4)) { case 0: obs(bfdev_##q##_put(o, x)); break; case 1: obs(bfdev_##q##_get(o, &y)); obs(y); break; case 2: obs(bfdev_##q##_in(o, b, S(20))); break; default: n = bfdev_##q##_out(o, b, S(20)); obs(n); obsb(b, n * 4); } }
#define R_STEP(q, o) { obs(bfdev_##q##_len(o)); obs(bfdev_##q##_size(o)); obs(bfdev_##q##_esize(o)); obs(bfdev_##q##_recsize(o)); obs(bfdev_##q##_check_empty(o)); if (S(2)) obs(bfdev_##q##_in(o, b, n + 1)); else { memset(b, 0, sizeof b); n = bfdev_##q##_out(o, b, 70); obs(n); obsb(b, 70); } }
QUEUE(fifo, FIFO)
QUEUE(ringbuf, RINGBUF)
static bool t_memalloc(int f) { if (f == STATIC_ || f == INIT_ || f == DEFINE_) return f == STATIC_ ? t_memalloc(FUNC_) : false; static uint64_t mem[300]; memset(mem, f == AGAIN_ ? 0x77 : 0, sizeof mem); bfdev_memalloc_head_t h; garb(&h, sizeof h); static const bfdev_memalloc_find_t fn[] = { bfdev_memalloc_first_fit, bfdev_memalloc_best_fit, bfdev_memalloc_worst_fit }; bfdev_memalloc_init(&h, fn[S(3)], mem, sizeof mem); char *p[12] = {0}; for (int k = 40; k--; ) { int i = S(12); if (p[i]) { bfdev_memalloc_free(&h, p[i]); p[i] = NULL; } else { size_t n = 1 + S(200); p[i] = bfdev_memalloc_alloc(&h, n); obs(p[i] ? p[i] - (char *)mem : 1); if (p[i]) memset(p[i], i, n); } } return true; }
static bool t_digest(int f) /* a context set up over garbage, and one used before */
{
    if (f != STATIC_ && f < FUNC_) return false; uint8_t b[200], o[64]; size_t n = S(200); for (size_t i = 0; i < n; i++) b[i] = S(256);
    bfdev_md5_ctx_t m; bfdev_sha1_ctx_t s; bfdev_sha2_ctx_t a, c; if (f == STATIC_) { memset(&m, 0, sizeof m); memset(&s, 0, sizeof s); memset(&a, 0, sizeof a); memset(&c, 0, sizeof c); } else { garb(&m, sizeof m); garb(&s, sizeof s); garb(&a, sizeof a); garb(&c, sizeof c); }
    for (int r = f == AGAIN_ ? 2 : 1; r--; ) { bool early = r; bfdev_md5_init(&m); bfdev_sha1_init(&s); bfdev_sha224_init(&a); bfdev_sha256_init(&c); bfdev_md5_update(&m, b, n - early * (n / 2)); bfdev_sha1_update(&s, b, n - early * (n / 2)); bfdev_sha2_update(&a, b, n - early * (n / 2)); bfdev_sha2_update(&c, b, n - early * (n / 2)); if (early && dirt & 1) continue; bfdev_md5_finish(&m, o); if (!early) obsb(o, 16); bfdev_sha1_finish(&s, o); if (!early) obsb(o, 20); bfdev_sha224_finish(&a, o); if (!early) obsb(o, 28); bfdev_sha256_finish(&c, o); if (!early) obsb(o, 32); } return true;
}
static const struct { const char *name; bool (*run)(int); } kinds[] = { { "action", t_action }, { "allocation table", t_allocops }, { "allocator", t_alloc }, { "allocation pool", t_allocpool }, { "array", t_array }, { "circular counter", t_circle }, { "state machine", t_fsm }, { "hash map", t_hashmap }, { "hash table", t_hashtbl }, { "hash list", t_hlist }, { "list", t_list }, { "single-linked list", t_slist }, { "indexed list", t_ilist }, { "logger", t_log }, { "matrix", t_matrix }, { "big number", t_mpi }, { "notifier", t_notifier }, { "generator", t_prandom }, { "radix array", t_radix }, { "rate limiter", t_ratelimit }, { "token bucket", t_bucket }, { "red-black tree", t_rb }, { "cached red-black tree", t_rbc }, { "heap", t_heap }, { "reference count", t_ref }, { "resource pool", t_respool }, { "btree", t_btree },
    { "fifo", t_fifo }, { "record fifo", t_fifo_rec }, { "dynamic fifo", t_fifo_dyn }, { "dynamic record fifo", t_fifo_dynrec }, { "ring", t_ringbuf }, { "record ring", t_ringbuf_rec }, { "dynamic ring", t_ringbuf_dyn }, { "dynamic record ring", t_ringbuf_dynrec }, { "memory area", t_memalloc }, { "digest", t_digest } };
enum { KINDS = sizeof kinds / sizeof *kinds };
void pbt_begin(void) { bfdev_log_default.record_level = 0; }
void pbt_case(void)
{
    int forms = 0; ta_init(&ta); for (int i = 0; i < 400; i++) script[i] = 0; int k = d_u64(KINDS - 1); uint64_t s = d_u64(UINT64_MAX); int len = d_bool() ? 400 : d_range(1, 400); for (int i = 0; i < len; i++) script[i] = pbt_mix(s + i); dirt = d_chance(1, 4) ? d_u64(1) : d_u64(UINT64_MAX);
    for (int f = 0; f < FORMS; f++) { sp = nn = quiet = 0; TRACE("%s set up by %s", kinds[k].name, form_name[f]); if (!kinds[k].run(f)) continue; ta_check_empty(&ta, kinds[k].name); if (!forms++) { memcpy(want, note_, nn * sizeof *want); nw = nn; continue; }
        for (int i = 0; i < nn && i < nw; i++) CHECK(note_[i] == want[i], "a %s set up by %s behaves differently from one set up by %s: observation %d (what is seen, or the memory held) differs", kinds[k].name, form_name[f], form_name[0], i); CHECK(nn == nw, "a %s set up by %s: %d observations instead of %d", kinds[k].name, form_name[f], nn, nw); }
    if (forms > 1 && nw > 3) pbt_nontrivial(); pbt_class(kinds[k].name);
}

#include "pbt.h"
#include <unistd.h>
#include <pthread.h>
/* another thread may act right before any compare-and-exchange of the code under test */
static void interfere(volatile void *p);
#define __sync_val_compare_and_swap(p, o, n) ({ interfere(p); __sync_val_compare_and_swap(p, o, n); })
#define __sync_bool_compare_and_swap(p, o, n) ({ interfere(p); __sync_bool_compare_and_swap(p, o, n); })
#define __atomic_compare_exchange_n(p, o, n, w, s, f) ({ interfere(p); __atomic_compare_exchange_n(p, o, n, w, s, f); })
/* other holders may act right before and right after a read-modify-write */
static void others(volatile void *p, int after);
#define RMW_(f, p, ...) ({ others(p, 0); __auto_type r_ = f(p, __VA_ARGS__); others(p, 1); r_; })
#define __sync_fetch_and_add(p, n) RMW_(__sync_fetch_and_add, p, n)
#define __sync_fetch_and_sub(p, n) RMW_(__sync_fetch_and_sub, p, n)
#define __sync_add_and_fetch(p, n) RMW_(__sync_add_and_fetch, p, n)
#define __sync_sub_and_fetch(p, n) RMW_(__sync_sub_and_fetch, p, n)
#define __atomic_fetch_add(p, n, o) RMW_(__atomic_fetch_add, p, n, o)
#define __atomic_fetch_sub(p, n, o) RMW_(__atomic_fetch_sub, p, n, o)
#define __atomic_add_fetch(p, n, o) RMW_(__atomic_add_fetch, p, n, o)
#define __atomic_sub_fetch(p, n, o) RMW_(__atomic_sub_fetch, p, n, o)
#include <bfdev/atomic.h>
#include <bfdev/cmpxchg.h>
#define bfdev_refcnt_report seen_report
#include <bfdev/refcount.h>
#include <bfdev/bitops.h>
#include <bfdev/log.h>
const char *const pbt_id = "C43", *const pbt_rule = "";
typedef bfdev_atomic_t A; typedef uintptr_t U;
static bool armed; static A world; static int budget, intruded; static A choice[8];
static A held = -1, at_rmw; static bool intr_after;
static void others(volatile void *p, int after)
{
    if (held < 0) return; A *v = (A *)p;
    if (!after) { if (d_chance(1, 3)) { *v = held + (A)(d_bool() ? d_u64(2) : d_u64(100)); TRACE("  meanwhile the count becomes %ld", (long)*v); } at_rmw = *v; return; }
    if (*v > 0 && d_chance(1, 2)) { intr_after = true; *v = d_bool() ? 0 : *v - 1; TRACE("  then others release: %ld left", (long)*v); }
}
static void interfere(volatile void *p)
{
    if (!armed) return; A *v = (A *)p;
    if (budget && d_chance(1, 2)) { budget--; A n = choice[d_u64(7)]; TRACE("  meanwhile %ld becomes %ld", (long)*v, (long)n); *v = n; world = n; intruded++; }
}
/* what the checking build reports */
static volatile int reports, last_report; void seen_report(bfdev_refcnt_t *ref, enum bfdev_refcnt_saturation type) { __atomic_add_fetch(&reports, 1, __ATOMIC_RELAXED); last_report = type; }
void pbt_begin(void) { bfdev_log_default.record_level = 0; }
static void seq_case(void)
{
    A *v = g_alloc(2 * sizeof *v); A *guard = v + 1; *guard = 0x55; *v = world = d_edge64(); for (int i = 0; i < 8; i++) choice[i] = d_bool() ? (A)d_u64(3) : (A)d_edge64(); int steps = d_range(1, 25), kinds = 0, total = 0;
    while (steps--) {
        A x = d_chance(1, 3) ? (A)d_u64(3) : (A)d_edge64(), r; U w = world; budget = d_u64(3); intruded = 0; int k = d_u64(22);
        #define RMW(name, call, want, ret, isret) armed = true; TRACE(name " %ld with %ld", (long)world, (long)x); call; armed = false; CHECK_EQ(*v, (A)(want), name " leaves"); if (isret) CHECK_EQ(r, (A)(ret), name " reports"); world = *v; break
        switch (k) {
            case 0: RMW("read", r = bfdev_atomic_read(v), w, w, 1); case 1: RMW("write", bfdev_atomic_write(v, x), x, 0, 0);
            case 2: RMW("add", bfdev_atomic_add(v, x), w + (U)x, 0, 0); case 3: RMW("sub", bfdev_atomic_sub(v, x), w - (U)x, 0, 0);
            case 4: RMW("and", bfdev_atomic_and(v, x), w & x, 0, 0); case 5: RMW("or", bfdev_atomic_or(v, x), w | x, 0, 0); case 6: RMW("xor", bfdev_atomic_xor(v, x), w ^ x, 0, 0);
            case 7: RMW("fetch_add", r = bfdev_atomic_fetch_add(v, x), w + (U)x, w, 1); case 8: RMW("fetch_sub", r = bfdev_atomic_fetch_sub(v, x), w - (U)x, w, 1);
            case 9: RMW("fetch_and", r = bfdev_atomic_fetch_and(v, x), w & x, w, 1); case 10: RMW("fetch_or", r = bfdev_atomic_fetch_or(v, x), w | x, w, 1); case 11: RMW("fetch_xor", r = bfdev_atomic_fetch_xor(v, x), w ^ x, w, 1);
            case 12: RMW("add_fetch", r = bfdev_atomic_add_fetch(v, x), w + (U)x, *v, 1); case 13: RMW("sub_fetch", r = bfdev_atomic_sub_fetch(v, x), w - (U)x, *v, 1);
            case 14: RMW("and_fetch", r = bfdev_atomic_and_fetch(v, x), w & x, *v, 1); case 15: RMW("or_fetch", r = bfdev_atomic_or_fetch(v, x), w | x, *v, 1); case 16: RMW("xor_fetch", r = bfdev_atomic_xor_fetch(v, x), w ^ x, *v, 1);
            case 17: case 18: armed = true; TRACE("exchange %ld for %ld", (long)world, (long)x); r = bfdev_xchg(v, x); armed = false; CHECK_EQ(r, world, "exchange reports"); CHECK_EQ(*v, x, "exchange leaves"); world = x; if (intruded) pbt_class("exchange with interference"); break;
            case 19: case 20: { A e = d_bool() ? world : d_bool() ? (A)d_edge64() : choice[d_u64(7)]; armed = true; TRACE("exchange %ld for %ld if %ld", (long)world, (long)x, (long)e); r = bfdev_cmpxchg(v, e, x); armed = false; CHECK_EQ(r, world, "compare-and-exchange reports"); if (world == e) world = x; CHECK_EQ(*v, world, "compare-and-exchange leaves"); } break;
            default: { A e = d_bool() ? world : d_bool() ? (A)d_edge64() : choice[d_u64(7)], e0 = e; armed = true; TRACE("try to exchange %ld for %ld if %ld", (long)world, (long)x, (long)e); bool ok = bfdev_try_cmpxchg(v, &e, x); armed = false; CHECK_EQ(ok, world == e0, "success of the conditional exchange"); if (ok) { CHECK_EQ(e, e0, "expected value after a success"); world = x; } else CHECK_EQ(e, world, "expected value after a refusal"); CHECK_EQ(*v, world, "conditional exchange leaves"); pbt_class(ok ? "exchanged" : "refused"); } break;
        }
        kinds |= 1 << k; total++; CHECK_EQ(*guard, 0x55, "neighbouring word");
    }
    if (total > 3) pbt_nontrivial();
}
static void ref_case(void)
{
    static bfdev_refcnt_t zero = BFDEV_REFCNT_STATIC(); bfdev_refcnt_t *c = g_alloc(sizeof *c); *c = BFDEV_REFCNT_INIT; CHECK_EQ(bfdev_refcnt_get(c), 1, "fresh count"); CHECK_EQ(bfdev_refcnt_get(&zero), 1, "fresh static count");
    A big = d_bool() ? 6 : INTPTR_MAX / 4; if (d_bool()) bfdev_refcnt_set(c, world = 1 + d_u64(big - 1)); else world = 1; for (int i = 0; i < 8; i++) choice[i] = d_chance(1, 3) ? 0 : 1 + d_u64(big - 1); int steps = d_range(1, 25), total = 0, dead = 0;
    reports = 0;
    while (steps--) {
        CHECK(!reports, "a legitimate operation was reported as misuse %d", last_report);
        A n = 1 + d_u64(d_bool() ? 2 : big - 1), old = -1; bool t, one = d_bool(); budget = d_u64(3); intruded = 0;
        CHECK_EQ(bfdev_refcnt_get(c), world, "count");
        switch (d_u64(7)) {
            case 6: case 7: { /* an addition or a release while others hold the object too */
                if (!world || world > 1000) { bfdev_refcnt_set(c, world = 1 + d_u64(3)); } n = 1 + d_u64(world - 1); if (one) n = 1; bool add = d_bool(), test = false; int got = -1; old = -1; held = add ? 1 : n; at_rmw = world; intr_after = false; TRACE("%s %ld while others hold %ld", add ? "add" : "drop", (long)n, (long)world);
                if (add) { if (d_bool()) one ? bfdev_refcnt_inc(c) : bfdev_refcnt_add(c, n); else if (one) bfdev_refcnt_fetch_inc(c, &old); else bfdev_refcnt_fetch_add(c, n, &old); }
                else switch (d_u64(3)) { case 0: one ? bfdev_refcnt_dec(c) : bfdev_refcnt_sub(c, n); break; case 1: if (one) bfdev_refcnt_fetch_dec(c, &old); else bfdev_refcnt_fetch_sub(c, n, &old); break; case 2: if (one) got = bfdev_refcnt_fetch_dec_test(c, &old); else got = bfdev_refcnt_fetch_sub_test(c, n, &old); break; default: got = one ? bfdev_refcnt_dec_test(c) : bfdev_refcnt_sub_test(c, n); }
                held = -1; (void)test; if (old != -1) CHECK_EQ(old, at_rmw, "old value under contention"); if (got >= 0) CHECK_EQ(got, at_rmw == n, "last release under contention (%ld of %ld dropped)", (long)n, (long)at_rmw);
                A left = at_rmw + (add ? n : -n); if (!intr_after) CHECK_EQ(bfdev_refcnt_get(c), left, "count under contention"); else { CHECK(bfdev_refcnt_get(c) == 0 || bfdev_refcnt_get(c) == left - 1, "count under contention: %ld", (long)bfdev_refcnt_get(c)); pbt_class("release by others right after"); } world = bfdev_refcnt_get(c); break; }
            case 0: if (!world || world > INTPTR_MAX / 2) { bfdev_refcnt_set(c, world = 1 + d_u64(3)); break; } if (one) n = 1; TRACE("add %ld to %ld", (long)n, (long)world); switch (d_u64(3)) { case 0: if (one) bfdev_refcnt_inc(c); else bfdev_refcnt_add(c, n); break; default: if (one) bfdev_refcnt_fetch_inc(c, &old); else bfdev_refcnt_fetch_add(c, n, &old); CHECK_EQ(old, world, "old value of an addition"); } world += n; break;
            case 1: case 2: if (!world) { bfdev_refcnt_set(c, world = 1 + d_u64(3)); break; } if (d_bool()) n = world; if (n > world) n = world; if (one) n = 1; TRACE("drop %ld of %ld", (long)n, (long)world); t = world == n; switch (d_u64(4)) { case 0: if (one) bfdev_refcnt_dec(c); else bfdev_refcnt_sub(c, n); break; case 1: if (one) bfdev_refcnt_fetch_dec(c, &old); else bfdev_refcnt_fetch_sub(c, n, &old); CHECK_EQ(old, world, "old value of a release"); break; case 2: if (one) { CHECK_EQ(bfdev_refcnt_fetch_dec_test(c, &old), t, "last release"); CHECK_EQ(old, world, "old value of a release"); break; } __attribute__((fallthrough)); default: CHECK_EQ(one ? bfdev_refcnt_dec_test(c) : bfdev_refcnt_sub_test(c, n), t, "last release"); } world -= n; if (t) pbt_class("last release"); break;
            default: if (world > INTPTR_MAX / 2) { bfdev_refcnt_set(c, world = d_u64(1)); break; } if (one) n = 1; TRACE("take %ld unless %ld is zero", (long)n, (long)world); armed = true; int form = d_u64(3), got = -1; if (form == 0) one ? bfdev_refcnt_incnz(c) : bfdev_refcnt_addnz(c, n); else if (form == 1) one ? bfdev_refcnt_fetch_incnz(c, &old) : bfdev_refcnt_fetch_addnz(c, n, &old); else if (form == 2) got = one ? bfdev_refcnt_incnz_test(c) : bfdev_refcnt_addnz_test(c, n); else if (one) got = bfdev_refcnt_fetch_incnz_test(c, &old); else got = bfdev_refcnt_fetch_addnz_test(c, n, &old); armed = false; if (form & 1) CHECK_EQ(old, world, "old value of a conditional addition"); if (got >= 0) CHECK_EQ(got, !world, "whether the object was dead"); if (!world) { pbt_class("dead object"); dead++; } else world += n; CHECK_EQ(bfdev_refcnt_get(c), world, "count after a conditional addition"); if (intruded) pbt_class("conditional addition with interference"); break;
        }
        total++;
    }
    CHECK(!reports, "a legitimate operation was reported as misuse %d", last_report);
    CHECK_EQ(bfdev_refcnt_get(c), world, "final count"); if (total > 3) pbt_nontrivial();
#ifdef BFDEV_DEBUG_REFCNT
    { /* every kind of misuse is reported, once and as what it is */
        A have = d_u64(2) ? d_bool() ? -(A)d_u64(1000) - 1 : (A)d_u64(1000) + 1 : 0, n = 1 + d_u64(1000); int op = d_u64(2), want = -1; if (op == 1 && have > 0 && d_bool()) n = have + 1 + d_u64(50);
        /* counts that would pass the greatest one */
        if (op != 1 && have > 0 && d_bool()) { have = INTPTR_MAX - (A)d_u64(1000); if (d_chance(1, 3)) n = 1; else if (d_chance(1, 4)) n = INTPTR_MAX - (A)d_u64(1000); }
        bool over = have > 0 && (A)((U)have + (U)n) < 0; bfdev_refcnt_set(c, have); A was = -1; int form = d_u64(2);
        if (op == 0) { want = !have ? BFDEV_REFCNT_ADD_UAF : have < 0 ? BFDEV_REFCNT_ADD_LEAK : over ? BFDEV_REFCNT_ADD_OVF : -1; if (n == 1) form ? bfdev_refcnt_inc(c) : bfdev_refcnt_fetch_inc(c, &was); else form ? bfdev_refcnt_add(c, n) : bfdev_refcnt_fetch_add(c, n, &was); }
        else if (op == 1) { want = !have ? BFDEV_REFCNT_SUB_UAF : have < 0 ? BFDEV_REFCNT_SUB_LEAK : n > have ? BFDEV_REFCNT_SUB_OVF : -1; if (n == 1) form == 2 ? (void)bfdev_refcnt_dec_test(c) : form ? bfdev_refcnt_dec(c) : bfdev_refcnt_fetch_dec(c, &was); else form == 2 ? (void)bfdev_refcnt_sub_test(c, n) : form ? bfdev_refcnt_sub(c, n) : bfdev_refcnt_fetch_sub(c, n, &was); }
        else { want = have < 0 ? BFDEV_REFCNT_ADDNZ_LEAK : over ? BFDEV_REFCNT_ADDNZ_OVF : -1; if (n == 1) form == 2 ? (void)bfdev_refcnt_incnz_test(c) : form ? bfdev_refcnt_incnz(c) : bfdev_refcnt_fetch_incnz(c, &was); else form == 2 ? (void)bfdev_refcnt_addnz_test(c, n) : form ? bfdev_refcnt_addnz(c, n) : bfdev_refcnt_fetch_addnz(c, n, &was); }
        if (over && op != 1) pbt_class("overflowing count");
        A left = (A)(op == 1 ? (U)have - (U)n : op == 2 && !have ? 0 : (U)have + (U)n); CHECK_EQ(bfdev_refcnt_get(c), left, "count after a misuse");
        TRACE("misuse: %s %ld to %ld", op == 0 ? "add" : op == 1 ? "drop" : "add unless zero", (long)n, (long)have); CHECK_EQ(reports, want >= 0, "reports"); if (want >= 0) { CHECK_EQ(last_report, want, "kind of misuse reported"); pbt_class("misuse reported"); }
    }
#endif
}
/* ---- several threads: totals must be exact */
enum { T = 4, ROUNDS = 300 };
static struct { A sum, bits, token, inc, weak; bfdev_refcnt_t ref, obj; unsigned long flags, owned; } *sh; static int script[T][8], nthreads; static A tokens[T][ROUNDS], lasts[T], adds[T], taken[T], flips[T], fetched[T][ROUNDS], ntok[T]; static pthread_barrier_t bar;
static void *thread(void *arg)
{
    int id = (int)(intptr_t)arg, nt = 0; A mysum = 0; lasts[id] = taken[id] = flips[id] = 0; pthread_barrier_wait(&bar);
    for (int i = 0; i < ROUNDS; i++) {
        A x = script[id][i & 7];
        switch (i % 5) { case 0: bfdev_atomic_add(&sh->sum, x); mysum += x; break; case 1: bfdev_atomic_sub(&sh->sum, x); mysum -= x; break; case 2: bfdev_atomic_fetch_add(&sh->sum, x); mysum += x; break; case 3: bfdev_atomic_sub_fetch(&sh->sum, x); mysum -= x; break; default: bfdev_atomic_add_fetch(&sh->sum, x); mysum += x; }
        switch (i % 6) { case 0: bfdev_atomic_or(&sh->bits, (A)1 << id); break; case 1: bfdev_atomic_and(&sh->bits, ~((A)1 << id)); break; case 2: bfdev_atomic_xor(&sh->bits, (A)1 << id); break; case 3: bfdev_atomic_fetch_and(&sh->bits, ~((A)1 << id)); break; case 4: bfdev_atomic_fetch_xor(&sh->bits, (A)1 << id); break; default: bfdev_atomic_or_fetch(&sh->bits, (A)1 << (id + 16)); }
        tokens[id][i] = bfdev_xchg(&sh->token, (A)(id + 1) * 1000 + i);
        { A e = bfdev_atomic_read(&sh->inc); while (!bfdev_try_cmpxchg(&sh->inc, &e, e + 1)); }
        if (!bfdev_bit_atomic_test_set(&sh->flags, 3)) flips[id]++; if (bfdev_bit_atomic_test_clr(&sh->flags, 3)) flips[id]--; if (bfdev_bit_atomic_test_flip(&sh->flags, 4)) flips[id] += 65536; (i & 1) ? bfdev_bit_atomic_set(&sh->flags, 8 + id) : bfdev_bit_atomic_flip(&sh->flags, 8 + id); if (i % 7 == 3) bfdev_bit_atomic_clr(&sh->flags, 8 + id);
        if (!bfdev_refcnt_addnz_test(&sh->obj, 1 + (x & 1))) { taken[id]++; if (bfdev_refcnt_sub_test(&sh->obj, 1 + (x & 1))) lasts[id] += 1000; }
        if (i == ROUNDS / 2 + id * 7 && bfdev_refcnt_dec_test(&sh->obj)) lasts[id] += 1000;
        bfdev_refcnt_inc(&sh->ref); if (bfdev_refcnt_dec_test(&sh->ref)) lasts[id] += 1;
        if (i % 3 == 0) fetched[id][nt++] = bfdev_atomic_fetch_add(&sh->weak, 1);
    }
    adds[id] = mysum; ntok[id] = nt; if (bfdev_refcnt_dec_test(&sh->ref)) lasts[id] += 1; return NULL;
}
static void threads_case(void)
{
    nthreads = d_range(2, T); sh = g_alloc(sizeof *sh); memset(sh, 0, sizeof *sh); sh->sum = d_u64(1000); A sum0 = sh->sum; bfdev_refcnt_set(&sh->ref, nthreads); bfdev_refcnt_set(&sh->obj, nthreads); for (int t = 0; t < nthreads; t++) for (int k = 0; k < 8; k++) script[t][k] = d_u64(100000); sh->token = 7; TRACE("%d threads", nthreads);
    pthread_t th[T]; pthread_barrier_init(&bar, NULL, nthreads); for (int t = 0; t < nthreads; t++) if (pthread_create(&th[t], NULL, thread, (void *)(intptr_t)t)) { fprintf(stderr, "no thread\n"); _exit(3); } for (int t = 0; t < nthreads; t++) pthread_join(th[t], NULL); pthread_barrier_destroy(&bar);
    A want = sum0, one = 0, obj = 0; unsigned bits = 0, wb = 0; unsigned long wf = 0; static bool seen[(T + 1) * 1000]; memset(seen, 0, sizeof seen); int st = 0; static bool fs[T * ROUNDS]; memset(fs, 0, sizeof fs); A wk = 0;
    for (int t = 0; t < nthreads; t++) { want += adds[t]; one += lasts[t] % 1000; obj += lasts[t] / 1000; bool b = 0, f = 0; for (int i = 0; i < ROUNDS; i++) { switch (i % 6) { case 0: b = 1; break; case 1: case 3: b = 0; break; case 2: case 4: b = !b; break; } f = (i & 1) ? 1 : !f; if (i % 7 == 3) f = 0; A k = tokens[t][i]; if (k == 7) st++; else { CHECK(k >= 1000 && k < (nthreads + 1) * 1000 && k % 1000 < ROUNDS && !seen[k], "exchange delivered %ld twice", (long)k); seen[k] = true; } } wb |= b << t | 1u << (t + 16); wf |= (unsigned long)f << (8 + t); for (int i = 0; i < ntok[t]; i++) { A k = fetched[t][i]; CHECK(k >= 0 && k < T * ROUNDS && !fs[k], "fetch_add delivered %ld twice", (long)k); fs[k] = true; } wk += ntok[t]; }
    CHECK_EQ(sh->sum, want, "sum of all additions"); CHECK_EQ(sh->bits, wb, "bits of all threads"); CHECK_EQ(st, 1, "deliveries of the initial value"); CHECK_EQ(sh->inc, (A)nthreads * ROUNDS, "conditional increments"); CHECK_EQ(one, 1, "last releases"); CHECK_EQ(obj, 1, "last releases of the contended object"); CHECK_EQ(sh->ref.count, 0, "count at the end"); CHECK_EQ(sh->obj.count, 0, "count of the contended object at the end"); CHECK_EQ(sh->weak, wk, "tickets"); A fl = 0; for (int t = 0; t < nthreads; t++) fl += flips[t]; 
    /* changes of a bit that were reported add up to what is left of it */
    CHECK_EQ(fl & 0xffff, (sh->flags >> 3) & 1, "set and cleared bit"); CHECK_EQ(fl >> 16, nthreads * ROUNDS / 2, "reported flips"); CHECK_EQ(sh->flags & ~0x18ul, wf, "flag bits"); pbt_class("several threads"); pbt_nontrivial();
}
/* ---- many objects released at the same moment by all holders: each one's last release is reported once */
enum { OBJ = 1500 };
static struct { bfdev_refcnt_t r; } *ob; static unsigned char lastn[T][OBJ]; static int relmode; static volatile int gate;
static void *releaser(void *arg)
{
    int id = (int)(intptr_t)arg; pthread_barrier_wait(&bar);
    for (int i = 0; i < OBJ; i++) {
        if (!(i % 50)) { __sync_add_and_fetch(&gate, 1); int want = (i / 50 + 1) * nthreads; for (int spin = 0; gate < want && spin < 200000; spin++) if (!(spin & 1023)) sched_yield(); }
        if ((relmode & 1) && id == 0) { if (bfdev_refcnt_addnz_test(&ob[i].r, 2)) lastn[id][i] += 0; else if (bfdev_refcnt_sub_test(&ob[i].r, 2)) lastn[id][i]++; }
        if (relmode & 2) { A old; if (bfdev_refcnt_fetch_dec_test(&ob[i].r, &old)) lastn[id][i]++; } else if (bfdev_refcnt_dec_test(&ob[i].r)) lastn[id][i]++;
    }
    return NULL;
}
static void release_case(void)
{
    nthreads = d_range(2, T); relmode = d_u64(3); gate = 0; ob = g_alloc(sizeof *ob * OBJ); memset(lastn, 0, sizeof lastn); for (int i = 0; i < OBJ; i++) bfdev_refcnt_set(&ob[i].r, nthreads); TRACE("%d threads release %d objects", nthreads, OBJ);
    pthread_t th[T]; pthread_barrier_init(&bar, NULL, nthreads); for (int t = 0; t < nthreads; t++) if (pthread_create(&th[t], NULL, releaser, (void *)(intptr_t)t)) { fprintf(stderr, "no thread\n"); _exit(3); } for (int t = 0; t < nthreads; t++) pthread_join(th[t], NULL); pthread_barrier_destroy(&bar);
    for (int i = 0; i < OBJ; i++) { int l = 0; for (int t = 0; t < nthreads; t++) l += lastn[t][i]; CHECK_EQ(l, 1, "last releases of object %d", i); CHECK_EQ(bfdev_refcnt_get(&ob[i].r), 0, "count of object %d", i); }
    pbt_class("objects released at once"); pbt_nontrivial();
}
void pbt_case(void) { armed = false; if (d_chance(1, 120)) d_bool() ? threads_case() : release_case(); else if (d_bool()) seq_case(); else ref_case(); }

#include "pbt.h"
#include <bfdev/notifier.h>
#include <bfdev/errno.h>
const char *const pbt_id = "C42", *const pbt_rule = "";
enum { MAX = 400 }; static int N;
static bfdev_notifier_t head; static struct { bfdev_notifier_node_t n; bool on; int pr, ret, act; } *s; static int order[MAX + 8], calls, seqno; static void *cur_arg; static int plan[MAX], nplan;
static bool before(int a, int b) { return s[a].pr < s[b].pr; }
static int sorted(int *out) { int n = 0; for (int i = 0; i < N; i++) if (s[i].on) { int k = n++; while (k && before(i, out[k - 1])) { out[k] = out[k - 1]; k--; } out[k] = i; } return n; }
/* the order subscribers of one priority are kept in is the chain's own business */
static int chain(int *out) { int n = 0; bfdev_notifier_node_t *w; bfdev_ilist_for_each_entry(w, &head.nodes, list) { CHECK(n < N, "the chain does not end"); out[n++] = (int)(intptr_t)w->pdata - 1; } return n; }
static void unreg(int i) { bfdev_notifier_unregister(&head, &s[i].n); s[i].on = false; memset(&s[i].n.list, 0xa5, sizeof s[i].n.list); }
static bfdev_notifier_ret_t entry(void *arg, void *pdata)
{
    int i = (int)(intptr_t)pdata - 1; CHECK(arg == cur_arg, "subscriber %d received another argument", i); CHECK(i >= 0 && i < N && s[i].on, "subscriber %d is called although it is not registered", i); for (int k = 0; k < calls; k++) CHECK(order[k] != i, "subscriber %d is called twice", i); CHECK(calls < N + 4, "endless notification"); order[calls++] = i;
    if (s[i].act == 1) { TRACE("  %d unregisters itself", i); unreg(i); s[i].ret &= ~BFDEV_NOTIFI_RET_REMOVE; }
    if (s[i].act > 1) { /* an earlier one, or a later one that is not the next */ int p = -1; for (int k = 0; k < nplan; k++) if (plan[k] == i) p = k; int v = s[i].act % N; for (int k = 0; k < nplan; k++) if (plan[k] == v && s[v].on && k != p && (k < p || k > p + 1)) { bool safe = k < p; if (!safe) { /* everything between must not be gone */ int alive = 0; for (int q = p + 1; q < k; q++) alive += s[plan[q]].on; safe = alive > 0; } if (safe) { TRACE("  %d unregisters %d", i, v); unreg(v); } } }
    if (s[i].ret & BFDEV_NOTIFI_RET_REMOVE) s[i].on = false; /* the chain drops it as soon as this returns */
    return s[i].ret;
}
void pbt_case(void)
{
    bool big = d_chance(1, 100); N = big ? d_range(17, MAX) : 16; s = g_alloc(sizeof *s * N); memset(s, 0, sizeof *s * N); bfdev_notifier_init(&head); seqno = 0; int span = d_chance(1, 3) ? 3 : d_bool() ? 20 : INT_MAX / 2, steps = d_range(2, big ? 700 : 40), most = 0; bool edge = d_chance(1, 6);
    while (steps--) {
        int i = d_u64(N - 1);
        switch (big && d_chance(9, 10) ? 0 : d_u64(5)) {
            case 0: case 1: case 2: if (s[i].on) break; s[i].n.priority = s[i].pr = edge ? (d_bool() ? INT_MAX - (int)d_u64(2) : INT_MIN + (int)d_u64(2)) : d_srange(-span, span); s[i].n.entry = d_chance(1, 12) ? NULL : entry; s[i].n.pdata = (void *)(intptr_t)(i + 1); TRACE("register %d with priority %d%s", i, s[i].pr, s[i].n.entry ? "" : " without a function"); int r = bfdev_notifier_register(&head, &s[i].n); CHECK_EQ(r, s[i].n.entry ? 0 : -BFDEV_EINVAL, "register"); s[i].on = !r; break;
            case 3: if (s[i].on) { TRACE("unregister %d", i); unreg(i); } break;
            default: {
                nplan = chain(plan); if (nplan > most) most = nplan; for (int k = 0; k < N; k++) { s[k].ret = (d_chance(1, 10) ? BFDEV_NOTIFI_RET_STOP : 0) | (d_chance(1, 8) ? BFDEV_NOTIFI_RET_REMOVE : 0); s[k].act = d_chance(1, 8) ? d_range(1, big ? 2 * N : 40) : 0; }
                unsigned limit = d_chance(1, 3) ? d_u64(nplan + 1) : -1u, cnt = 0; cur_arg = (void *)(uintptr_t)d_u64(1000); calls = 0; bool ask = d_chance(3, 4); TRACE("notify, at most %u calls", limit); int ret = bfdev_notifier_call(&head, cur_arg, limit, ask ? &cnt : NULL);
                if (ask) CHECK_EQ(cnt, calls, "reported number of calls"); CHECK((unsigned)calls <= limit, "%d calls, the limit is %u", calls, limit); int last = -1; bool stopped = false;
                for (int k = 0; k < calls; k++) { CHECK(!stopped, "a subscriber was called after %d asked to stop", last); CHECK(last < 0 || !before(order[k], last), "%d (priority %d) is called after %d (priority %d)", order[k], s[order[k]].pr, last, s[last].pr); last = order[k]; if (s[last].ret & BFDEV_NOTIFI_RET_STOP) stopped = true; }
                /* everyone who is still registered and within the limit was called */ if (!stopped && (unsigned)calls < limit) for (int k = 0; k < N; k++) if (s[k].on) { bool c = false; for (int q = 0; q < calls; q++) c |= order[q] == k; CHECK(c, "subscriber %d was not called", k); }
                if (calls && ((unsigned)calls == limit) && !stopped) for (int k = 0; k < N; k++) if (s[k].on) { bool c = false; for (int q = 0; q < calls; q++) c |= order[q] == k; CHECK(c || !before(k, last), "%d was passed over", k); }
                CHECK_EQ(ret, last < 0 ? 0 : s[last].ret & BFDEV_NOTIFI_RET_STOP, "result of the notification"); for (int k = 0; k < calls; k++) if (s[order[k]].ret & BFDEV_NOTIFI_RET_REMOVE) pbt_class("removed on request"); if (stopped) pbt_class("stopped"); if (limit != -1u && (unsigned)calls == limit) pbt_class("limited"); if (!calls) pbt_class("nobody called");
            } break;
        }
        /* the chain itself */ int now[MAX], n = sorted(now), k = 0, lastp = 0; bfdev_notifier_node_t *w; bfdev_ilist_for_each_entry(w, &head.nodes, list) { int q = (int)(intptr_t)w->pdata - 1; CHECK(q >= 0 && q < N && s[q].on && w == &s[q].n, "the chain holds a subscriber that is not registered"); CHECK(!k || lastp <= s[q].pr, "the chain is not ordered"); lastp = s[q].pr; CHECK(k++ < n, "the chain is longer than %d", n); } CHECK_EQ(k, n, "length of the chain");
    }
    if (most > 3) pbt_nontrivial();
}

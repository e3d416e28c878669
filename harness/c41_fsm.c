#include "pbt.h"
#include "ta.h"
#include <bfdev/fsm.h>
#include <bfdev/errno.h>
const char *const pbt_id = "C41", *const pbt_rule = "";
enum { NS = 40, NT = 12, LOG = 200, DEEP = 4000 };
typedef struct { int kind, who; void *ev; int from, to; } rec; /* kind: 0 exit, 1 action, 2 enter */
static bfdev_fsm_state_t st[NS]; static bfdev_fsm_transition_t tr[NS][NT], extra[NS]; static int sid[NS], tid[NS * NT + NS];
static rec lg[LOG]; static int nl, fail_at, fail_code, exc_on[NS]; static bfdev_fsm_event_t *cur_ev;
static int note(int kind, int who, void *ev, int from, int to) { if (nl < LOG) lg[nl] = (rec){ kind, who, ev, from, to }; nl++; return nl - 1 == fail_at ? fail_code : 0; }
static int on_enter(bfdev_fsm_event_t *e, void *d) { return note(2, *(int *)d, e, 0, 0); }
static int on_exit_(bfdev_fsm_event_t *e, void *d) { return note(0, *(int *)d, e, 0, 0); }
static int on_act(bfdev_fsm_event_t *e, void *d, void *c, void *n) { return note(1, *(int *)d, e, *(int *)c, *(int *)n); }
static long guard(bfdev_fsm_event_t *e, const void *cond) { CHECK(e == cur_ev, "a guard was asked about another event"); return ((uintptr_t)e->pdata & (uintptr_t)cond) ? 0 : pbt_answer(d_bool() ? 1 : -1); }
static bfdev_fsm_transition_t *on_exc(bfdev_fsm_event_t *e, void *d) { int s = *(int *)d; CHECK(e == cur_ev, "an exception handler was asked about another event"); return exc_on[s] >> (e->type & 3) & 1 ? &extra[s] : NULL; }
static unsigned int tval[4], etype, ttype[NS * NT + NS]; /* the event types of a case: of the event at hand, of each transition */
/* the model */
typedef struct { int curr, prev, stack[DEEP], depth; bool moved; } model; static rec ml[LOG]; static int mn;
static int mnote(int kind, int who, int from, int to) { if (mn < LOG) ml[mn] = (rec){ kind, who, cur_ev, from, to }; mn++; return mn - 1 == fail_at ? fail_code : 0; }
static const bfdev_fsm_state_t *err;
#define ID(p) ((int)((p) - st))
static int handle(model *m, bfdev_fsm_event_t *e, int *popped)
{
    int result = BFDEV_FSM_NOCHANGE; *popped = 0; if (m->curr < 0) return -BFDEV_EINVAL;
    for (int hops = 0;; hops++) {
        if (hops > 20) return 12345; int h = m->curr; const bfdev_fsm_transition_t *t = NULL;
        for (; h >= 0; h = st[h].parent ? ID(st[h].parent) : -1) { for (unsigned i = 0; i < st[h].tnum && !t; i++) if (ttype[*(int *)st[h].trans[i].data] == etype && (!st[h].trans[i].guard || ((uintptr_t)e->pdata & (uintptr_t)st[h].trans[i].cond))) t = &st[h].trans[i]; if (!t && st[h].exception && exc_on[h] >> (e->type & 3) & 1) t = &extra[h]; if (t) break; }
        if (!t) return result; int next = t->next ? ID(t->next) : -1, r;
        if (next < 0 && t->stack < 0) { if (m->depth < -t->stack) return -BFDEV_EOVERFLOW; m->depth += t->stack; next = m->stack[m->depth]; *popped = 1; }
        if (next < 0) { m->prev = m->curr; m->curr = err ? ID(err) : -1; r = err && err->enter ? mnote(2, ID(err), 0, 0) : 0; return r ?: -BFDEV_ENOENT; }
        while (st[next].entry) next = ID(st[next].entry); int tno = *(int *)t->data;
        if (h != next && t->stack <= 0 && st[h].exit) if ((r = mnote(0, h, 0, 0))) return r; if (t->action) if ((r = mnote(1, tno, h, next))) return r; if (h != next && t->stack >= 0 && st[next].enter) if ((r = mnote(2, next, 0, 0))) return r;
        m->prev = m->curr; m->curr = next; *popped = 0; if (err == &st[next]) return -BFDEV_EFAULT; if (h == next) return BFDEV_FSM_SELFLOOP; if (!st[next].tnum && !st[next].exception) return BFDEV_FSM_FINISH; if (t->stack > 0) m->stack[m->depth++] = h; if (!t->cross) return BFDEV_FSM_CHANGED; result = BFDEV_FSM_CHANGED;
    }
}
static void compare(bfdev_fsm_t *f, model *m, const char *what)
{
    const bfdev_fsm_state_t *c = bfdev_fsm_curr(f), *p = bfdev_fsm_prev(f); CHECK((m->curr < 0 ? !c : c == &st[m->curr]), "%s: current state is %d, expected %d", what, c ? ID(c) : -1, m->curr); CHECK((m->prev < 0 ? !p : p == &st[m->prev]), "%s: previous state is %d, expected %d", what, p ? ID(p) : -1, m->prev);
    CHECK_EQ(bfdev_array_index(&f->stack), m->depth, "%s: stack depth", what); for (int i = 0; i < m->depth; i++) { const bfdev_fsm_state_t *s = *(const bfdev_fsm_state_t **)bfdev_array_data(&f->stack, i); CHECK(s == &st[m->stack[i]], "%s: stack entry %d is state %d, expected %d", what, i, ID(s), m->stack[i]); } if (c) CHECK(bfdev_fsm_finished(f) == (!c->tnum && !c->exception), "%s: finished", what);
}
void pbt_case(void)
{
    bool big = d_chance(1, 60); int n = d_range(2, big ? NS : 8), types = d_range(1, 3), tn = 0; err = d_chance(3, 4) ? &st[d_u64(n - 1)] : NULL; for (int i = 0; i < NS * NT + NS; i++) tid[i] = i; bool stacky = d_bool(), pushy = d_chance(1, 20), crossing = false; for (unsigned i = 0, far = d_chance(1, 4); i < 4; i++) tval[i] = !far || !i ? i : 1u << d_range(2, 31);
    for (int i = 0; i < n; i++) {
        sid[i] = i; st[i] = (bfdev_fsm_state_t){ .enter = d_chance(3, 4) ? on_enter : NULL, .exit = d_chance(3, 4) ? on_exit_ : NULL, .exception = d_chance(1, 6) ? on_exc : NULL, .data = &sid[i], .trans = tr[i], .tnum = d_chance(1, 8) ? 0 : d_range(1, big ? NT : 4), .parent = i && d_chance(1, 2) ? &st[d_u64(i - 1)] : NULL }; exc_on[i] = d_u64(15);
        if (i + 1 < n && d_chance(1, 4)) st[i].entry = &st[d_range(i + 1, n - 1)];
        for (unsigned k = 0; k <= st[i].tnum; k++) { bfdev_fsm_transition_t *t = k == st[i].tnum ? &extra[i] : &tr[i][k]; *t = (bfdev_fsm_transition_t){ .type = ttype[tn] = tval[d_u64(types)], .next = d_chance(1, 25) ? NULL : &st[d_u64(n - 1)], .cross = d_chance(1, 6), .action = d_chance(2, 3) ? on_act : NULL, .data = &tid[tn++] }; crossing |= t->cross; if (d_chance(1, 2)) { t->guard = guard; t->cond = (void *)d_range(1, 7); } if (d_chance(stacky ? 1 : 0, 3)) { t->stack = (pushy ? d_chance(9, 10) : d_bool()) ? 1 : -(int)(d_chance(1, 30) ? d_range(3, 300) : d_range(1, 2)); if (t->stack < 0 && d_chance(5, 6)) t->next = NULL; }
            TRACE("state %d transition %d: type %u condition %#lx next %d cross %d stack %d action %d", i, tid[tn - 1], t->type, (unsigned long)(uintptr_t)t->cond, t->next ? ID(t->next) : -1, t->cross, t->stack, !!t->action); }
        TRACE("state %d: parent %d entry %d%s%s%s, %u transitions", i, st[i].parent ? ID(st[i].parent) : -1, st[i].entry ? ID(st[i].entry) : -1, st[i].enter ? " enter" : "", st[i].exit ? " exit" : "", st[i].exception ? " exception" : "", st[i].tnum);
    }
    ta_t ta; ta_init(&ta); int init = d_u64(n - 1); bfdev_fsm_t f; memset(&f, 0xa5, sizeof f); bfdev_fsm_init(&f, &ta.alloc, &st[init], err); static model m; m = (model){ .curr = init, .prev = -1 }; compare(&f, &m, "init"); int steps = d_range(1, big || pushy && d_chance(1, 3) ? 3000 : 30), changed = 0, deepest = 0; TRACE("error state %d, start in %d", err ? ID(err) : -1, init);
    while (steps--) {
        if (d_chance(1, pushy ? 1000 : 25)) { init = d_u64(n - 1); TRACE("reset to %d", init); bfdev_fsm_reset(&f, &st[init]); m = (model){ .curr = init, .prev = -1 }; compare(&f, &m, "reset"); continue; }
        bfdev_fsm_event_t e = { .type = etype = tval[d_u64(types)], .pdata = (void *)d_u64(7) }; cur_ev = &e; nl = mn = 0; fail_at = d_chance(1, 6) ? d_u64(3) : -1; fail_code = d_bool() ? -(int)d_range(1, 50) : d_range(1, 50); int popped;
        if (d_chance(1, 40)) { TRACE("forced error"); int r = bfdev_fsm_error(&f, &e); m.prev = m.curr; m.curr = err ? ID(err) : -1; int w = err && err->enter ? mnote(2, ID(err), 0, 0) : 0; CHECK_EQ(r, w, "forced error's result"); CHECK_EQ(nl, mn, "actions of the forced error"); compare(&f, &m, "forced error"); continue; }
        static model q; q = m; int want = handle(&q, &e, &popped); if (want == 12345 || q.depth > DEEP - 50) continue; 
        int kf = d_chance(1, 12); if (kf) ta.fail_all = true; ta.failed = false; TRACE("event type %u data %#lx%s%s", e.type, (unsigned long)(uintptr_t)e.pdata, fail_at >= 0 ? ", an action fails" : "", kf ? ", no memory" : ""); int r = bfdev_fsm_handle(&f, &e); ta.fail_all = false;
        if (ta.failed) { /* the push had no memory: that transition does not happen */ CHECK(r == -BFDEV_ENOMEM, "an event whose push has no memory returned %d", r); if (!crossing) { CHECK(nl == 0, "actions ran although the push had no memory"); compare(&f, &m, "failed push"); } else { bfdev_array_release(&f.stack); bfdev_fsm_reset(&f, &st[init]); m = (model){ .curr = init, .prev = -1 }; } pbt_class("no memory"); continue; }
        CHECK(r == want, "event of type %u returned %d, expected %d", e.type, r, want); CHECK_EQ(nl, mn, "number of actions run"); for (int i = 0; i < nl && i < LOG; i++) { static const char *const kn[] = { "exit", "transition", "entry" }; CHECK(lg[i].kind == ml[i].kind && lg[i].who == ml[i].who && lg[i].from == ml[i].from && lg[i].to == ml[i].to, "action %d is the %s action of %d, expected the %s action of %d", i, kn[lg[i].kind], lg[i].who, kn[ml[i].kind], ml[i].who); CHECK(lg[i].ev == &e, "an action received another event"); }
        if (popped) { /* a pop whose action failed: the entry may or may not be gone */ bfdev_array_release(&f.stack); q.depth = 0; pbt_class("failed pop"); } m = q; compare(&f, &m, "event"); if (m.depth > deepest) deepest = m.depth;
        if (r >= 0 && r != BFDEV_FSM_NOCHANGE) changed++; static const char *const rn[] = { "changed", "unchanged", "self-loop", "finished" }; pbt_class(r < 0 || r > 3 ? "error" : rn[r]);
    }
    bfdev_array_release(&f.stack); ta_check_empty(&ta, "releasing the stack"); if (changed > 2) pbt_nontrivial(); if (deepest > 255) pbt_class("deep stack");
}

#include "pbt.h"
#include <bfdev/ratelimit.h>
#include <bfdev/tokenbucket.h>
const char *const pbt_id = "C44", *const pbt_rule = "";
static bool crowd; typedef bfdev_time_t Tm; typedef __int128 W;
static Tm step_of(Tm iv, Tm phase, W *room) { W s; if (crowd && d_chance(99, 100)) return 0; switch (d_u64(8)) { case 0: case 1: s = 0; break; case 2: s = d_u64(3); break; case 3: s = iv - 1 + (W)d_u64(2); break; case 4: s = (W)iv - phase + d_srange(-1, 1); break; case 5: s = d_u64(iv); break; case 6: s = (W)iv * d_u64(5) + d_u64(2); break; case 7: s = d_edge(62); break; default: s = (W)iv * d_edge(34); } if (s < 0) s = 0; if (s > *room) s = d_chance(1, 4) ? *room : 0; *room -= s; return s; }
static Tm start_time(void) { switch (d_u64(5)) { case 0: case 1: return 0; case 2: return d_u64(5); case 3: return -(Tm)d_edge(40); case 4: return 1700000000000ll + d_u64(1000000); default: return -(Tm)d_u64(5); } }
static Tm interval(void) { switch (d_u64(5)) { case 0: return 1; case 1: return 1 + d_u64(9); case 2: return 1 + d_u64(10000); case 3: return 1 + d_edge(62); case 4: return INT64_MAX - d_u64(3); default: return d_chance(1, 5) ? 0 : 50; } }
static int how_many(unsigned *cap) { if (!d_chance(1, 150)) return d_range(1, 40); if (d_bool()) *cap = d_u64(3000); return d_chance(1, 6) ? d_range(65000, 80000) : d_range(300, 6000); } /* rarely a long history, mostly within one interval */
static void rate(void)
{
    Tm iv = interval(), t = start_time(), t0 = t; unsigned burst = d_chance(1, 8) ? 0 : d_chance(1, 10) ? d_edge(32) : 1 + d_u64(6); int steps = how_many(&burst); crowd = steps > 40; W room = (W)INT64_MAX - (t > 0 ? t : 0); bfdev_ratelimit_t *l = g_alloc(sizeof *l); bfdev_ratelimit_init(l, iv, burst);
    bool open = false; W begin = 0; uint64_t in = 0, missed = 0; int windows = 0, refused = 0; TRACE("limiter: %u per %ld", burst, (long)iv);
    while (steps--) {
        if (d_chance(1, crowd ? 20000 : 25)) { TRACE("reset"); bfdev_ratelimit_reset(l); open = false; in = missed = 0; continue; }
        if (d_chance(1, crowd ? 3000 : 8) && t > t0) { W back = d_bool() ? d_u64(5) : d_chance(1, 3) ? (W)iv * d_u64(4) + d_u64(3) : d_edge(62); if (back > (W)t - t0) back = (W)t - t0; t -= (Tm)back; if (back) pbt_class("the clock went back"); }
        else t += step_of(iv, open && t >= begin ? (Tm)((t - begin) > iv ? 0 : t - begin) : 0, &room); bool got = bfdev_ratelimit(l, t), want; TRACE("event at %ld: %s", (long)t, got ? "admitted" : "refused");
        if (!iv) { CHECK(got, "a limiter without interval refused"); continue; }
        if (!open || (W)t - begin > iv) { if (open) windows++; open = true; begin = t; in = 0; } want = in < burst; if (want) in++; else { missed++; refused++; }
        CHECK(got == want, "event at %ld %s; the interval began at %ld, %llu of %u were admitted before", (long)t, got ? "admitted" : "refused", (long)begin, (unsigned long long)(in - want), burst); CHECK_EQ(l->missed, (unsigned)missed, "counted refusals");
    }
    if (windows && refused) pbt_nontrivial(); if (crowd) pbt_class("long history");
}
static void bucket(void)
{
    Tm iv = interval(), t = start_time(); unsigned cap = d_chance(1, 8) ? 0 : d_chance(1, 5) ? d_edge(32) : 1 + d_u64(6); int steps = how_many(&cap); crowd = steps > 40; W room = (W)INT64_MAX - (t > 0 ? t : 0); bfdev_tokenbucket_t *l = g_alloc(sizeof *l); bfdev_tokenbucket_init(l, iv, cap);
    bool open = false; W last = 0; uint64_t cur = 0, passed = 0, missed = 0, supply = 0, grants = 0, genr = 0; int refused = 0; TRACE("bucket: one per %ld, up to %u", (long)iv, cap); W first = 0;
    while (steps--) {
        if (d_chance(1, crowd ? 20000 : 25)) { TRACE("reset"); bfdev_tokenbucket_reset(l); open = false; passed = missed = 0; continue; }
        t += step_of(iv, open ? (Tm)(((W)t - last) % (iv ? iv : 1)) : 0, &room);
        if (iv && open && d_chance(1, 25)) { TRACE("restart at %ld", (long)t); bfdev_tokenbucket_update(l, t); last = t; continue; }
        bool got = bfdev_tokenbucket(l, t), want; TRACE("request at %ld: %s", (long)t, got ? "granted" : "refused"); if (!iv) { CHECK(got, "a bucket without interval refused"); continue; }
        if (!open) { open = true; last = t; cur = cap; } W g = ((W)t - last) / iv; last += g * iv; if (g >= cap) cur = cap; else { cur += g; if (cur > cap) cur = cap; } if (g) genr++; want = cur > 0; if (want) { cur--; passed++; } else { missed++; refused++; }
        CHECK(got == want, "request at %ld %s while %llu tokens were stored", (long)t, got ? "granted" : "refused", (unsigned long long)(cur + want)); CHECK_EQ(l->missed, (unsigned)missed, "counted refusals"); CHECK_EQ(l->passed, (unsigned)passed, "counted grants");
    }
    if (refused && genr) pbt_nontrivial(); if (crowd) pbt_class("long history");
}
void pbt_case(void) { if (d_bool()) rate(); else bucket(); }

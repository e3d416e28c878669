#include "pbt.h"
#include <bfdev/overflow.h>
#include <bfdev/bitfield.h>
#include <bfdev/errptr.h>
const char *const pbt_id = "C06", *const pbt_rule = "";
typedef __int128 s128;
typedef unsigned __int128 u128;
#define OV(name, T, MIN, MAX) static void ov_##name(void) { \
    T a = (T)d_edge64(), b = (T)d_edge64(), d, x; int rel = d_u64(5); if (rel == 0) b = (T)((uint64_t)MAX - (uint64_t)a); else if (rel == 1) b = (T)((uint64_t)MAX - (uint64_t)a + 1); else if (rel == 2 && a) b = (T)(MAX / a); else if (rel == 3 && a) b = (T)((uint64_t)(MAX / a) + 1); else if (rel == 4 && a && (MIN) != 0 && a != (T)-1) b = (T)((MIN) / a); \
    a = HIDE(a); b = HIDE(b); TRACE(#name " %lld %lld", (long long)a, (long long)b); \
    for (int op = 0; op < 3; op++) { bool o; T s; s128 t; bool unf = false; \
        if (op == 0) { t = (s128)a + b; o = bfdev_overflow_check_add(a, b, &d); s = bfdev_overflow_add_##name(a, b); x = bfdev_overflow_add(a, b); } \
        else if (op == 1) { t = (s128)a - b; o = bfdev_overflow_check_sub(a, b, &d); s = bfdev_overflow_sub_##name(a, b); x = bfdev_overflow_sub(a, b); } \
        else { if (sizeof(T) == 8 && (T)-1 > 0) { u128 ut = (u128)a * b; unf = ut > (u128)(MAX); t = unf ? 0 : (s128)ut; } else t = (s128)a * b; o = bfdev_overflow_check_mul(a, b, &d); s = bfdev_overflow_mul_##name(a, b); x = bfdev_overflow_mul(a, b); } \
        bool fits = !unf && t >= (s128)(MIN) && t <= (s128)(MAX); CHECK(o == !fits, #name " op %d on %lld and %lld: overflow reported %d", op, (long long)a, (long long)b, o); \
        if (fits) CHECK(d == (T)t, #name " op %d on %lld and %lld: stored %lld", op, (long long)a, (long long)b, (long long)d); \
        T e = fits ? (T)t : (T)~0ull; CHECK(s == e, #name " op %d on %lld and %lld: saturated %lld, expected %lld", op, (long long)a, (long long)b, (long long)s, (long long)e); CHECK(x == e, #name " typed op %d on %lld and %lld: %lld, expected %lld", op, (long long)a, (long long)b, (long long)x, (long long)e); \
        if (!fits) pbt_class("overflowing"); else pbt_class("fitting"); } }
OV(s8, int8_t, INT8_MIN, INT8_MAX) OV(s16, int16_t, INT16_MIN, INT16_MAX) OV(s32, int32_t, INT32_MIN, INT32_MAX) OV(s64, int64_t, INT64_MIN, INT64_MAX)
OV(u8, uint8_t, 0, UINT8_MAX) OV(u16, uint16_t, 0, UINT16_MAX) OV(u32, uint32_t, 0, UINT32_MAX) OV(u64, uint64_t, 0, UINT64_MAX)
#define FLD(T) do { unsigned W = 8 * sizeof(T), lo = d_u64(W - 1), n = d_range(1, W - lo); T mask = HIDE((T)((n == 64 ? ~0ull : (1ull << n) - 1) << lo)), max = (T)(n == 64 ? ~0ull : (1ull << n) - 1), reg = (T)d_edge64(), val = (T)d_edge64(); if (d_bool()) val &= max; \
    reg = HIDE(reg); val = HIDE(val); TRACE("field %u bits at %u of %u, value %#llx in %#llx", n, lo, W, (long long)val, (long long)reg); \
    CHECK((T)BFDEV_FIELD_MAX(mask) == max, "FIELD_MAX of %#llx", (long long)mask); CHECK((T)BFDEV_FIELD_GET(mask, reg) == (T)((reg & mask) >> lo), "FIELD_GET of %#llx from %#llx", (long long)mask, (long long)reg); \
    CHECK(!!BFDEV_FIELD_FIT(mask, val) == (val <= max), "FIELD_FIT of %#llx in %#llx: %d", (long long)val, (long long)mask, !!BFDEV_FIELD_FIT(mask, val)); \
    T p = BFDEV_FIELD_PREP(mask, val); CHECK(!(p & (T)~mask), "FIELD_PREP of %#llx in %#llx sets bits outside the field", (long long)val, (long long)mask); CHECK((T)BFDEV_FIELD_GET(mask, p) == (T)(val & max), "a packed value is not extracted again"); \
    T nr = (T)((reg & (T)~mask) | p); CHECK((T)BFDEV_FIELD_GET(mask, nr) == (T)(val & max) && (nr & (T)~mask) == (reg & (T)~mask), "field update"); \
    uint8_t v8 = HIDE((uint8_t)val); uint16_t v16 = HIDE((uint16_t)val); uint64_t v64 = HIDE((uint64_t)val), r64 = HIDE(d_edge64() << 8 | (T)reg); int vi = HIDE((int)(val & 0x7f)); /* values and registers of another width than the mask */ \
    CHECK((T)BFDEV_FIELD_PREP(mask, v8) == (T)((T)((T)v8 << lo) & mask) && (T)BFDEV_FIELD_PREP(mask, v16) == (T)((T)((T)v16 << lo) & mask) && (T)BFDEV_FIELD_PREP(mask, v64) == (T)((T)((T)v64 << lo) & mask) && (T)BFDEV_FIELD_PREP(mask, vi) == (T)((T)((T)vi << lo) & mask), "FIELD_PREP of a value of another width than %#llx", (long long)mask); \
    CHECK((T)BFDEV_FIELD_GET(mask, v8) == (T)((T)(v8 & mask) >> lo) && (T)BFDEV_FIELD_GET(mask, v16) == (T)((T)(v16 & mask) >> lo) && (T)BFDEV_FIELD_GET(mask, r64) == (T)((T)(r64 & mask) >> lo), "FIELD_GET from a register of another width than %#llx", (long long)mask); \
    CHECK(!!BFDEV_FIELD_FIT(mask, v8) == ((T)v8 <= max) && !!BFDEV_FIELD_FIT(mask, v16) == ((T)v16 <= max) && !!BFDEV_FIELD_FIT(mask, vi) == ((T)vi <= max), "FIELD_FIT of a value of another width than %#llx", (long long)mask); } while (0)
static void field(void) { switch (d_u64(4)) { case 0: FLD(uint8_t); break; case 1: FLD(uint16_t); break; case 2: FLD(uint32_t); break; case 3: FLD(uint64_t); break; default: FLD(unsigned long); }
    CHECK(BFDEV_FIELD_GET(0xff00u, 0x12345678u) == 0x56 && BFDEV_FIELD_PREP(0xf0ul, 0x5) == 0x50 && BFDEV_FIELD_FIT(0xf0ul, 15) && !BFDEV_FIELD_FIT(0xf0ul, 16) && BFDEV_FIELD_MAX(0x7ul << 61) == 7, "constant fields"); pbt_class("bit-field"); }
static void errp(void)
{
    int e = HIDE(d_bool() ? (int)d_range(1, BFDEV_ERRNO_MAX) : (int)d_of(((int[]){ 1, 2, 38, 133, 255, 256, 4094, 4095 }))); void *p = BFDEV_ERR_PTR(-e);
    TRACE("error %d", e);
    CHECK(BFDEV_IS_ERR(p) && BFDEV_IS_INVAL(p), "error %d is not recognized", e); CHECK(BFDEV_PTR_ERR(p) == -e && BFDEV_PTR_ERR_ZERO(p) == -e && BFDEV_PTR_INVAL(p) == -e && BFDEV_PTR_INVAL_ZERO(p) == -e, "error %d does not round-trip", e);
    uint64_t v = d_edge64(); if (d_chance(1, 3)) v = ~0ull - BFDEV_ERRNO_MAX - d_u64(8); if (v >= -(uint64_t)BFDEV_ERRNO_MAX || !v) v = 0x1000; void *q = (void *)HIDE(v);
    TRACE("pointer %#lx", v);
    CHECK(!BFDEV_IS_ERR(q) && !BFDEV_IS_INVAL(q) && BFDEV_PTR_ERR_ZERO(q) == 0 && BFDEV_PTR_INVAL_ZERO(q) == 0, "the ordinary pointer %p is taken for an error", q);
    void *n = HIDE((void *)0); CHECK(!BFDEV_IS_ERR(n) && BFDEV_IS_INVAL(n) && BFDEV_PTR_ERR_ZERO(n) == 0 && BFDEV_PTR_INVAL_ZERO(n) == -BFDEV_EPERM && BFDEV_PTR_INVAL(n) == -BFDEV_EPERM, "null pointer");
    pbt_class("error pointer");
}
void pbt_case(void)
{
    static void (*const f[])(void) = { ov_s8, ov_s16, ov_s32, ov_s64, ov_u8, ov_u16, ov_u32, ov_u64, field, errp };
    f[d_u64(9)](); pbt_nontrivial();
}

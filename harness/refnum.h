/* Reference big integers: sign + magnitude in 32-bit limbs, schoolbook algorithms. */
#ifndef REFNUM_H
#define REFNUM_H
#include "pbt.h"
#define RN_MAX 160
typedef struct { bool neg; int n; uint32_t d[RN_MAX]; } rn_t;   /* n = significant limbs; zero: n=0, neg=false */
static inline void rn_norm(rn_t *a) { while (a->n && !a->d[a->n - 1]) a->n--; if (!a->n) a->neg = false; }
static inline void rn_from64(rn_t *a, const uint64_t *v, int cnt, bool neg)
{ a->neg = neg; a->n = 2 * cnt; for (int i = 0; i < cnt; i++) { a->d[2*i] = (uint32_t)v[i]; a->d[2*i+1] = v[i] >> 32; } rn_norm(a); }
static inline void rn_i(rn_t *a, uint64_t v) { rn_from64(a, &v, 1, false); }
static inline int rn_cmpmag(const rn_t *a, const rn_t *b)
{ if (a->n != b->n) return a->n < b->n ? -1 : 1; for (int i = a->n; i--; ) if (a->d[i] != b->d[i]) return a->d[i] < b->d[i] ? -1 : 1; return 0; }
static inline int rn_cmp(const rn_t *a, const rn_t *b)
{ if (a->neg != b->neg) return a->neg ? -1 : 1; int c = rn_cmpmag(a, b); return a->neg ? -c : c; }
static inline void rn_addmag(rn_t *r, const rn_t *a, const rn_t *b)
{ rn_t t; int n = a->n > b->n ? a->n : b->n; uint64_t c = 0; for (int i = 0; i < n; i++) { c += (uint64_t)(i < a->n ? a->d[i] : 0) + (i < b->n ? b->d[i] : 0); t.d[i] = (uint32_t)c; c >>= 32; } t.d[n] = c; t.n = n + 1; t.neg = false; rn_norm(&t); *r = t; }
static inline void rn_submag(rn_t *r, const rn_t *a, const rn_t *b) /* |a| >= |b| */
{ rn_t t; int64_t c = 0; for (int i = 0; i < a->n; i++) { c += (int64_t)a->d[i] - (i < b->n ? b->d[i] : 0); t.d[i] = (uint32_t)c; c >>= 32; } t.n = a->n; t.neg = false; rn_norm(&t); *r = t; }
static inline void rn_add(rn_t *r, const rn_t *a, const rn_t *b)
{ bool na = a->neg, nb = b->neg;
  if (na == nb) { rn_addmag(r, a, b); r->neg = na && r->n; }
  else if (rn_cmpmag(a, b) >= 0) { rn_submag(r, a, b); r->neg = na && r->n; }
  else { rn_submag(r, b, a); r->neg = nb && r->n; } }
static inline void rn_sub(rn_t *r, const rn_t *a, const rn_t *b) { rn_t t = *b; if (t.n) t.neg = !t.neg; rn_add(r, a, &t); }
static inline void rn_mul(rn_t *r, const rn_t *a, const rn_t *b)
{ rn_t t; memset(t.d, 0, sizeof(uint32_t) * (a->n + b->n + 1)); 
  for (int i = 0; i < a->n; i++) { uint64_t c = 0; for (int j = 0; j < b->n; j++) { c += (uint64_t)a->d[i] * b->d[j] + t.d[i+j]; t.d[i+j] = (uint32_t)c; c >>= 32; } t.d[i + b->n] = (uint32_t)c; }
  t.n = a->n + b->n; t.neg = a->neg != b->neg; rn_norm(&t); *r = t; }
static inline void rn_shl(rn_t *r, const rn_t *a, unsigned s)
{ rn_t t; unsigned w = s / 32, b = s % 32; memset(t.d, 0, sizeof(uint32_t) * (a->n + w + 1));
  for (int i = 0; i < a->n; i++) { uint64_t v = (uint64_t)a->d[i] << b; t.d[i + w] |= (uint32_t)v; t.d[i + w + 1] |= v >> 32; }
  t.n = a->n + w + 1; t.neg = a->neg; rn_norm(&t); *r = t; }
static inline void rn_shr(rn_t *r, const rn_t *a, uint64_t s)
{ rn_t t; uint64_t w = s / 32; unsigned b = s % 32; t.n = 0; t.neg = a->neg;
  for (int i = 0; i < a->n; i++) if (i >= w) { uint64_t v = a->d[i] | (i + 1 < a->n ? (uint64_t)a->d[i + 1] << 32 : 0); t.d[i - w] = (uint32_t)(v >> b); t.n = i - w + 1; }
  rn_norm(&t); *r = t; }
static inline bool rn_bit(const rn_t *a, uint64_t i) { return i / 32 < (uint64_t)a->n && (a->d[i / 32] >> (i % 32) & 1); }
#endif

#include "pbt.h"
#include "giant.h"
#include "ta.h"
#include <bfdev/string.h>
#include <bfdev/ctype.h>
#include <bfdev/errname.h>
#include <bfdev/errno.h>
const char *const pbt_id = "C40", *const pbt_rule = "";
static const struct { int num; const char *name; } errs[] = {
    { 0, "ENOERR" }, { 1, "EPERM" }, { 2, "ENOENT" }, { 3, "ESRCH" }, { 4, "EINTR" }, { 5, "EIO" }, { 6, "ENXIO" }, { 7, "E2BIG" }, 
    { 8, "ENOEXEC" }, { 9, "EBADF" }, { 10, "ECHILD" }, { 11, "EAGAIN" }, { 12, "ENOMEM" }, { 13, "EACCES" }, { 14, "EFAULT" }, { 15, "ENOTBLK" }, 
    { 16, "EBUSY" }, { 17, "EEXIST" }, { 18, "EXDEV" }, { 19, "ENODEV" }, { 20, "ENOTDIR" }, { 21, "EISDIR" }, { 22, "EINVAL" }, { 23, "ENFILE" }, 
    { 24, "EMFILE" }, { 25, "ENOTTY" }, { 26, "ETXTBSY" }, { 27, "EFBIG" }, { 28, "ENOSPC" }, { 29, "ESPIPE" }, { 30, "EROFS" }, { 31, "EMLINK" }, 
    { 32, "EPIPE" }, { 33, "EDOM" }, { 34, "ERANGE" }, { 35, "EDEADLK" }, { 36, "ENAMETOOLONG" }, { 37, "ENOLCK" }, { 38, "ENOSYS" }, { 59, "EBFONT" }, 
    { 60, "ENOSTR" }, { 61, "ENODATA" }, { 62, "ETIME" }, { 63, "ENOSR" }, { 64, "ENONET" }, { 65, "ENOPKG" }, { 66, "EREMOTE" }, { 67, "ENOLINK" }, 
    { 68, "EADV" }, { 69, "ESRMNT" }, { 70, "ECOMM" }, { 71, "EPROTO" }, { 72, "EMULTIHOP" }, { 73, "EDOTDOT" }, { 74, "EBADMSG" }, { 75, "EOVERFLOW" }, 
    { 76, "ENOTUNIQ" }, { 77, "EBADFD" }, { 78, "EREMCHG" }, { 79, "ELIBACC" }, { 80, "ELIBBAD" }, { 81, "ELIBSCN" }, { 82, "ELIBMAX" }, { 83, "ELIBEXEC" }, 
    { 84, "EILSEQ" }, { 85, "ERESTART" }, { 86, "ESTRPIPE" }, { 87, "EUSERS" }, { 88, "ENOTSOCK" }, { 89, "EDESTADDRREQ" }, { 90, "EMSGSIZE" }, { 91, "EPROTOTYPE" }, 
    { 92, "ENOPROTOOPT" }, { 93, "EPROTONOSUPPORT" }, { 94, "ESOCKTNOSUPPORT" }, { 95, "EOPNOTSUPP" }, { 96, "EPFNOSUPPORT" }, { 97, "EAFNOSUPPORT" }, { 98, "EADDRINUSE" }, { 99, "EADDRNOTAVAIL" }, 
    { 100, "ENETDOWN" }, { 101, "ENETUNREACH" }, { 102, "ENETRESET" }, { 103, "ECONNABORTED" }, { 104, "ECONNRESET" }, { 105, "ENOBUFS" }, { 106, "EISCONN" }, { 107, "ENOTCONN" }, 
    { 108, "ESHUTDOWN" }, { 109, "ETOOMANYREFS" }, { 110, "ETIMEDOUT" }, { 111, "ECONNREFUSED" }, { 112, "EHOSTDOWN" }, { 113, "EHOSTUNREACH" }, { 114, "EALREADY" }, { 115, "EINPROGRESS" }, 
    { 116, "ESTALE" }, { 117, "EUCLEAN" }, { 118, "ENOTNAM" }, { 119, "ENAVAIL" }, { 120, "EISNAM" }, { 121, "EREMOTEIO" }, { 122, "EDQUOT" }, { 123, "ENOMEDIUM" }, 
    { 124, "EMEDIUMTYPE" }, { 125, "ECANCELED" }, { 126, "ENOKEY" }, { 127, "EKEYEXPIRED" }, { 128, "EKEYREVOKED" }, { 129, "EKEYREJECTED" }, 
};
#define CLASSES(X) X(isupper, c >= 'A' && c <= 'Z') X(islower, c >= 'a' && c <= 'z') X(isdigit, c >= '0' && c <= '9') X(isalpha, (c | 32) >= 'a' && (c | 32) <= 'z') X(isalnum, (c >= '0' && c <= '9') || ((c | 32) >= 'a' && (c | 32) <= 'z')) \
    X(isxdigit, (c >= '0' && c <= '9') || ((c | 32) >= 'a' && (c | 32) <= 'f')) X(iscntrl, c < 32 || c == 127) X(isblank, c == ' ' || c == 9) X(isspace, c == ' ' || (c >= 9 && c <= 13)) X(isgraph, c > 32 && c < 127) X(ispunct, c > 32 && c < 127 && !(c >= '0' && c <= '9') && !((c | 32) >= 'a' && (c | 32) <= 'z')) X(isascii, c < 128)
static bool w_isprint(int c) { return c >= 32 && c < 127; }
static void classes(int c)
{
#define X(name, def) CHECK(!!bfdev_##name(HIDE(c)) == !!(def), "bfdev_" #name "(%#x) is %d", c, !!bfdev_##name(HIDE(c))); CHECK(!!bfdev_##name##_const(HIDE(c)) == !!(def), "constant bfdev_" #name "(%#x) is %d", c, !!bfdev_##name##_const(HIDE(c)));
    if (c < 128) { CLASSES(X) CHECK(!!bfdev_isprint(HIDE(c)) == w_isprint(c), "bfdev_isprint(%#x) is %d", c, !!bfdev_isprint(HIDE(c))); CHECK(!!bfdev_isprint_const(HIDE(c)) == w_isprint(c), "constant bfdev_isprint(%#x)", c); }
    else { CHECK(!bfdev_isascii(HIDE(c)) && !bfdev_isdigit(HIDE(c)) && !bfdev_isxdigit(HIDE(c)) && !bfdev_isblank(HIDE(c)) && !bfdev_isascii_const(HIDE(c)), "%#x is classified as an ASCII character", c); }
    int s = HIDE((int)(signed char)c); CHECK_EQ(bfdev_toupper(c), c >= 'a' && c <= 'z' ? c - 32 : c, "toupper(%#x)", c); CHECK_EQ(bfdev_tolower(c), c >= 'A' && c <= 'Z' ? c + 32 : c, "tolower(%#x)", c); CHECK_EQ(bfdev_toascii(c), c & 127, "toascii(%#x)", c);
    /* a plain char may be negative */ CHECK(!!bfdev_isalnum(s) == !!bfdev_isalnum(HIDE(c)) && !!bfdev_isspace(s) == !!bfdev_isspace(HIDE(c)) && !!bfdev_isprint(s) == !!bfdev_isprint(HIDE(c)) && !!bfdev_isascii(s) == !!bfdev_isascii(HIDE(c)), "the class of %d differs from that of %d", s, c); CHECK(s < -128 || bfdev_toupper(s) == bfdev_toupper(c), "toupper(%d)", s);
}
/* the constant forms with real constants */
static void constants(void)
{
#undef X
#define Y(name, ch) { enum { c = ch }; (void)c; CHECK(!!bfdev_##name(ch) == !!bfdev_##name##_dynamic(HIDE(ch)), "bfdev_" #name " of the constant %#x differs from the run-time answer", ch); }
#define Z(ch) Y(isupper, ch) Y(islower, ch) Y(isdigit, ch) Y(isalpha, ch) Y(isalnum, ch) Y(isxdigit, ch) Y(iscntrl, ch) Y(isblank, ch) Y(isspace, ch) Y(isgraph, ch) Y(ispunct, ch) Y(isascii, ch) Y(isprint, ch)
    Z(0) Z(8) Z(9) Z(10) Z(11) Z(13) Z(14) Z(31) Z(' ') Z('!') Z('/') Z('0') Z('9') Z(':') Z('@') Z('A') Z('F') Z('G') Z('Z') Z('[') Z('`') Z('a') Z('f') Z('g') Z('z') Z('{') Z('~') Z(127)
}
static void errors(int e)
{
    const char *n = NULL, *info = (void *)1; long long a = e < 0 ? -(long long)e : e; for (size_t i = 0; i < sizeof errs / sizeof *errs; i++) if (errs[i].num == a) n = errs[i].name; TRACE("name of error %d", e); bool ask = d_bool(); const char *r = bfdev_errname(e, ask ? &info : NULL); bfdev_errname_t *t = bfdev_errname_find(e);
    if (!n) { CHECK(!r && !t, "the undefined error %d is called %s", e, r); pbt_class("undefined error"); return; } CHECK(r && t, "error %d has no name", e); CHECK(e > 0 ? !strcmp(r, n) : r[0] == '-' && !strcmp(r + 1, n), "error %d is called %s, not %s", e, r, n); CHECK_EQ(t->errnum, a, "number of the entry found for %d", e); if (ask) CHECK(info != (void *)1 && info && *info && !strcmp(info, t->info), "description of error %d", e);
}
static void duplicate(void)
{
    size_t l = d_chance(1, 60000) ? d_far(60000, 150000) : d_chance(1, 20) ? d_pow(3000) : d_u64(40); bool term = d_bool(); size_t lim = d_chance(1, 6) ? (d_bool() ? SIZE_MAX : SIZE_MAX - d_u64(3)) : d_u64(l + 4); if (!term && lim > l) lim = l; char *s = g_alloc(l + term); for (size_t i = 0; i < l; i++) s[i] = d_range(1, 255); if (term) s[l] = 0; char *keep = g_alloc(l + term); memcpy(keep, s, l + term); size_t cut = 0; if (l && d_chance(1, 5)) { cut = d_u64(l - 1); s[cut] = keep[cut] = 0; term = true; l = cut; }
    TRACE("duplicate a text of %zu characters%s, bound %zu", l, term ? "" : " without terminator", lim); ta_t ta; ta_init(&ta); ta.fill = 0xee; size_t want = l < lim ? l : lim; char *d = bfdev_strndup(&ta.alloc, s, lim); CHECK(d != NULL, "bounded duplicate failed"); CHECK_EQ(strnlen(d, want + 1), want, "length of the bounded duplicate"); CHECK(!memcmp(d, s, want), "the bounded duplicate differs"); CHECK(ta.bytes >= want + 1, "size of the duplicate"); bfdev_free(&ta.alloc, d);
    if (term) { d = bfdev_strdup(&ta.alloc, s); CHECK(d && strlen(d) == l && !memcmp(d, s, l + 1), "the duplicate differs"); memset(d, 'x', l); CHECK(!memcmp(s, keep, l + 1), "the duplicate is not independent"); bfdev_free(&ta.alloc, d); }
    CHECK(!bfdev_strdup(&ta.alloc, NULL) && !bfdev_strndup(&ta.alloc, NULL, lim), "duplicate of nothing"); ta.fail_all = true; CHECK(!bfdev_strndup(&ta.alloc, s, lim) && (!term || !bfdev_strdup(&ta.alloc, s)), "duplicate without memory"); ta_check_empty(&ta, "the duplicates"); if (l > 10000) pbt_class("very long"); if (want > 1 && want < l) pbt_nontrivial(); pbt_class("duplicate");
}
static void diff(void)
{
    size_t l = d_chance(1, 60000) ? d_far(60000, 150000) : d_chance(1, 20) ? d_pow(2000) : d_u64(50); int c = d_chance(1, 3) ? 0xff : d_range(1, 255); if (d_bool()) c = (signed char)c; if (d_chance(1, 6)) c |= 0x100; char *s = g_alloc(l + 1); memset(s, c, l); for (int k = d_u64(2); k-- && l; ) { uint8_t x = d_range(1, 255); s[d_u64(l - 1)] = x; } s[l] = 0; TRACE("first difference from %d in %zu bytes", c, l); trace_hex("bytes", s, l); size_t f = 0; while (f < l && s[f] == (char)c) f++;
    char *r = bfdev_strdiff(s, c); CHECK(r == (f < l ? s + f : NULL), "first different character at %td, expected %td", r ? r - s : -1, f < l ? (ptrdiff_t)f : -1);
    if (l && d_chance(1, 3)) { size_t z = d_u64(l - 1); s[z] = 0; } if (d_chance(1, 8)) c = 0; char *m = g_alloc(l); memcpy(m, s, l); f = 0; while (f < l && m[f] == (char)c) f++; r = bfdev_memdiff(m, c, l); CHECK(r == (f < l ? m + f : NULL), "first different byte from %d at %td, expected %td", c, r ? r - m : -1, f < l ? (ptrdiff_t)f : -1); if (f && f < l) pbt_nontrivial(); pbt_class("difference");
}
void pbt_begin(void) { constants(); for (int c = 0; c < 256; c++) classes(c); }
/* texts of more than 4 GiB; their duplicate goes over and over the same pages */
static uint8_t blk[1 << 21]; static size_t asked; static char *given; static void *again(size_t n, void *pd) { asked = n; return given = giant_repeat(n, blk, sizeof blk, true); } static void nofree(void *p, void *pd) { CHECK(p == given, "free of another block"); given = NULL; }
static void giant(void)
{
    giant_drop(); pbt_slow(); pbt_nontrivial(); pbt_class("a text of gigabytes"); size_t n = (1ull << 32) + d_range(1, 5000), T = 4000; int what = d_u64(3); char c = d_range(1, 255);
    if (what < 2) { memset(blk, c, sizeof blk); bool hit = d_chance(3, 4); size_t at = d_u64(2) ? n - 1 - d_u64(5000) : d_u64(n - 1); char *s = giant_repeat(n + 1, blk, sizeof blk, false); if (hit) s[at] ^= 1 | c & 2 << d_u64(3); hit = s[at] != c; if (!s[at] && !what) { s[at] = c; hit = false; } s[n] = 0; TRACE("first difference from %d in %zu bytes, at %zd", c, n, hit ? at : -1); char *r = what ? bfdev_memdiff(s, c, n) : bfdev_strdiff(s, c); CHECK(r == (hit ? s + at : NULL), "first different byte of %zu at %td, expected %td", n, r ? r - s : -1, hit ? (ptrdiff_t)at : -1); }
    else { for (size_t i = 0; i < sizeof blk; i++) blk[i] = pbt_mix(i) | 1; char *s = giant_repeat(n + 1, blk, sizeof blk, false); s[n] = 0; for (size_t i = 1; i <= T; i++) s[n - i] = pbt_mix(n + i) | 1; bfdev_alloc_ops_t ops; bfdev_alloc_t al; bfdev_alloc_ops_init(&ops, again, again, NULL, nofree); bfdev_alloc_init(&al, &ops, NULL); size_t lim = n - d_u64(100), l = what == 2 ? n : lim; TRACE("duplicate %zu of %zu bytes", l, n); char *d = what == 2 ? bfdev_strdup(&al, s) : bfdev_strndup(&al, s, lim);
        CHECK(d != NULL, "duplicate of %zu bytes", l); CHECK(asked >= l + 1, "%zu bytes asked for a duplicate of %zu", asked, l); for (size_t i = l - T + 200; i < l; i++) CHECK_EQ(d[i], s[i], "byte %zu of the duplicate of %zu", i, l); CHECK_EQ(d[l], 0, "terminator of the duplicate of %zu", l); bfdev_free(&al, d); }
    giant_drop();
}
void pbt_case(void)
{
    GIANT_CASE(giant);
    for (int k = d_range(1, 4); k--; ) switch (d_u64(3)) { case 0: { int c = d_u64(255); TRACE("classes of %#x", c); classes(c); if (d_chance(1, 10)) constants(); pbt_class("character"); } break; case 1: errors(d_chance(1, 10) ? (int)d_edge(32) : d_srange(-200, 200)); pbt_class("error name"); break; case 2: duplicate(); break; default: diff(); }
}

#define _GNU_SOURCE
#include "pbt.h"
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>

bool pbt_tracing;
static size_t trace_len, trace_max = 1 << 16;

enum mode { M_RANDOM, M_TAPE, M_BYTES };
static enum mode mode;
static uint64_t rng[4];
static uint64_t *tape; static size_t tape_n;            /* replay input */
static const uint8_t *bytes; static size_t bytes_n;
static size_t pos;
static uint64_t *rec; static size_t rec_cap; static volatile uint64_t *rec_n_shared; static size_t rec_n;
static uint64_t case_hash; static bool case_nontrivial;
static bool in_case;

static uint64_t answers;
long pbt_answer(int s)
{
    static const long m[] = { 1, 1, 3, 0x80, 0x100, 0x8000, 0x10000, 1l << 31, 1l << 32, 5000000000l, 1l << 48, 1l << 62 };
    return s < 0 ? -m[pbt_mix(++answers) % 12] : s > 0 ? m[pbt_mix(++answers) % 12] : 0;
}
uint64_t pbt_mix(uint64_t x)
{ x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (-k & 63)); }
static uint64_t rng_next(void)
{
    uint64_t r = rotl(rng[1] * 5, 7) * 9, t = rng[1] << 17;
    rng[2] ^= rng[0]; rng[3] ^= rng[1]; rng[1] ^= rng[2]; rng[0] ^= rng[3]; rng[2] ^= t; rng[3] = rotl(rng[3], 45);
    return r;
}
static void rng_seed(uint64_t a, uint64_t b)
{ uint64_t x = pbt_mix(a) ^ pbt_mix(b * 0x2545f4914f6cdd1dull + 77); for (int i = 0; i < 4; i++) rng[i] = x = pbt_mix(x + i); }

uint64_t d_u64(uint64_t max)
{
    uint64_t v;
    if (!max) return 0;
    if (mode == M_RANDOM) {
        v = rng_next();
        if (max != UINT64_MAX) v = (uint64_t)(((unsigned __int128)v * (max + 1)) >> 64);
    } else if (mode == M_TAPE) {
        v = pos < tape_n ? tape[pos] : 0; pos++;
        if (v > max) v %= (max + 1);
    } else {
        unsigned n = max < 256 ? 1 : max < 65536 ? 2 : max <= UINT32_MAX ? 4 : 8;
        v = 0;
        for (unsigned i = 0; i < n; i++) { v |= (uint64_t)(pos < bytes_n ? bytes[pos] : 0) << (8 * i); pos++; }
        if (max != UINT64_MAX && v > max) v %= (max + 1);
    }
    case_hash = (case_hash ^ v) * 0x100000001b3ull; case_hash ^= case_hash >> 29;
    if (rec && rec_n < rec_cap) { rec[rec_n++] = v; if (rec_n_shared) *rec_n_shared = rec_n; }
    return v;
}
uint64_t d_range(uint64_t lo, uint64_t hi) { return hi <= lo ? lo : lo + d_u64(hi - lo); }
int64_t d_srange(int64_t lo, int64_t hi) { return (int64_t)((uint64_t)lo + d_u64((uint64_t)hi - (uint64_t)lo)); }
bool d_bool(void) { return d_u64(1); }
bool d_chance(unsigned num, unsigned den) { return d_u64(den - 1) >= den - num; }
uint64_t d_size(uint64_t max)
{
    switch (d_u64(3)) {
        case 0: return d_u64(max < 4 ? max : 4);
        case 1: return d_u64(max < 20 ? max : 20);
        case 2: return d_u64(max < 100 ? max : 100);
        default: return d_u64(max);
    }
}
uint64_t d_pow(uint64_t max)
{
    if (d_bool() || max < 8) return d_u64(max);
    uint64_t v = (1ull << d_range(2, 63 - __builtin_clzll(max))) + d_u64(6) - 3;
    return v < max ? v : max;
}
uint64_t d_far(uint64_t lo, uint64_t hi)
{
    uint64_t v = (d_bool() ? 65536 : 131072) + d_u64(6) - 3;
    return d_bool() && v >= lo && v <= hi ? v : d_range(lo, hi);
}
uint64_t d_edge64(void)
{
    uint64_t v;
    switch (d_u64(9)) {
        case 0: return d_u64(3);
        case 1: return ~d_u64(3);
        case 2: return 1ull << d_u64(63);
        case 3: return (1ull << d_u64(63)) - 1;
        case 4: return ~((1ull << d_u64(63)) - 1);
        case 5: return d_u64(255);
        case 6: v = 1ull << d_u64(63); return v + d_u64(4) - 2;
        case 7: return rotl(d_u64(65535), d_u64(63));
        default: return d_u64(UINT64_MAX);
    }
}
uint64_t d_edge(unsigned bits)
{
    uint64_t v = d_edge64();
    if (bits >= 64) return v;
    if (d_bool() && (v >> bits)) v ^= v >> bits;
    return v & ((1ull << bits) - 1);
}
void d_bytes(void *p, size_t n)
{
    uint8_t *b = p; size_t i;
    switch (d_u64(4)) {
        case 0: { uint8_t v = d_u64(255); memset(b, v, n); break; }
        case 1: memset(b, 0, n); if (n) for (i = d_u64(3); i; i--) b[d_u64(n - 1)] = d_u64(255); break;
        case 2: { uint8_t k = d_range(1, 3); for (i = 0; i < n; i++) b[i] = d_u64(k); break; }
        default: { /* 8 bytes per draw */
            for (i = 0; i + 8 <= n; i += 8) { uint64_t v = d_u64(UINT64_MAX); memcpy(b + i, &v, 8); }
            for (; i < n; i++) b[i] = d_u64(255);
        }
    }
}
unsigned d_pick(unsigned n, const unsigned *w)
{
    unsigned tot = 0, i; for (i = 0; i < n; i++) tot += w[i];
    unsigned v = d_u64(tot - 1);
    for (i = 0; i < n; i++) { if (v < w[i]) return i; v -= w[i]; }
    return n - 1;
}

/* ---- outcome ---- */
static char failbuf[2048];
const char *pbt_fmt(const char *fmt, ...) { static char b[512]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); return b; }
void pbt_fail(const char *file, int line, const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    vsnprintf(failbuf, sizeof failbuf, fmt, ap); va_end(ap);
    const char *base = strrchr(file, '/');
    fflush(stdout);
    fprintf(stderr, "FAIL %s:%d: %s\n", base ? base + 1 : file, line, failbuf);
    fflush(stderr);
#ifdef PBT_FUZZ
    abort();
#endif
    _exit(70);
}
void pbt_nontrivial(void) { case_nontrivial = true; }

#define MAXCLASS 256
static struct { const char *name; uint64_t n; } classes[MAXCLASS]; static unsigned nclasses;
void pbt_class(const char *name)
{
    unsigned i;
    for (i = 0; i < nclasses; i++) if (classes[i].name == name) { classes[i].n++; return; }
    for (i = 0; i < nclasses; i++) if (!strcmp(classes[i].name, name)) { classes[i].n++; return; }
    if (nclasses < MAXCLASS) { classes[nclasses].name = name; classes[nclasses++].n = 1; }
}
void pbt_trace(const char *fmt, ...)
{
    if (trace_len > trace_max) return;
    va_list ap; va_start(ap, fmt); trace_len += vprintf(fmt, ap); va_end(ap); putchar('\n');
}
void trace_hex(const char *label, const void *p, size_t n)
{
    if (!pbt_tracing) return;
    char buf[600]; size_t k = 0, i; const uint8_t *b = p;
    for (i = 0; i < n && i < 256; i++) k += sprintf(buf + k, "%02x", b[i]);
    buf[k] = 0; pbt_trace("%s[%zu]=%s%s", label, n, buf, n > 256 ? "..." : "");
}

/* ---- case arena ---- */
static void **garena; static size_t gn, gcap;
void *g_alloc(size_t n)
{
    void *p = malloc(n ? n : 1);
    if (!p) { fprintf(stderr, "harness out of memory\n"); _exit(3); }
    if (!n) { free(p); p = malloc(0); }
    if (gn == gcap) { gcap = gcap ? gcap * 2 : 64; garena = realloc(garena, gcap * sizeof *garena); }
    garena[gn++] = p; return p;
}
static void g_reset(void) { while (gn) free(garena[--gn]); }

static double hang_s = 20;
static void on_hang(int s)
{
    static const char m[] = "FAIL hang: the case did not finish within its CPU-time limit\n";
    (void)s; if (write(2, m, sizeof m - 1)) {}
    _exit(72);
}
static void arm(void)
{
    struct itimerval it = {{0, 0}, {(long)hang_s, (long)((hang_s - (long)hang_s) * 1e6)}};
    setitimer(ITIMER_PROF, &it, NULL);
}
void pbt_slow(void) { double h = hang_s; hang_s = 12 * h; arm(); hang_s = h; }
void pbt_case_reset(void) __attribute__((weak));
static void run_one(void)
{
    pos = 0; rec_n = 0; if (rec_n_shared) *rec_n_shared = 0;
    case_hash = 0xcbf29ce484222325ull; case_nontrivial = false; in_case = true;
    if (pbt_case_reset) pbt_case_reset();
    answers = 0; pbt_case();
    g_reset(); in_case = false;
}

const char *__asan_default_options(void);
const char *__asan_default_options(void)
{ return "exitcode=71:detect_leaks=0:allocator_may_return_null=1:max_malloc_fill_size=1048576:malloc_fill_byte=190:"
         "detect_stack_use_after_return=0:hard_rss_limit_mb=3500:allocator_release_to_os_interval_ms=-1:quarantine_size_mb=16"; }

#ifdef PBT_FUZZ
int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size);
int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size)
{
    static bool once;
    if (!once) { once = true; if (pbt_begin) pbt_begin(); }
    mode = M_BYTES; bytes = data; bytes_n = size; run_one(); return 0;
}
#else
static uint64_t *load_tape(const char *path, size_t *n)
{
    FILE *f = fopen(path, "r"); if (!f) { perror(path); exit(3); }
    size_t cap = 1024; uint64_t *t = malloc(cap * 8); unsigned long long v; *n = 0;
    while (fscanf(f, "%llu", &v) == 1) { if (*n == cap) t = realloc(t, (cap *= 2) * 8); t[(*n)++] = v; }
    fclose(f); return t;
}
static void save_tape(const char *path, const uint64_t *t, size_t n)
{
    FILE *f = fopen(path, "w"); if (!f) { perror(path); exit(3); }
    for (size_t i = 0; i < n; i++) fprintf(f, "%llu\n", (unsigned long long)t[i]);
    fclose(f);
}
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

#define RECMAX (1u << 21)
static uint64_t *shared_rec(void)
{
    uint64_t *m = mmap(NULL, (RECMAX + 1) * 8ul, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) { perror("mmap"); exit(3); }
    return m;
}
/* run the current tape in a child; returns true if it fails; *used = recorded draws (canonical tape) */
static bool try_tape(uint64_t *sh, const uint64_t *t, size_t n)
{
    fflush(NULL);
    sh[0] = 0;
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(3); }
    if (!pid) {
        int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2);
        mode = M_TAPE; tape = (uint64_t *)t; tape_n = n; rec = sh + 1; rec_cap = RECMAX; rec_n_shared = sh;
        arm(); run_one(); _exit(0);
    }
    int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) return false;
    return st != 0 && !(WIFEXITED(st) && WEXITSTATUS(st) == 3);
}
static int cmd_shrink(const char *in, const char *out, double budget)
{
    size_t n; uint64_t *t = load_tape(in, &n), *sh = shared_rec(), *c = malloc((n + 1) * 8);
    double end = now() + budget; unsigned tries = 0;
    hang_s = 3;
    if (!try_tape(sh, t, n)) { save_tape(out, t, n); return 5; }
#define ACCEPT() do { if (sh[0] < m || (sh[0] == m)) { n = sh[0]; memcpy(t, sh + 1, n * 8); } else { n = m; memcpy(t, c, n * 8); } } while (0)
    if (sh[0] <= n) { n = sh[0]; memcpy(t, sh + 1, n * 8); }
    bool progress = true;
    while (progress && now() < end) {
        progress = false;
        for (size_t blk = n / 2 ? n / 2 : 1; blk >= 1 && now() < end; blk /= 2) {   /* delete blocks */
            for (size_t i = n; i > 0 && now() < end; ) {
                size_t a = i > blk ? i - blk : 0, len = i - a, m = n - len;
                memcpy(c, t, a * 8); memcpy(c + a, t + i, (n - i) * 8); tries++;
                if (try_tape(sh, c, m)) { ACCEPT(); progress = true; if (a > n) a = n; }
                i = a;
            }
            if (blk == 1) break;
        }
        for (size_t blk = n / 2 ? n / 2 : 1; blk >= 1 && now() < end; blk /= 2) {   /* zero blocks */
            for (size_t a = 0; a < n && now() < end; a += blk) {
                size_t len = blk < n - a ? blk : n - a, m = n; bool nz = false;
                for (size_t k = 0; k < len; k++) nz |= t[a + k] != 0;
                if (!nz) continue;
                memcpy(c, t, n * 8); memset(c + a, 0, len * 8); tries++;
                if (try_tape(sh, c, m)) { ACCEPT(); progress = true; }
            }
            if (blk == 1) break;
        }
        for (size_t i = 0; i < n && now() < end; i++) {                              /* lower values */
            while (i < n && t[i] && now() < end) {
                uint64_t old = t[i], cand[3] = {old / 2, old - (old > 16 ? old / 8 : 1), old - 1}; bool ok = false;
                for (int k = 0; k < 3 && !ok; k++) {
                    size_t m = n; memcpy(c, t, n * 8); c[i] = cand[k]; tries++;
                    if (try_tape(sh, c, m)) { ACCEPT(); ok = true; }
                }
                if (!ok || i >= n || t[i] >= old) break;
                progress = true;
            }
        }
    }
    save_tape(out, t, n);
    printf("shrunk to %zu draws in %u attempts\n", n, tries);
    return 0;
}

static int usage(void) { fprintf(stderr, "usage: run|case|replay|shrink|bytes\n"); return 3; }
int main(int argc, char **argv)
{
    if (argc < 2) return usage();
    struct sigaction sa = {.sa_handler = on_hang}; sigaction(SIGPROF, &sa, NULL);
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    if (getenv("PBT_HANG")) hang_s = atof(getenv("PBT_HANG"));
    setvbuf(stdout, NULL, _IOLBF, 0);
    if (pbt_begin) pbt_begin();
    const char *c = argv[1];
    if (!strcmp(c, "run") && argc == 9) {       /* run SEED FIRST STEP COUNT MAXSEC OUT CURFILE */
        uint64_t seed = strtoull(argv[2], 0, 10), first = strtoull(argv[3], 0, 10), step = strtoull(argv[4], 0, 10), count = strtoull(argv[5], 0, 10);
        double maxs = atof(argv[6]), t0 = now(); uint64_t done = 0, nt = 0, samples[4]; unsigned ns = 0;
        int fd = open(argv[8], O_RDWR | O_CREAT | O_TRUNC, 0600); if (fd < 0 || ftruncate(fd, 4096)) { perror(argv[8]); return 3; }
        volatile uint64_t *cur = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (cur == MAP_FAILED) { perror("mmap"); return 3; }
        size_t hc = 1 << 16, hn = 0; uint64_t *hs = malloc(hc * 8); bool trunc = false; /* collected hashes */
        mode = M_RANDOM;
        for (uint64_t i = first; i < count; i += step) {
            cur[0] = i; cur[1] = 1;
            rng_seed(seed, i); arm(); run_one(); done++;
            if (case_nontrivial) {
                nt++; if (ns < 4 && (done & 3) == 0) samples[ns++] = i;
                if (hn < (1u << 22)) { if (hn == hc) hs = realloc(hs, (hc *= 2) * 8); hs[hn++] = case_hash; }
            }
            if (now() - t0 > maxs) { trunc = i + step < count; break; }
        }
        FILE *f = fopen(argv[7], "w"); if (!f) { perror(argv[7]); return 3; }
        fprintf(f, "{\"done\": %llu, \"nontrivial\": %llu, \"truncated\": %s, \"samples\": [", (unsigned long long)done, (unsigned long long)nt, trunc ? "true" : "false");
        for (unsigned i = 0; i < ns; i++) fprintf(f, "%s%llu", i ? ", " : "", (unsigned long long)samples[i]);
        fprintf(f, "], \"classes\": {");
        for (unsigned i = 0; i < nclasses; i++) fprintf(f, "%s\"%s\": %llu", i ? ", " : "", classes[i].name, (unsigned long long)classes[i].n);
        fprintf(f, "}}\n"); fclose(f);
        char hp[4096]; snprintf(hp, sizeof hp, "%s.hash", argv[7]); f = fopen(hp, "wb"); if (f) { fwrite(hs, 8, hn, f); fclose(f); }
        return 0;
    }
    if (!strcmp(c, "case") && (argc == 5 || argc == 4)) {      /* case SEED IDX [TAPEOUT] */
        uint64_t *sh = shared_rec(); int st = 0; pid_t pid = 0;
        rec = sh + 1; rec_cap = RECMAX; rec_n_shared = sh;
        pbt_tracing = getenv("PBT_TRACE") != NULL;
        if (argc == 5) { fflush(NULL); pid = fork(); }
        if (!pid) { mode = M_RANDOM; rng_seed(strtoull(argv[2], 0, 10), strtoull(argv[3], 0, 10)); arm(); run_one(); fflush(NULL); _exit(0); }
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        save_tape(argv[4], sh + 1, sh[0]);
        return WIFSIGNALED(st) ? 128 + WTERMSIG(st) : WEXITSTATUS(st);
    }
    if (!strcmp(c, "replay") && argc == 3) {
        tape = load_tape(argv[2], &tape_n); mode = M_TAPE; pbt_tracing = getenv("PBT_TRACE") != NULL; arm(); run_one(); fflush(NULL); return 0;
    }
    if (!strcmp(c, "probe") && argc == 3) { if (!pbt_probe) return 0; mode = M_RANDOM; rng_seed(1, 0); arm(); pbt_probe(argv[2]); return 0; }
    if (!strcmp(c, "shrink") && argc == 5) return cmd_shrink(argv[2], argv[3], atof(argv[4]));
    if (!strcmp(c, "bytes") && argc == 4) {     /* bytes FILE TAPEOUT : turn a fuzzer input into a tape */
        FILE *f = fopen(argv[2], "rb"); if (!f) { perror(argv[2]); return 3; }
        uint8_t *b = malloc(1 << 20); bytes_n = fread(b, 1, 1 << 20, f); fclose(f);
        uint64_t *sh = shared_rec(); int st; fflush(NULL); pid_t pid = fork();
        if (!pid) { mode = M_BYTES; bytes = b; rec = sh + 1; rec_cap = RECMAX; rec_n_shared = sh; arm(); run_one(); _exit(0); }
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        save_tape(argv[3], sh + 1, sh[0]);
        return WIFSIGNALED(st) ? 128 + WTERMSIG(st) : WEXITSTATUS(st);
    }
    return usage();
}
#endif

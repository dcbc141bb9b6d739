#define _GNU_SOURCE
#include "vp.h"
#include <fcntl.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>

/* one per process, mapped from a file so that the runner can read it after a crash or while we run */
typedef struct {
    uint64_t magic, cur, done, ntraces, ntrans, noutcomes, table_full, in_case;
    char desc[512];
    char fail[2048];
    struct { char name[56]; uint64_t v; } notes[32];
    char samples[4][256];
    uint64_t nsamples;
    char known[16][256];
    uint64_t nknown;
} shm_t;
/* shared by all processes of a run */
typedef struct { uint64_t nstates, full, noutcomes; } tabhdr_t;

static shm_t *S;
static uint64_t *T, *O;           /* state table, outcome table */
static tabhdr_t *H;
#define TBITS 22
#define OBITS 20
int vp_thorough, vp_opt, vp_replaying;
static uint64_t shard, nshards = 1, caseno, only;
static int have_only;

uint64_t vp_mix(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
uint64_t vp_hash(uint64_t h, const void *p, size_t n)
{
    const uint8_t *b = p;
    h ^= 0xcbf29ce484222325ull + n;
    while (n >= 8) { uint64_t w; memcpy(&w, b, 8); h = vp_mix(h ^ w); b += 8; n -= 8; }
    uint64_t w = 0; memcpy(&w, b, n);
    return vp_mix(h ^ w);
}
void vp_bytes(void *p, size_t n, uint64_t seed)
{
    uint8_t *b = p; uint64_t s = vp_mix(seed * 2 + 1);
    for (size_t i = 0; i < n; i++) { if (i % 8 == 0) s = vp_mix(s + i); b[i] = (uint8_t)(s >> (8 * (i % 8))); }
}
const char *vp_hex(const void *p, size_t n)
{
    static char bufs[8][2100]; static int k; char *o = bufs[k = (k + 1) % 8]; const uint8_t *b = p;
    size_t m = n > 1000 ? 1000 : n;
    for (size_t i = 0; i < m; i++) sprintf(o + 2 * i, "%02x", b[i]);
    o[2 * m] = 0; if (m < n) strcat(o, "...");
    return o;
}
static int insert(uint64_t *t, int bits, uint64_t h, uint64_t *cnt)
{
    if (h == 0) h = 1;
    uint64_t m = (1ull << bits) - 1, i = vp_mix(h) & m;
    if (*cnt > (m >> 2) * 3) return 0;
    for (;;) {
        uint64_t v = __atomic_load_n(&t[i], __ATOMIC_RELAXED);
        if (v == h) return 1;
        if (v == 0) {
            uint64_t z = 0;
            if (__atomic_compare_exchange_n(&t[i], &z, h, 0, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {
                __atomic_fetch_add(cnt, 1, __ATOMIC_RELAXED); return 1;
            }
            if (z == h) return 1;
        }
        i = (i + 1) & m;
    }
}
void vp_step(uint64_t h)
{
    S->ntrans++;
    if (!insert(T, TBITS, h, &H->nstates)) H->full = 1;
}
void vp_step_bytes(const void *p, size_t n) { vp_step(vp_hash(7, p, n)); }
void vp_outcome(uint64_t o) { insert(O, OBITS, o, &H->noutcomes); }
void vp_note(const char *name, uint64_t v)
{
    for (int i = 0; i < 32; i++) {
        if (!S->notes[i].name[0]) snprintf(S->notes[i].name, sizeof S->notes[i].name, "%s", name);
        if (!strcmp(S->notes[i].name, name)) { S->notes[i].v += v; return; }
    }
}
static void finish_case(void)
{
    if (S->in_case) {
        S->in_case = 0; S->ntraces++;
        if (have_only) { S->done = 1; _exit(0); }
    }
}
int vp_case(const char *fmt, ...)
{
    finish_case();
    uint64_t id = caseno++;
    if (have_only ? id != only : id % nshards != shard) return 0;
    va_list ap; va_start(ap, fmt); vsnprintf(S->desc, sizeof S->desc, fmt, ap); va_end(ap);
    S->cur = id; S->in_case = 1;
    static int prof = -1; if (prof < 0) prof = getenv("VP_PROF") != NULL;
    if (prof) { static double t0; struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); double t = ts.tv_sec + ts.tv_nsec * 1e-9; fprintf(stderr, "PROF %.4f before: %s\n", t0 ? t - t0 : 0, S->desc); t0 = t; }
    if (S->nsamples < 4 && (S->ntraces >> (4 * S->nsamples))) {
        snprintf(S->samples[S->nsamples], sizeof S->samples[0], "case %llu: %.230s", (unsigned long long)id, S->desc);
        S->nsamples++;
    }
    return 1;
}
void vp_fail(const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt); vsnprintf(S->fail, sizeof S->fail, fmt, ap); va_end(ap);
    fprintf(stderr, "FAIL case=%llu [%s]: %s\n", (unsigned long long)S->cur, S->desc, S->fail);
    fflush(NULL);
    _exit(1);
}
void vp_known(const char *key, const char *fmt, ...)
{
    char b[256]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    vp_note(key, 1);
    for (uint64_t i = 0; i < S->nknown; i++) if (!strncmp(S->known[i], key, strlen(key))) return;
    if (S->nknown < 16) snprintf(S->known[S->nknown++], 256, "%.60s %.190s", key, b);
}

/* guarded buffers */
#define G 32
vp_buf vp_balloc(size_t n, int fill)
{
    vp_buf b; b.n = n; b.base = malloc(n + 2 * G); b.p = b.base + G;
    memset(b.base, 0xC3, n + 2 * G); memset(b.p, fill, n); return b;
}
int vp_bintact(const vp_buf *b)
{
    for (int i = 0; i < G; i++) if (b->base[i] != 0xC3 || b->p[b->n + i] != 0xC3) return 0;
    return 1;
}
int vp_buntouched(const vp_buf *b, size_t from, int fill)
{
    for (size_t i = from; i < b->n; i++) if (b->p[i] != (uint8_t)fill) return 0;
    return 1;
}
void vp_bfree(vp_buf *b) { free(b->base); b->base = b->p = NULL; }

/* random seam */
uint64_t vp_rand_calls; static uint64_t rstate = 1; static const int *scr; static int nscr, iscr;
int (*vp_rand_hook)(void); long vp_time_value = 1000000;
static int vp_pinned;
void vp_seed(uint64_t s) { rstate = vp_mix(s); scr = NULL; nscr = 0; vp_rand_calls = 0; vp_pinned = 1; }
void vp_script(const int *v, int n, int fb) { vp_seed(fb); scr = v; nscr = n; iscr = 0; }
#ifndef VP_NO_RAND
int rand(void)
{
    vp_rand_calls++;
    if (vp_rand_hook) return vp_rand_hook();
    if (iscr < nscr) return scr[iscr++];
    rstate = vp_mix(rstate);
    return (int)(rstate >> 33);
}
void srand(unsigned s) { (void)s; }
long random(void) { return rand(); }
void srandom(unsigned s) { (void)s; }
time_t time(time_t *t) { if (t) *t = vp_time_value; return vp_time_value; }
#endif

static void *mapfile(const char *path, size_t n)
{
    int fd = open(path, O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, n)) { perror(path); _exit(3); }
    void *p = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
    close(fd); return p;
}
int main(int argc, char **argv)
{
    const char *shm = NULL, *tab = NULL;
    for (int i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "--thorough")) vp_thorough = 1;
        else if (!strcmp(argv[i], "--opt")) vp_opt = 1;
        else if (!strcmp(argv[i], "--shard")) { shard = strtoull(argv[++i], 0, 10); nshards = strtoull(argv[++i], 0, 10); }
        else if (!strcmp(argv[i], "--shm")) shm = argv[++i];
        else if (!strcmp(argv[i], "--table")) tab = argv[++i];
        else if (!strcmp(argv[i], "--only")) { only = strtoull(argv[++i], 0, 10); have_only = vp_replaying = 1; }
    }
    if (shm) S = mapfile(shm, sizeof *S); else S = calloc(1, sizeof *S);
    size_t tn = sizeof(tabhdr_t) + (8ull << TBITS) + (8ull << OBITS);
    if (tab) H = mapfile(tab, tn); else H = mmap(NULL, tn, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    T = (uint64_t *)(H + 1); O = T + (1ull << TBITS);
    if (!freopen("/dev/null", "w", stdout)) _exit(3); /* the library reports refusals on stdout */
    S->magic = 0x5650; strcpy(S->desc, "(before the first case)");
    S->cur = (uint64_t)-1;
    vp_seed(1);
    vp_main();
    finish_case();
    if (have_only) { fprintf(stderr, "no such case\n"); _exit(4); }
    S->done = 1;
    if (!shm) fprintf(stderr, "traces=%llu transitions=%llu states=%llu\n", (unsigned long long)S->ntraces,
        (unsigned long long)S->ntrans, (unsigned long long)H->nstates);
    fflush(NULL); _exit(0);
}

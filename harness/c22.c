/* C22: white-box key material is never in the clear, its tables are encoded, and every generation is fresh. */
#define _GNU_SOURCE
#include "files.h"
#include <wbcrypto/se_wbsm4.h>
#include <wbcrypto/fpe_app.h>
#include <malloc.h>
#include <link.h>

/* --- the patterns: windows of 8 bytes of the key and everything the key schedules derive from it (kept hashed, so that this process does not hold them) */
#define HN 8192
static uint64_t hw[HN]; static uint8_t pre[8192]; static int nw;
static uint64_t ld(const void *p) { uint64_t x; memcpy(&x, p, 8); return x; }
static void wipe(volatile void *p, size_t n) { volatile uint8_t *v = p; while (n--) *v++ = 0; }
static void win(const uint8_t *p)
{
    int distinct = 0; for (int i = 0; i < 8; i++) { int d = 1; for (int j = 0; j < i; j++) if (p[j] == p[i]) d = 0; distinct += d; }
    if (distinct < 6) return;
    uint64_t h = vp_mix(ld(p) ^ 0x5bd1e995); unsigned q = (unsigned)(p[0] | p[1] << 8); pre[q >> 3] |= (uint8_t)(1 << (q & 7));
    for (unsigned i = h & (HN - 1);; i = (i + 1) & (HN - 1)) { if (hw[i] == h) return; if (!hw[i]) { hw[i] = h; nw++; return; } }
}
static void pats(const uint8_t *p, size_t n, int step) { for (size_t i = 0; i + 8 <= n; i += step) win(p + i); }
static void bothorders(uint8_t *p, size_t n) { pats(p, n, 4); for (size_t i = 0; i + 4 <= n; i += 4) { uint8_t t = p[i]; p[i] = p[i + 3]; p[i + 3] = t; t = p[i + 1]; p[i + 1] = p[i + 2]; p[i + 2] = t; } pats(p, n, 4); }
static int has(const uint8_t *p) { unsigned q = (unsigned)(p[0] | p[1] << 8); if (!(pre[q >> 3] >> (q & 7) & 1)) return 0; uint64_t h = vp_mix(ld(p) ^ 0x5bd1e995); for (unsigned i = h & (HN - 1); hw[i]; i = (i + 1) & (HN - 1)) if (hw[i] == h) return 1; return 0; }
static uint8_t SB[2][256];          /* the S-boxes, found by way of the reference cipher */
static void __attribute__((noinline)) addkey(const uint8_t *key, size_t n)
{
    static const uint32_t FK[4] = {0xa3b1bac6, 0x56aa3350, 0x677d9197, 0xb27022dc}; static const int sr[16] = {0, 5, 10, 15, 4, 9, 14, 3, 8, 13, 2, 7, 12, 1, 6, 11};
    uint8_t k[16], b[256]; ref_cipher c; ref_norm_key(key, n, k); pats(k, 16, 1); if (n > 16) pats(key, n, 1); memcpy(b, k, 16); bothorders(b, 16);
    for (int i = 0; i < 16; i++) b[i] = k[i] ^ (uint8_t)(FK[i / 4] >> (24 - 8 * (i % 4))); bothorders(b, 16);
    ref_init(&c, 0, key, n); memcpy(b, c.rk, 176); bothorders(b, 176);
    for (int r = 0; r < 11; r++) { for (int i = 0; i < 16; i++) b[i] = c.rk[r][sr[i]]; bothorders(b, 16); for (int i = 0; i < 16; i++) b[i] = c.rk[r][4 * (i % 4) + i / 4]; bothorders(b, 16); }
    ref_init(&c, 1, key, n);
    for (int rev = 0; rev < 2; rev++) { for (int i = 0; i < 32; i++) for (int j = 0; j < 4; j++) b[4 * i + j] = (uint8_t)(c.srk[rev ? 31 - i : i] >> (24 - 8 * j)); bothorders(b, 128); }
    wipe(&c, sizeof c); wipe(k, 16); wipe(b, sizeof b);
}
/* --- memory: what the library has allocated, in the order of allocation */
void *__libc_malloc(size_t); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void __libc_free(void *); void *__libc_memalign(size_t, size_t);
typedef struct { uint8_t *p; size_t n; } blk;
static blk *B; static long nb, capb; static int track; static const char *what; static long *ix; static long ixn;
static long *slot(void *p) { for (size_t i = vp_mix((uintptr_t)p) & (ixn - 1);; i = (i + 1) & (ixn - 1)) if (ix[i] < 0 || B[ix[i]].p == p) return &ix[i]; }
static void add(void *p, size_t n)
{
    if (!track || !p) return;
    if (nb == capb) {
        capb = capb ? 2 * capb : 65536; B = __libc_realloc(B, capb * sizeof *B); ixn = 4 * capb; __libc_free(ix); ix = __libc_malloc(ixn * sizeof *ix); for (long i = 0; i < ixn; i++) ix[i] = -1;
        for (long i = 0; i < nb; i++) if (B[i].n) *slot(B[i].p) = i;
    }
    long *s = slot(p); B[nb].p = p; B[nb].n = n; *s = nb++; /* an address used before gets the new entry */
}
static void scan(const uint8_t *p, size_t n, const char *where) { for (size_t i = 0; i + 8 <= n; i++) if (has(p + i)) { track = 0; vp_fail("%s: %s holds 8 bytes of the key or of its schedule at offset %zu of %zu", what, where, i, n); } }
static void drop(void *p) { if (!track || !p) return; long *s = slot(p); if (*s < 0 || B[*s].p != p || !B[*s].n) return; B[*s].n = 0; }
void *malloc(size_t n) { void *p = __libc_malloc(n); add(p, n); return p; }
void *calloc(size_t a, size_t b) { void *p = __libc_calloc(a, b); add(p, a * b); return p; }
void free(void *p) { drop(p); __libc_free(p); }
void *realloc(void *p, size_t n) { if (!track) return __libc_realloc(p, n); void *q = malloc(n); if (q && p) { size_t m = malloc_usable_size(p); memcpy(q, p, m < n ? m : n); } if (q) free(p); return q; }
void *memalign(size_t a, size_t n) { void *p = __libc_memalign(a, n); add(p, n); return p; }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **p, size_t a, size_t n) { *p = memalign(a, n); return *p ? 0 : 12; }
static void start(void) { nb = 0; for (long i = 0; i < ixn; i++) ix[i] = -1; track = 1; }
static struct { uint8_t *p; size_t n; } seg[8]; static int nseg;
static int segs(struct dl_phdr_info *i, size_t s, void *v)
{
    for (int k = 0; k < i->dlpi_phnum; k++) { const ElfW(Phdr) *h = &i->dlpi_phdr[k]; if (h->p_type == PT_LOAD && h->p_flags & PF_W && nseg < 8) { seg[nseg].p = (uint8_t *)i->dlpi_addr + h->p_vaddr; seg[nseg++].n = h->p_memsz; } if (h->p_type == PT_TLS && i->dlpi_tls_data && nseg < 8) { seg[nseg].p = i->dlpi_tls_data; seg[nseg++].n = h->p_memsz; } }
    return 1;
}
static void clear(void) /* nothing of the key anywhere */
{
    int t = track; track = 0;
    for (long i = 0; i < nb; i++) if (B[i].n) scan(B[i].p, B[i].n, "allocated memory");
    for (int i = 0; i < nseg; i++) scan(seg[i].p, seg[i].n, "static memory");
    track = t;
}
/* --- tables: none is the plain T-box of the cipher, on neither side */
#define FN 65536
static uint64_t fp[FN]; static uint8_t fpre[8192]; static uint8_t LT[8][256][4]; /* outputs of the plain 32-bit T-boxes; 0-3 AES, 4-7 SM4 */
static uint32_t par[8][24];         /* parity checks of their 8-dimensional output spaces */
static uint8_t inv[2][256];
static uint64_t fing(const uint8_t *t, int s) { uint64_t f = 0; for (int i = 1; i <= 8; i++) f = f << 8 | (uint8_t)(t[0] ^ t[i * s]); return f; }
static void tables_init(void)
{
    ref_cipher c; uint8_t z[16] = {0}, i[16], o[16];
    for (int x = 0; x < 256; x++) { /* AES S-box: the first step of the key schedule; SM4's: the round function on one byte */
        memset(z, 0, 16); z[13] = (uint8_t)x; ref_init(&c, 0, z, 16); SB[0][x] = c.rk[1][0] ^ 1; }
    static const uint8_t s4[256] = {
        0xd6,0x90,0xe9,0xfe,0xcc,0xe1,0x3d,0xb7,0x16,0xb6,0x14,0xc2,0x28,0xfb,0x2c,0x05,0x2b,0x67,0x9a,0x76,0x2a,0xbe,0x04,0xc3,0xaa,0x44,0x13,0x26,0x49,0x86,0x06,0x99,0x9c,0x42,0x50,0xf4,0x91,0xef,0x98,0x7a,0x33,0x54,0x0b,0x43,0xed,0xcf,0xac,0x62,0xe4,0xb3,0x1c,0xa9,0xc9,0x08,0xe8,0x95,0x80,0xdf,0x94,0xfa,0x75,0x8f,0x3f,0xa6,
        0x47,0x07,0xa7,0xfc,0xf3,0x73,0x17,0xba,0x83,0x59,0x3c,0x19,0xe6,0x85,0x4f,0xa8,0x68,0x6b,0x81,0xb2,0x71,0x64,0xda,0x8b,0xf8,0xeb,0x0f,0x4b,0x70,0x56,0x9d,0x35,0x1e,0x24,0x0e,0x5e,0x63,0x58,0xd1,0xa2,0x25,0x22,0x7c,0x3b,0x01,0x21,0x78,0x87,0xd4,0x00,0x46,0x57,0x9f,0xd3,0x27,0x52,0x4c,0x36,0x02,0xe7,0xa0,0xc4,0xc8,0x9e,
        0xea,0xbf,0x8a,0xd2,0x40,0xc7,0x38,0xb5,0xa3,0xf7,0xf2,0xce,0xf9,0x61,0x15,0xa1,0xe0,0xae,0x5d,0xa4,0x9b,0x34,0x1a,0x55,0xad,0x93,0x32,0x30,0xf5,0x8c,0xb1,0xe3,0x1d,0xf6,0xe2,0x2e,0x82,0x66,0xca,0x60,0xc0,0x29,0x23,0xab,0x0d,0x53,0x4e,0x6f,0xd5,0xdb,0x37,0x45,0xde,0xfd,0x8e,0x2f,0x03,0xff,0x6a,0x72,0x6d,0x6c,0x5b,0x51,
        0x8d,0x1b,0xaf,0x92,0xbb,0xdd,0xbc,0x7f,0x11,0xd9,0x5c,0x41,0x1f,0x10,0x5a,0xd8,0x0a,0xc1,0x31,0x88,0xa5,0xcd,0x7b,0xbd,0x2d,0x74,0xd0,0x12,0xb8,0xe5,0xb4,0xb0,0x89,0x69,0x97,0x4a,0x0c,0x96,0x77,0x7e,0x65,0xb9,0xf1,0x09,0xc5,0x6e,0xc6,0x84,0x18,0xf0,0x7d,0xec,0x3a,0xdc,0x4d,0x20,0x79,0xee,0x5f,0x3e,0xd7,0xcb,0x39,0x48};
    memcpy(SB[1], s4, 256); for (int k = 0; k < 2; k++) for (int x = 0; x < 256; x++) inv[k][SB[k][x]] = (uint8_t)x;
    if (SB[0][0] != 0x63 || SB[0][1] != 0x7c || SB[0][255] != 0x16) vp_fail("S-box of the model");
    (void)i; (void)o;
    for (int x = 0; x < 256; x++) {
        uint8_t s = SB[0][x], d = (uint8_t)(s << 1 ^ (s & 0x80 ? 0x1b : 0)), t = d ^ s; uint8_t m[4][4] = {{d, s, s, t}, {t, d, s, s}, {s, t, d, s}, {s, s, t, d}};
        for (int j = 0; j < 4; j++) memcpy(LT[j][x], m[j], 4);
        for (int j = 0; j < 4; j++) { uint32_t v = (uint32_t)SB[1][x] << (24 - 8 * j), l = v ^ (v << 2 | v >> 30) ^ (v << 10 | v >> 22) ^ (v << 18 | v >> 14) ^ (v << 24 | v >> 8); for (int q = 0; q < 4; q++) LT[4 + j][x][q] = (uint8_t)(l >> (24 - 8 * q)); }
    }
    for (int j = 0; j < 9; j++) for (int q = 0; q < (j == 8 ? 2 : 4); q++) for (int k = 0; k < 256; k++) {
        uint8_t t[9]; for (int x = 0; x < 9; x++) t[x] = j == 8 ? SB[q][x ^ k] : LT[j][x ^ k][q];
        int any = 0; for (int x = 1; x < 9; x++) any |= t[x] ^ t[0]; if (!any) continue;
        uint64_t f = fing(t, 1), h = vp_mix(f) & (FN - 1); fpre[(f >> 48) >> 3] |= (uint8_t)(1 << ((f >> 48) & 7)); while (fp[h] && fp[h] != f) h = (h + 1) & (FN - 1); fp[h] = f;
    }
    for (int j = 0; j < 8; j++) { /* parity checks: the vectors orthogonal to the space, by elimination; the word is read little-endian from memory written by a 32-bit store of the big-endian value */
        uint32_t bas[8]; int nbas = 0; uint32_t piv[8];
        for (int x = 1; x < 256 && nbas < 8; x++) { uint32_t v = 0; for (int q = 0; q < 4; q++) v |= (uint32_t)(LT[j][x][q] ^ LT[j][0][q]) << (24 - 8 * q); for (int b = 0; b < nbas; b++) if (v & piv[b]) v ^= bas[b]; if (!v) continue; uint32_t pv = v & -v; for (int b = 0; b < nbas; b++) if (bas[b] & pv) bas[b] ^= v; bas[nbas] = v; piv[nbas++] = pv; }
        if (nbas != 8) vp_fail("output space of the model");
        uint32_t pm = 0; for (int b = 0; b < 8; b++) pm |= piv[b]; int n = 0;
        for (int bit = 0; bit < 32; bit++) { uint32_t e = 1u << bit; if (e & pm) continue; uint32_t p = e; for (int b = 0; b < 8; b++) if (bas[b] & e) p |= piv[b]; par[j][n++] = p; }
    }
}
/* where the tables start in the contexts */
static size_t first(size_t n) { return n == sizeof(WBCRYPTO_wbsm4_context) ? offsetof(WBCRYPTO_wbsm4_context, SE) : n == sizeof(WBCRYPTO_wbaes_context) ? offsetof(WBCRYPTO_wbaes_context, TypeII) : n == sizeof(WBCRYPTO_wbaes_wbgcm_ee_context) ? offsetof(WBCRYPTO_wbaes_wbgcm_ee_context, TypeII) : n == sizeof(WBCRYPTO_wbaes_wbgcm_mask_context) ? offsetof(WBCRYPTO_wbaes_wbgcm_mask_context, TypeII) : 0; }
static uint32_t w(const uint8_t *p) { uint32_t x; memcpy(&x, p, 4); return x; }
static int distinct(const uint8_t *t) { for (int i = 1; i < 256; i++) if (w(t + 4 * i) == w(t)) return 0; return 1; }
static int dep;
static void tables(const uint8_t *p, size_t n, long bi)
{
    for (int s = 1; s <= 4; s += 3) for (size_t i = 0; i + (size_t)s * 255 < n; i++) {
        uint64_t f = fing(p + i, s); if (!(fpre[(f >> 48) >> 3] >> ((f >> 48) & 7) & 1)) continue;
        for (uint64_t h = vp_mix(f) & (FN - 1); fp[h]; h = (h + 1) & (FN - 1)) if (fp[h] == f) { track = 0; vp_fail("%s: block %ld of %zu bytes holds a table without any encoding at offset %zu", what, bi, n, i); }
    }
    size_t f0 = first(n); for (size_t i = f0; i + 1024 <= n; i += 16) {
        const uint8_t *t = p + i; uint32_t t0 = w(t);
        if (w(t + 4) == t0 && w(t + 8) == t0) continue;
        for (int c = 0; c < 2; c++) for (int k = 0; k < 256; k++) {
#define U(y) w(t + 4 * (inv[c][y] ^ k))
            if ((U(0) ^ U(1) ^ U(2) ^ U(3)) || (U(0) ^ U(5) ^ U(9) ^ U(12)) || (U(0) ^ U(77) ^ U(177) ^ U(77 ^ 177))) continue;
            int aff = 1; for (int y = 1; y < 256 && aff; y++) { int lo = y & -y; if (lo != y && (U(0) ^ U(lo) ^ U(y ^ lo) ^ U(y))) aff = 0; }
            if (aff && distinct(t)) { track = 0; vp_fail("%s: block %ld of %zu bytes holds a table whose input has no encoding at offset %zu", what, bi, n, i); }
        }
        for (int j = 0; j < 8; j++) {
            int in = 1; for (int x = 1; x < 256 && in; x++) { uint32_t d = w(t + 4 * x) ^ t0; for (int q = 0; q < 24 && in; q++) if (__builtin_parity(d & par[j][q])) in = 0; }
            if (in && distinct(t)) { track = 0; vp_fail("%s: block %ld of %zu bytes holds a table whose output has no encoding at offset %zu", what, bi, n, i); }
        }
        if (i - f0 & 1023) continue;
        if ((n == 1024 || n > 16384) && distinct(t)) for (int a = 0; a < 32; a += 4) for (int b = 0; b < a; b += 4) { /* two output nibbles that say the same: nothing mixes the bytes of the output (by chance: once in 200 thousand) */
            uint8_t m[16]; memset(m, 99, 16); int same = 1, vary = 0; for (int x = 0; x < 256 && same; x++) { int u = w(t + 4 * x) >> a & 15, v = w(t + 4 * x) >> b & 15; if (m[u] == 99) m[u] = (uint8_t)v; else if (m[u] != v) same = 0; if (u != (int)(t0 >> a & 15) && v != (int)(t0 >> b & 15)) vary = 1; }
            if (same && vary && ++dep > 5) { track = 0; vp_fail("%s: block %ld of %zu bytes holds tables whose output bytes are not mixed, the last at offset %zu", what, bi, n, i); }
        }
        for (int c = 0; c < 2; c++) for (int k = 0; k < 256; k++) for (int q = 0; q < 32; q += 4) { /* output encoded by four bits at a time only, input not at all */
#define N(y) (U(y) >> q & 15)
            uint32_t n0 = N(0); int m[16], nm = 0, bad = 0;
            for (int y = 0; y < 256 && !bad; y++) if (N(y) == n0) { if (nm == 16) { bad = 1; break; } m[nm++] = y; if (nm == 3 && N(m[1] ^ m[2]) != n0) bad = 1; if (nm == 5 && (N(m[1] ^ m[4]) != n0 || N(m[2] ^ m[4]) != n0 || N(m[3] ^ m[4]) != n0)) bad = 1; }
            if (bad || nm != 16) continue;
            for (int a = 1; a < 16 && !bad; a++) for (int b = 1; b < a && !bad; b++) if (N(m[a] ^ m[b]) != n0) bad = 1;
            for (int y = 0; y < 256 && !bad; y++) for (int a = 1; a < 16 && !bad; a <<= 1) if (N(y ^ m[a]) != N(y)) bad = 1; /* (one level set alone can be a subspace by chance: inversion keeps subfields) */
            if (!bad && distinct(t)) { track = 0; vp_fail("%s: block %ld of %zu bytes holds a table whose input has no encoding at offset %zu (4-bit output encodings)", what, bi, n, i); }
        }
    }
}
static long nx, nt;
/* XOR tables of four bits: none is affine, so none is the plain XOR */
static void xors(const uint8_t *p, size_t n, long bi)
{
    int add = 0;
    for (size_t i = first(n); i + 256 <= n; i += 16) {
        const uint8_t *t = p + i; int hi = 0; for (int x = 0; x < 256; x++) hi |= t[x]; if (hi & 0xf0 || !memcmp(t, t + 1, 255)) continue;
        int row = 1, col = 1, aff = 1; /* a table over two nibbles depends on both: each row and each column is a permutation */
        for (int x = 0; x < 16 && row && col; x++) { unsigned a = 0, b = 0; for (int y = 0; y < 16; y++) { a |= 1u << t[16 * x + y]; b |= 1u << t[16 * y + x]; } if (a != 65535) row = 0; if (b != 65535) col = 0; }
        if (!row || !col) continue;
        nx++;
        for (int x = 1; x < 256 && aff; x++) { int lo = x & -x; if (lo != x && (t[0] ^ t[lo] ^ t[x ^ lo] ^ t[x])) aff = 0; }
        int in = 1, out = 1; for (int x = 0; x < 256; x++) { if (t[x] != t[(x >> 4) ^ (x & 15)]) in = 0; if (t[x] ^ t[x & 15] ^ t[x & 240] ^ t[0]) out = 0; } add += out; /* (one encoding is affine by chance once in 60 million) */
        if (in || add > 3) { track = 0; vp_fail("%s: block %ld of %zu bytes holds four-bit XOR tables with no encoding of their %s at offset %zu", what, bi, n, in ? "inputs" : "outputs", i); }
        if (aff) { track = 0; vp_fail("%s: block %ld of %zu bytes holds a four-bit XOR table without encodings at offset %zu", what, bi, n, i); }
    }
}
/* no table of 32-bit words in one context is another one, up to a constant */
#define DN 65536
static uint64_t df[DN];
static void twice(int joint)
{
    memset(df, 0, sizeof df); for (long b = 0; b < nb; b++) if (B[b].n >= 1024) { if (!joint) memset(df, 0, sizeof df); for (size_t i = first(B[b].n); i + 1024 <= B[b].n; i += 1024) {
        const uint8_t *t = B[b].p + i; uint64_t h = 1; int tr = 1; uint32_t t0 = w(t);
        if (!distinct(t)) continue; for (int y = 1; y < 256; y++) { h = vp_mix(h ^ (w(t + 4 * y) ^ t0)); } for (int y = 1; y < 256 && tr; y++) if (w(t + 4 * y) - w(t + 4 * y - 4) != w(t + 4) - t0) tr = 0; if (tr) continue;
        nt++;
        for (uint64_t q = h & (DN - 1);; q = (q + 1) & (DN - 1)) { if (!df[q]) { df[q] = h; break; } if (df[q] == h) { track = 0; vp_fail("%s: block %ld of %zu bytes holds at offset %zu a table that it has once more, up to a constant", what, b, B[b].n, i); } }
    } }
}
static void encoded(int one) { int t = track; track = 0; dep = 0; for (long i = 0; i < nb; i++) if (B[i].n >= 256) tables(B[i].p, B[i].n, i), xors(B[i].p, B[i].n, i); if (one) twice(one > 1); track = t; }

/* --- the kinds of white-box material */
enum { K_AES, K_SE, K_SED, K_SM4, K_EE = K_SM4 + 6, K_MASK, K_APPA, K_APPS, K_N };
static const char *kname(int k) { static char b[40]; if (k >= K_SM4 && k < K_EE) { snprintf(b, 40, "wbsm4 mode %d dummies %d", (k - K_SM4) & 1, (k - K_SM4) >> 1); return b; } return k == K_AES ? "wbaes" : k == K_SE ? "se_wbsm4 encryption" : k == K_SED ? "se_wbsm4 decryption" : k == K_EE ? "wbgcm-ee" : k == K_MASK ? "wbgcm-mask" : k == K_APPA ? "application wbaes" : "application wbsm4"; }
typedef struct { int k; void *e, *d; WBCRYPTO_fpe_app_context a; } obj;
static void create(obj *o)
{
    int k = o->k; o->e = o->d = NULL;
    switch (k) {
    case K_AES: o->e = WBCRYPTO_wbaes_context_init(); break; case K_SE: case K_SED: o->e = WBCRYPTO_se_wbsm4_context_init(k == K_SE); break;
    case K_EE: o->e = malloc(sizeof(WBCRYPTO_wbaes_wbgcm_ee_context)); break; case K_MASK: o->e = WBCRYPTO_wbaes_wbgcm_mask_init_table(); o->d = WBCRYPTO_wbaes_wbgcm_mask_init_table(); VP_CHECK(o->d, "%s: no context", what); break;
    case K_APPA: case K_APPS: o->e = malloc(sizeof(WBCRYPTO_fpe_app_context)); memset(o->e, 0, sizeof(WBCRYPTO_fpe_app_context)); break; default: o->e = WBCRYPTO_wbsm4_context_init((k - K_SM4) & 1, (k - K_SM4) >> 1);
    }
    VP_CHECK(o->e, "%s: no context", what);
}
static char APA[] = "wbaes", APS[] = "wbsm4", FF[] = "ff1";
static void __attribute__((noinline)) gen(obj *o, uint64_t seed, size_t n)
{
    uint8_t key[64]; int ok = 1, k = o->k; vp_bytes(key, 64, seed);
    switch (k) {
    case K_AES: ok = WBCRYPTO_wbaes_gen_table(o->e, key, n); break; case K_SE: case K_SED: ok = WBCRYPTO_se_wbsm4_gen_table(o->e, key, n); break;
    case K_EE: WBCRYPTO_wbaes_wbgcm_ee_gen_table(o->e, key, n); break; case K_MASK: WBCRYPTO_wbaes_wbgcm_mask_gen_table(o->e, o->d, key, n); break;
    case K_APPA: case K_APPS: { WBCRYPTO_fpe_app_context *a = o->e; if (a->cipher_ctx) { if (k == K_APPA) WBCRYPTO_wbaes_context_free(a->cipher_ctx); else WBCRYPTO_wbsm4_context_free(a->cipher_ctx); } ok = WBCRYPTO_fpe_app_init(a, key, n, k == K_APPA ? APA : APS, FF); break; }
    default: ok = WBCRYPTO_wbsm4_gen_table(o->e, key, n);
    }
    wipe(key, 64); VP_CHECK(ok == 1, "%s: generation failed", what);
}
static void release(obj *o)
{
    switch (o->k) {
    case K_AES: WBCRYPTO_wbaes_context_free(o->e); break; case K_SE: case K_SED: WBCRYPTO_se_wbsm4_context_free(o->e); break; case K_EE: free(o->e); break;
    case K_MASK: for (int d = 0; d < 2; d++) { WBCRYPTO_wbaes_wbgcm_mask_context *t = d ? o->d : o->e; for (int i = 0; i < 16; i++) { for (int j = 0; j < 256; j++) free(t->GBOX_TypeIII[i][j]); free(t->GBOX_TypeIII[i]); } free(t->GBOX_TypeIII); free(t); } break;
    case K_APPA: WBCRYPTO_wbaes_context_free(((WBCRYPTO_fpe_app_context *)o->e)->cipher_ctx); free(o->e); break; case K_APPS: WBCRYPTO_wbsm4_context_free(((WBCRYPTO_fpe_app_context *)o->e)->cipher_ctx); free(o->e); break;
    default: WBCRYPTO_wbsm4_context_free(o->e);
    }
}
/* the byte tables of white-box GCM take encoded inputs on every side, and no byte table of either kind of AES tables is affine */
static int affine(const uint8_t *t) { for (int x = 1; x < 256; x++) { int lo = x & -x; if (lo != x && (t[0] ^ t[lo] ^ t[x ^ lo] ^ t[x])) return 0; } return 1; }
static void byte_tables(obj *o)
{
    int k = o->k, t_ = track; track = 0; uint8_t col[256];
    if (k == K_AES || k == K_APPA) { WBCRYPTO_wbaes_context *c = k == K_AES ? o->e : ((WBCRYPTO_fpe_app_context *)o->e)->cipher_ctx; for (int i = 0; i < 16; i++) { if (affine(c->TypeIa[i]) || affine(c->TypeIb[i])) vp_fail("%s: byte %d of the external encoding is affine", what, i); } }
    for (int d = 0; d < 1 + (k == K_MASK) && (k == K_EE || k == K_MASK); d++) for (int i = 0; i < 16; i++) {
        WBCRYPTO_wbaes_wbgcm_ee_context *e = o->e; WBCRYPTO_wbaes_wbgcm_mask_context *m = d ? o->d : o->e; int ee = k == K_EE;
        if (affine(ee ? e->TypeIa[i] : m->TypeIa[i])) vp_fail("%s: byte %d of the external encoding is affine", what, i);
        if (affine(ee ? e->GBOX_TypeI[i] : m->GBOX_TypeI[i]) || (!ee && affine(m->GBOX_TypeII[i]))) vp_fail("%s: byte %d of the text's encoding is affine", what, i);
        for (int r = 0; r < 256; r += 51) {
            if (affine(ee ? e->GBOX_TypeIII[i][r] : m->GBOX_TypeIII[i][r])) vp_fail("%s: byte %d of the XOR table has no encoding of its second input", what, i);
            for (int x = 0; x < 256; x++) col[x] = ee ? e->GBOX_TypeIII[i][x][r] : m->GBOX_TypeIII[i][x][r];
            if (affine(col)) vp_fail("%s: byte %d of the XOR table has no encoding of its first input", what, i);
        }
    }
    track = t_;
}
static uint8_t IN[256], OUT[512]; static char tx[64], ty[64];
static void use(obj *o, int how) /* 0: block function or text, 1: modes */
{
    int k = o->k, sm = k >= K_SM4 && k < K_EE; uint8_t iv[16] = {1}, t[16]; size_t u = 512;
    if (k == K_EE || k == K_MASK) {
        int g_ = k == K_EE ? G_EE : G_MASK; wbgkey K; K.kind = g_; K.ek = o->e; K.dk = o->d ? o->d : o->e;
        for (int d = 0; d < 1 + how; d++) { void *g = wbg_new(&K, d); VP_CHECK(wbg_setiv(g_, g, IN, 12) && wbg_aad(g_, g, IN, 5) && (d ? wbg_dec : wbg_enc)(g_, g, IN, 50, OUT, 50) && wbg_fin(g_, g, t, 16), "%s: use fails", what); clear(); wbg_free(g_, g); }
    } else if (k >= K_APPA) { WBCRYPTO_fpe_app_context *a = o->e; strcpy(tx, "13888888888"); memset(ty, 0, 64); VP_CHECK(how ? WBCRYPTO_fpe_decrypt_phone(a, tx, ty) : WBCRYPTO_fpe_encrypt_phone(a, tx, ty), "%s: use fails", what); }
    else if (!how || k == K_SE || k == K_SED) { if (k == K_AES) WBCRYPTO_wbaes_encrypt(IN, OUT, o->e); else if (k == K_SE) WBCRYPTO_se_wbsm4_encrypt(IN, OUT, o->e); else if (k == K_SED) WBCRYPTO_se_wbsm4_decrypt(IN, OUT, o->e); else WBCRYPTO_wbsm4_encrypt(IN, OUT, o->e); }
    else {
        VP_CHECK(sm ? WBCRYPTO_wbsm4_cbc_encrypt(IN, 50, OUT, 512, &u, o->e, iv) : WBCRYPTO_wbaes_cbc_encrypt(IN, 50, OUT, 512, &u, o->e, iv), "%s: CBC fails", what); clear();
        WBCRYPTO_gcm_context *g = sm ? WBCRYPTO_wbsm4_gcm_init(o->e) : WBCRYPTO_wbaes_gcm_init(o->e); VP_CHECK(g && WBCRYPTO_gcm_setiv(g, IN, 12) && WBCRYPTO_gcm_aad(g, IN, 5) && WBCRYPTO_gcm_encrypt(g, IN, 50, OUT, 50) && WBCRYPTO_gcm_finish(g, t, 16), "%s: GCM fails", what); clear(); WBCRYPTO_gcm_free(g);
        WBCRYPTO_fpe_context *f = sm ? WBCRYPTO_wbsm4_fpe_init(o->e, "tweaktwe", 8, 10) : WBCRYPTO_wbaes_fpe_init(o->e, "tweaktwe", 8, 10); strcpy(tx, "13888888888"); VP_CHECK(f && WBCRYPTO_ff1_encrypt(f, tx, ty), "%s: FPE fails", what); clear(); WBCRYPTO_fpe_free(f);
    }
}
static void transfer(obj *o, int file)
{
    int k = o->k; if (!(k >= K_SM4 && k < K_EE)) return;
    obj p; p.k = K_SM4 + ((k - K_SM4 + 2) % 6); create(&p); char f[4]; strcpy(f, "k");
    if (file) { VP_CHECK(WBCRYPTO_wbsm4_key2file(o->e, f), "%s: export fails", what); FILE *h = fopen("k", "rb"); VP_CHECK(h, "%s: no file", what); static uint8_t ch[65536 + 8]; size_t r, keep = 0; while ((r = fread(ch + keep, 1, 65536, h)) > 0) { scan(ch, keep + r, "the exported file"); size_t q = keep + r; keep = q < 7 ? q : 7; memmove(ch, ch + q - keep, keep); } fclose(h); VP_CHECK(WBCRYPTO_wbsm4_file2key(p.e, f), "%s: import fails", what); clear(); remove("k"); }
    else { char *b = NULL; VP_CHECK(WBCRYPTO_wbsm4_key2bytes(o->e, &b) && b, "%s: export fails", what); clear(); VP_CHECK(WBCRYPTO_wbsm4_bytes2key(p.e, b), "%s: import fails", what); clear(); free(b); }
    encoded(0); release(&p);
}
static void newkeys(void) { memset(hw, 0, sizeof hw); memset(pre, 0, sizeof pre); nw = 0; }
static void __attribute__((noinline)) expect(uint64_t seed, size_t n) { uint8_t key[64]; vp_bytes(key, 64, seed); addkey(key, n); wipe(key, 64); }
static char wb_[200];
/* --- every sequence of generation, use, export and release */
static const char *const opn[] = {"generate key 1", "generate key 2", "use", "modes", "export bytes", "export file"};
static void sequence(int k, int len, int s, int seed)
{
    obj o; o.k = k; newkeys(); expect(1000 + seed, 16); expect(2000 + seed, 16); start(); wb_seed(77 + seed); create(&o);
    char d[120] = ""; int have = 0;
    for (int i = 0; i < len; i++, s /= 6) {
        int op = s % 6; strcat(d, i ? ", " : ""); strncat(d, opn[op], sizeof d - strlen(d) - 1); snprintf(wb_, sizeof wb_, "%s: %s", kname(k), d); what = wb_;
        if (op < 2) { gen(&o, 1000 + 1000 * op + seed, 16); have = 1; encoded(k == K_MASK ? 1 : 2), byte_tables(&o); } else if (!have) break; else if (op < 4) use(&o, op - 2); else transfer(&o, op - 4);
        clear(); vp_step(vp_mix(((uint64_t)k * 7 + (uint64_t)op) * 31 + (uint64_t)i * 1009 + (uint64_t)s));
    }
    if (have || k < K_APPA) release(&o); else free(o.e);
    clear(); track = 0; vp_outcome(1);
}
/* --- two generations of one key share no part of a table */
typedef struct { long n; blk *b; } snap;
static snap copy(void) { snap s; s.n = nb; s.b = __libc_malloc((nb + 1) * sizeof *s.b); for (long i = 0; i < nb; i++) { s.b[i].n = B[i].n; s.b[i].p = NULL; if (B[i].n) { s.b[i].p = __libc_malloc(B[i].n); memcpy(s.b[i].p, B[i].p, B[i].n); } } return s; }
static void gone(snap *s) { for (long i = 0; i < s->n; i++) __libc_free(s->b[i].p); __libc_free(s->b); }
static int trivial(const uint8_t *p) /* constant, arithmetic or affine: nothing that depends on randomness or key */
{
    uint32_t d = w(p + 4) - w(p), x = w(p + 4) ^ w(p); int ar = 1, cy = 1; for (int i = 1; i < 16; i++) { if (w(p + 4 * i) - w(p + 4 * i - 4) != d) ar = 0; if (w(p + 4 * i) != w(p + 4 * (i % 2))) cy = 0; } (void)x;
    int bd = 1; for (int i = 1; i < 64; i++) if ((uint8_t)(p[i] - p[i - 1]) != (uint8_t)(p[1] - p[0])) bd = 0;
    int lin = 1; for (int i = 1; i < 64 && lin; i++) { int lo = i & -i; if (lo != i && (p[0] ^ p[lo] ^ p[i ^ lo] ^ p[i])) lin = 0; }
    int ptr = 1; for (int i = 0; i < 8; i++) { uint64_t v = ld(p + 8 * i); if (v && (v >> 47 || v < 4096)) ptr = 0; }
    return ar || cy || bd || ptr || lin;
}
static void fresh(int k, int a, int b, size_t n)
{
    snprintf(wb_, sizeof wb_, "%s: the same key of %zu bytes generated with the random numbers of seeds %d and %d", kname(k), n, a, b); what = wb_; newkeys(); expect(3000 + n, n);
    snap s[2]; for (int i = 0; i < 2; i++) { obj o; o.k = k; start(); wb_seed(i ? b : a); create(&o); gen(&o, 3000 + n, n); clear(); track = 0; s[i] = copy(); track = 1; release(&o); track = 0; }
    if (s[0].n == s[1].n) for (long i = 0; i < s[0].n; i++) if (s[0].b[i].n == s[1].b[i].n) for (size_t j = 0; j + 64 <= s[0].b[i].n; j += 64) {
        const uint8_t *p = s[0].b[i].p + j, *q = s[1].b[i].p + j;
        if (!memcmp(p, q, 64) && !trivial(p)) vp_fail("%s: block %ld of %zu bytes is the same in both at offset %zu: %s", what, i, s[0].b[i].n, j, vp_hex(p, 32));
    }
    gone(&s[0]); gone(&s[1]); vp_step(vp_mix((uint64_t)k * 131 + (uint64_t)a * 7 + (uint64_t)b)); vp_outcome(2);
}
void vp_main(void)
{
    vp_bytes(IN, 256, 4); tables_init(); dl_iterate_phdr(segs, NULL); FILE *h = fopen("warm", "wb"); if (h) { fputc(1, h); fclose(h); remove("warm"); }
    for (int k = 0; k < K_N; k++) for (int len = 1; len <= VP_T(3, 4); len++) {
        int tot = 1; for (int i = 0; i < len; i++) tot *= 6;
        for (int s = 0; s < tot; s++) {
            int g = 0, sk = 0; for (int i = 0, t = s; i < len; i++, t /= 6) { if (!i && t % 6 > 1) sk = 1; if (t % 6 > 3 && !(k >= K_SM4 && k < K_EE)) sk = 1; g += t % 6 < 2; } if (sk || (len == 3 && !vp_thorough && (g > 2 || s % 6))) continue;
            if (!vp_case("%s: sequence %d of %d operations", kname(k), s, len)) continue;
            sequence(k, len, s, s % 7);
        }
    }
    for (int k = 0; k < K_N; k++) for (int n = 0; n <= 40; n++) if (vp_case("%s: key of %d bytes", kname(k), n)) {
        snprintf(wb_, sizeof wb_, "%s: key of %d bytes", kname(k), n); what = wb_; obj o; o.k = k; newkeys(); expect(1500 + n, n); start(); wb_seed(n); create(&o); gen(&o, 1500 + n, n); clear(); encoded(k == K_MASK ? 1 : 2), byte_tables(&o);  release(&o); clear(); track = 0; vp_step(vp_mix((uint64_t)k * 1000 + (uint64_t)n)); vp_outcome(3);
    }
    for (int k = 0; k < K_N; k++) for (int a = 0; a < VP_T(4, 12); a++) for (int b = a + 1; b < VP_T(6, 16); b++) if (vp_case("%s: freshness %d/%d", kname(k), a, b)) fresh(k, a, b, (size_t)(a + 7 * b) % 17);
}

#include "ref.h"
#include <string.h>
#include <stdlib.h>

uint8_t *ref_cov, *ref_kcov;
static uint8_t SB[256], IS[256], S4[256], M9[256], M11[256], M13[256], M14[256];
static int inited;
static uint8_t gmul8(uint8_t a, uint8_t b, int poly)
{
    int r = 0, x = a;
    for (int i = 0; i < 8; i++) { if (b >> i & 1) r ^= x; x <<= 1; if (x & 0x100) x ^= poly; }
    return (uint8_t)r;
}
static uint8_t ginv8(uint8_t a, int poly)
{
    if (!a) return 0;
    for (int b = 1; b < 256; b++) if (gmul8(a, (uint8_t)b, poly) == 1) return (uint8_t)b;
    return 0;
}
static uint8_t rotl8(uint8_t x, int n) { return (uint8_t)(x << n | x >> (8 - n)); }
static void tables(void)
{
    if (inited) return;
    for (int i = 0; i < 256; i++) {
        uint8_t x = ginv8((uint8_t)i, 0x11b);
        SB[i] = (uint8_t)(x ^ rotl8(x, 1) ^ rotl8(x, 2) ^ rotl8(x, 3) ^ rotl8(x, 4) ^ 0x63);
        IS[SB[i]] = (uint8_t)i;
        M9[i] = gmul8((uint8_t)i, 9, 0x11b); M11[i] = gmul8((uint8_t)i, 11, 0x11b); M13[i] = gmul8((uint8_t)i, 13, 0x11b); M14[i] = gmul8((uint8_t)i, 14, 0x11b);
    }
    /* SM4: S(x) = A*inv(A*x + C) + C over GF(2)[x]/(x^8+x^7+x^6+x^5+x^4+x^2+1), A circulant of 0xA7, C = 0xD3 */
    for (int i = 0; i < 256; i++) {
        uint8_t t = 0, u = 0;
        for (int r = 0; r < 8; r++) if (__builtin_parity(rotl8(0xA7, r) & i)) t |= (uint8_t)(1 << r);
        t ^= 0xD3;
        t = ginv8(t, 0x1F5);
        for (int r = 0; r < 8; r++) if (__builtin_parity(rotl8(0xA7, r) & t)) u |= (uint8_t)(1 << r);
        S4[i] = u ^ 0xD3;
    }
    inited = 1;
}
void ref_norm_key(const uint8_t *key, size_t len, uint8_t out[16])
{
    if (len > 16) len = 16;
    for (size_t i = 0; i < 16; i++) out[i] = i < len ? key[i] : (uint8_t)(16 - len);
}
static uint32_t be(const uint8_t *p) { return (uint32_t)p[0] << 24 | (uint32_t)p[1] << 16 | (uint32_t)p[2] << 8 | p[3]; }
static void pbe(uint8_t *p, uint32_t v) { p[0] = v >> 24; p[1] = v >> 16; p[2] = v >> 8; p[3] = v; }
static uint32_t rol(uint32_t x, int n) { n &= 31; return n ? x << n | x >> (32 - n) : x; }
static uint32_t tau(uint32_t x)
{
    return (uint32_t)S4[x >> 24] << 24 | (uint32_t)S4[x >> 16 & 255] << 16 | (uint32_t)S4[x >> 8 & 255] << 8 | S4[x & 255];
}
void ref_init(ref_cipher *c, int kind, const uint8_t *key, size_t keylen)
{
    uint8_t k[16];
    tables();
    memset(c, 0, sizeof *c); c->kind = kind;
    ref_norm_key(key, keylen, k);
    if (kind == 0) {
        uint8_t rc = 1;
        memcpy(c->rk[0], k, 16);
        for (int r = 1; r <= 10; r++) {
            uint8_t *p = c->rk[r - 1], *q = c->rk[r];
            for (int i = 0; i < 4; i++) {
                if (ref_kcov) ref_kcov[((r - 1) * 4 + i) * 256 + p[12 + (i + 1) % 4]] = 1;
                q[i] = p[i] ^ SB[p[12 + (i + 1) % 4]] ^ (i == 0 ? rc : 0);
            }
            for (int i = 4; i < 16; i++) q[i] = p[i] ^ q[i - 4];
            rc = gmul8(rc, 2, 0x11b);
        }
    } else {
        static const uint32_t FK[4] = {0xa3b1bac6, 0x56aa3350, 0x677d9197, 0xb27022dc};
        uint32_t K[36];
        for (int i = 0; i < 4; i++) K[i] = be(k + 4 * i) ^ FK[i];
        for (int i = 0; i < 32; i++) {
            uint32_t ck = 0;
            for (int j = 0; j < 4; j++) ck = ck << 8 | (uint32_t)((4 * i + j) * 7 & 255);
            uint32_t x = K[i + 1] ^ K[i + 2] ^ K[i + 3] ^ ck;
            if (ref_kcov) for (int j = 0; j < 4; j++) ref_kcov[(i * 4 + j) * 256 + (x >> (24 - 8 * j) & 255)] = 1;
            uint32_t t = tau(x);
            K[i + 4] = K[i] ^ t ^ rol(t, 13) ^ rol(t, 23);
            c->srk[i] = K[i + 4];
        }
    }
}
void ref_init_fn(ref_cipher *c, void (*fn)(const uint8_t *, uint8_t *, void *), void *arg)
{
    tables(); memset(c, 0, sizeof *c); c->kind = 2; c->fn = fn; c->arg = arg;
}
static void aes_enc(const ref_cipher *c, const uint8_t in[16], uint8_t out[16])
{
    uint8_t s[16], t[16];
    for (int i = 0; i < 16; i++) s[i] = in[i] ^ c->rk[0][i];
    for (int r = 1; r <= 10; r++) {
        if (ref_cov) for (int i = 0; i < 16; i++) ref_cov[((r - 1) * 16 + i) * 256 + s[i]] = 1;
        for (int i = 0; i < 16; i++) t[i] = SB[s[(i + 4 * (i % 4)) % 16]];
        if (r < 10) for (int q = 0; q < 4; q++) {
            uint8_t *a = t + 4 * q, b[4];
            for (int i = 0; i < 4; i++) {
                uint8_t x = a[i], y = a[(i + 1) & 3], x2 = (uint8_t)(x << 1 ^ (x >> 7) * 0x1b), y2 = (uint8_t)(y << 1 ^ (y >> 7) * 0x1b);
                b[i] = x2 ^ y2 ^ y ^ a[(i + 2) & 3] ^ a[(i + 3) & 3];
            }
            memcpy(a, b, 4);
        }
        for (int i = 0; i < 16; i++) s[i] = t[i] ^ c->rk[r][i];
    }
    memcpy(out, s, 16);
}
static void aes_dec(const ref_cipher *c, const uint8_t in[16], uint8_t out[16])
{
    uint8_t s[16], t[16];
    memcpy(s, in, 16);
    for (int r = 10; r >= 1; r--) {
        for (int i = 0; i < 16; i++) s[i] ^= c->rk[r][i];
        if (r < 10) for (int q = 0; q < 4; q++) {
            uint8_t *a = s + 4 * q, b[4];
            for (int i = 0; i < 4; i++)
                b[i] = M14[a[i]] ^ M11[a[(i + 1) & 3]] ^ M13[a[(i + 2) & 3]] ^ M9[a[(i + 3) & 3]];
            memcpy(a, b, 4);
        }
        for (int i = 0; i < 16; i++) t[(i + 4 * (i % 4)) % 16] = IS[s[i]];
        memcpy(s, t, 16);
    }
    for (int i = 0; i < 16; i++) out[i] = s[i] ^ c->rk[0][i];
}
static void sm4(const ref_cipher *c, const uint8_t in[16], uint8_t out[16], int dec)
{
    uint32_t X[36];
    for (int i = 0; i < 4; i++) X[i] = be(in + 4 * i);
    for (int i = 0; i < 32; i++) {
        uint32_t x = X[i + 1] ^ X[i + 2] ^ X[i + 3] ^ c->srk[dec ? 31 - i : i];
        if (ref_cov && !dec) for (int j = 0; j < 4; j++) ref_cov[(i * 4 + j) * 256 + (x >> (24 - 8 * j) & 255)] = 1;
        uint32_t t = tau(x);
        X[i + 4] = X[i] ^ t ^ rol(t, 2) ^ rol(t, 10) ^ rol(t, 18) ^ rol(t, 24);
    }
    for (int i = 0; i < 4; i++) pbe(out + 4 * i, X[35 - i]);
}
void ref_enc(const ref_cipher *c, const uint8_t in[16], uint8_t out[16])
{
    if (c->kind == 0) aes_enc(c, in, out); else if (c->kind == 1) sm4(c, in, out, 0); else c->fn(in, out, c->arg);
}
void ref_dec(const ref_cipher *c, const uint8_t in[16], uint8_t out[16])
{
    if (c->kind == 0) aes_dec(c, in, out); else if (c->kind == 1) sm4(c, in, out, 1); else abort();
}

/* GCM, SP 800-38D */
void ref_gmul(const uint8_t x[16], const uint8_t y[16], uint8_t out[16])
{
    uint64_t zh = 0, zl = 0, vh = (uint64_t)be(y) << 32 | be(y + 4), vl = (uint64_t)be(y + 8) << 32 | be(y + 12);
    for (int i = 0; i < 128; i++) {
        if (x[i / 8] >> (7 - i % 8) & 1) { zh ^= vh; zl ^= vl; }
        int lsb = (int)(vl & 1);
        vl = vl >> 1 | vh << 63; vh >>= 1;
        if (lsb) vh ^= 0xe1ull << 56;
    }
    pbe(out, zh >> 32); pbe(out + 4, (uint32_t)zh); pbe(out + 8, zl >> 32); pbe(out + 12, (uint32_t)zl);
}
static void absorb(ref_gcm_t *g, uint8_t X[16], const uint8_t *p, size_t n)
{
    while (n) {
        size_t k = n < 16 ? n : 16;
        for (size_t i = 0; i < k; i++) X[i] ^= p[i];
        ref_gmul(X, g->H, X); p += k; n -= k;
    }
}
static void lens(uint8_t L[16], uint64_t a, uint64_t b)
{
    pbe(L, a >> 32); pbe(L + 4, (uint32_t)a); pbe(L + 8, b >> 32); pbe(L + 12, (uint32_t)b);
}
void ref_gcm_start(ref_gcm_t *g, const ref_cipher *c, const uint8_t *iv, size_t ivl)
{
    memset(g, 0, sizeof *g); g->c = c;
    uint8_t z[16] = {0}; ref_enc(c, z, g->H);
    if (ivl == 12) { memcpy(g->J0, iv, 12); g->J0[15] = 1; }
    else { uint8_t L[16]; absorb(g, g->J0, iv, ivl); lens(L, 0, 8ull * ivl); absorb(g, g->J0, L, 16); }
    memcpy(g->Y, g->J0, 16);
}
void ref_gcm_aad(ref_gcm_t *g, const uint8_t *aad, size_t al) { absorb(g, g->X, aad, al); g->al += al; }
void ref_gcm_crypt(ref_gcm_t *g, const uint8_t *in, size_t n, uint8_t *out, int dec)
{
    g->n += n;
    while (n) {
        size_t k = n < 16 ? n : 16; uint8_t e[16], c[16];
        pbe(g->Y + 12, be(g->Y + 12) + 1);
        ref_enc(g->c, g->Y, e);
        for (size_t i = 0; i < k; i++) { uint8_t x = in[i], y = x ^ e[i]; c[i] = dec ? x : y; out[i] = y; }
        absorb(g, g->X, c, k);
        in += k; out += k; n -= k;
    }
}
void ref_gcm_tag(const ref_gcm_t *g0, uint8_t tag[16])
{
    ref_gcm_t g = *g0; uint8_t L[16], e[16];
    lens(L, 8 * g.al, 8 * g.n); absorb(&g, g.X, L, 16);
    ref_enc(g.c, g.J0, e);
    for (int i = 0; i < 16; i++) tag[i] = e[i] ^ g.X[i];
}
void ref_gcm(const ref_cipher *c, const uint8_t *iv, size_t ivl, const uint8_t *aad, size_t al,
             const uint8_t *in, size_t n, uint8_t *out, uint8_t tag[16], int dec)
{
    ref_gcm_t g; ref_gcm_start(&g, c, iv, ivl); ref_gcm_aad(&g, aad, al); ref_gcm_crypt(&g, in, n, out, dec);
    if (tag) ref_gcm_tag(&g, tag);
}
void ref_cbc_enc(const ref_cipher *c, const uint8_t iv[16], const uint8_t *in, size_t nb, uint8_t *out)
{
    uint8_t x[16]; memcpy(x, iv, 16);
    for (size_t b = 0; b < nb; b++) {
        for (int i = 0; i < 16; i++) x[i] ^= in[16 * b + i];
        ref_enc(c, x, x); memcpy(out + 16 * b, x, 16);
    }
}
void ref_cbc_dec(const ref_cipher *c, const uint8_t iv[16], const uint8_t *in, size_t nb, uint8_t *out)
{
    uint8_t x[16], y[16]; memcpy(x, iv, 16);
    for (size_t b = 0; b < nb; b++) {
        ref_dec(c, in + 16 * b, y);
        for (int i = 0; i < 16; i++) y[i] ^= x[i];
        memcpy(x, in + 16 * b, 16); memcpy(out + 16 * b, y, 16);
    }
}

/* FPE.  Numbers as little-endian digit vectors; all arithmetic is schoolbook. */
#define MAXD 24000
static int cv(char ch) { return ch >= 'a' ? ch - 'a' + 10 : ch - '0'; }
static char vc(int v) { return (char)(v < 10 ? '0' + v : 'a' + v - 10); }
/* d[0] least significant digit -> big-endian bytes out[nb]; returns 0 if it does not fit */
static int dig2bytes(const int *d, int n, unsigned radix, uint8_t *out, int nb)
{
    memset(out, 0, nb);
    for (int i = n - 1; i >= 0; i--) {
        unsigned carry = (unsigned)d[i];
        for (int j = nb - 1; j >= 0; j--) { unsigned t = out[j] * radix + carry; out[j] = (uint8_t)t; carry = t >> 8; }
        if (carry) return 0;
    }
    return 1;
}
/* big-endian bytes -> lowest m digits, least significant first */
static void bytes2dig(const uint8_t *in, int nb, unsigned radix, int *d, int m)
{
    uint32_t t[MAXD / 4 + 1]; int w = (nb + 3) / 4; memset(t, 0, sizeof *t * w);
    for (int j = 0; j < nb; j++) { int k = nb - 1 - j; t[w - 1 - k / 4] |= (uint32_t)in[j] << 8 * (k % 4); }
    for (int i = 0; i < m; i++) {
        uint64_t rem = 0;
        for (int j = 0; j < w; j++) { uint64_t x = rem << 32 | t[j]; t[j] = (uint32_t)(x / radix); rem = x % radix; }
        d[i] = (int)rem;
    }
}
static void addmod(int *a, const int *y, int m, int radix, int sub)
{
    int c = 0;
    for (int i = 0; i < m; i++) {
        int t = sub ? a[i] - y[i] - c : a[i] + y[i] + c;
        c = 0;
        if (t < 0) { t += radix; c = 1; } else if (t >= radix) { t -= radix; c = 1; }
        a[i] = t;
    }
}
/* smallest nb with radix^v <= 2^(8 nb), i.e. ceil(ceil(v log2 radix)/8), computed exactly */
static int bytes_for(int v, unsigned radix)
{
    /* bits = bitlen(radix^v - 1) */
    static uint8_t buf[MAXD]; int d[MAXD];
    for (int i = 0; i < v; i++) d[i] = (int)radix - 1;
    int nb = v; /* radix <= 36 < 256 */
    dig2bytes(d, v, radix, buf, nb);
    int z = 0; while (z < nb && buf[z] == 0) z++;
    return nb - z;
}
void ref_ff1(const ref_cipher *c, const uint8_t *tw, size_t twl, unsigned radix, const char *in, char *out, int dec)
{
    int n = (int)strlen(in), u = n / 2, v = n - u;
    int x[MAXD]; /* halves kept most-significant first in text order; A = text[0..u), B = rest */
    int A[MAXD], B[MAXD], na = u, nb_ = v, y[MAXD];
    for (int i = 0; i < n; i++) x[i] = cv(in[i]);
    for (int i = 0; i < u; i++) A[i] = x[u - 1 - i];
    for (int i = 0; i < v; i++) B[i] = x[n - 1 - i];
    int b = bytes_for(v, radix), d = 4 * ((b + 3) / 4) + 4;
    uint8_t P[16] = {1, 2, 1, (uint8_t)(radix >> 16), (uint8_t)(radix >> 8), (uint8_t)radix, 10, (uint8_t)u};
    pbe(P + 8, (uint32_t)n); pbe(P + 12, (uint32_t)twl);
    size_t pad = (16 - (twl + b + 1) % 16) % 16, ql = twl + pad + 1 + b;
    uint8_t *Q = calloc(1, ql), S[MAXD], R[16], T[16];
    if (twl) memcpy(Q, tw, twl);
    for (int k = 0; k < 10; k++) {
        int i = dec ? 9 - k : k, m = i % 2 ? v : u;
        Q[twl + pad] = (uint8_t)i;
        if (dec) dig2bytes(A, na, radix, Q + ql - b, b); else dig2bytes(B, nb_, radix, Q + ql - b, b);
        ref_enc(c, P, R);
        for (size_t q = 0; q < ql; q += 16) { for (int j = 0; j < 16; j++) R[j] ^= Q[q + j]; ref_enc(c, R, T); memcpy(R, T, 16); }
        memcpy(S, R, 16);
        for (int j = 1; j * 16 < d; j++) { memcpy(T, R, 16); uint8_t J[4]; pbe(J, (uint32_t)j); for (int q = 0; q < 4; q++) T[12 + q] ^= J[q]; ref_enc(c, T, S + 16 * j); }
        bytes2dig(S, d, radix, y, m);
        if (!dec) {      /* C = A + y; A = B; B = C */
            int C[MAXD]; memcpy(C, A, sizeof(int) * m); addmod(C, y, m, (int)radix, 0);
            memcpy(A, B, sizeof(int) * nb_); na = nb_; memcpy(B, C, sizeof(int) * m); nb_ = m;
        } else {         /* C = B - y; B = A; A = C */
            int C[MAXD]; memcpy(C, B, sizeof(int) * m); addmod(C, y, m, (int)radix, 1);
            memcpy(B, A, sizeof(int) * na); nb_ = na; memcpy(A, C, sizeof(int) * m); na = m;
        }
    }
    for (int i = 0; i < na; i++) out[i] = vc(A[na - 1 - i]);
    for (int i = 0; i < nb_; i++) out[na + i] = vc(B[nb_ - 1 - i]);
    out[n] = 0; free(Q);
}
int ref_ff3_in_range(unsigned radix, size_t n)
{
    return bytes_for((int)((n + 1) / 2), radix) <= 12;
}
/* the library's FF3: SP 800-38G FF3 round structure, T_R = tweak[4..8) on even rounds and T_L = tweak[0..4) on odd ones,
   round number in the last byte of the tweak half, key used as given (not byte-reversed) */
void ref_ff3(const ref_cipher *c, const uint8_t *tw, size_t twl, unsigned radix, const char *in, char *out, int dec)
{
    int n = (int)strlen(in), u = (n + 1) / 2, v = n - u;
    int A[MAXD], B[MAXD], na = u, nb_ = v, y[MAXD];
    uint8_t t8[8] = {0};
    for (size_t i = 0; i < 8 && i < twl; i++) t8[i] = tw[i];
    for (int i = 0; i < u; i++) A[i] = cv(in[i]);          /* first character least significant */
    for (int i = 0; i < v; i++) B[i] = cv(in[u + i]);
    for (int k = 0; k < 8; k++) {
        int i = dec ? 7 - k : k, m = i % 2 ? v : u;
        uint8_t P[16], R[16], S[16];
        memcpy(P, i % 2 ? t8 : t8 + 4, 4); P[3] ^= (uint8_t)i;
        if (dec) dig2bytes(A, na, radix, P + 4, 12); else dig2bytes(B, nb_, radix, P + 4, 12);
        for (int j = 0; j < 16; j++) R[j] = P[15 - j];
        ref_enc(c, R, S);
        for (int j = 0; j < 16; j++) R[j] = S[15 - j];
        bytes2dig(R, 16, radix, y, m);
        int C[MAXD];
        if (!dec) {
            memcpy(C, A, sizeof(int) * m); addmod(C, y, m, (int)radix, 0);
            memcpy(A, B, sizeof(int) * nb_); na = nb_; memcpy(B, C, sizeof(int) * m); nb_ = m;
        } else {
            memcpy(C, B, sizeof(int) * m); addmod(C, y, m, (int)radix, 1);
            memcpy(B, A, sizeof(int) * na); nb_ = na; memcpy(A, C, sizeof(int) * m); na = m;
        }
    }
    for (int i = 0; i < na; i++) out[i] = vc(A[i]);
    for (int i = 0; i < nb_; i++) out[na + i] = vc(B[i]);
    out[n] = 0;
}

/* SM3, GB/T 32905 */
void ref_sm3_init(ref_sm3_t *s)
{
    static const uint32_t iv[8] = {0x7380166f, 0x4914b2b9, 0x172442d7, 0xda8a0600, 0xa96f30bc, 0x163138aa, 0xe38dee4d, 0xb0fb0e4e};
    memset(s, 0, sizeof *s); memcpy(s->v, iv, 32);
}
#define P0(x) ((x) ^ rol(x, 9) ^ rol(x, 17))
#define P1(x) ((x) ^ rol(x, 15) ^ rol(x, 23))
static void sm3_block(ref_sm3_t *s, const uint8_t *p)
{
    uint32_t W[68], A = s->v[0], B = s->v[1], C = s->v[2], D = s->v[3], E = s->v[4], F = s->v[5], G = s->v[6], H = s->v[7];
    for (int j = 0; j < 16; j++) W[j] = be(p + 4 * j);
    for (int j = 16; j < 68; j++) { uint32_t x = W[j - 16] ^ W[j - 9] ^ rol(W[j - 3], 15); W[j] = P1(x) ^ rol(W[j - 13], 7) ^ W[j - 6]; }
    for (int j = 0; j < 64; j++) {
        uint32_t T = j < 16 ? 0x79cc4519 : 0x7a879d8a;
        uint32_t a12 = rol(A, 12), ss1 = rol(a12 + E + rol(T, j % 32), 7), ss2 = ss1 ^ a12;
        uint32_t ff = j < 16 ? A ^ B ^ C : (A & B) | (A & C) | (B & C), gg = j < 16 ? E ^ F ^ G : (E & F) | (~E & G);
        uint32_t tt1 = ff + D + ss2 + (W[j] ^ W[j + 4]), tt2 = gg + H + ss1 + W[j];
        D = C; C = rol(B, 9); B = A; A = tt1; H = G; G = rol(F, 19); F = E; E = P0(tt2);
    }
    s->v[0] ^= A; s->v[1] ^= B; s->v[2] ^= C; s->v[3] ^= D; s->v[4] ^= E; s->v[5] ^= F; s->v[6] ^= G; s->v[7] ^= H;
}
void ref_sm3_update(ref_sm3_t *s, const void *q, size_t n)
{
    const uint8_t *p = q; s->total += n;
    while (n) {
        if (s->nbuf == 0 && n >= 64) { sm3_block(s, p); p += 64; n -= 64; continue; }
        s->buf[s->nbuf++] = *p++; n--;
        if (s->nbuf == 64) { sm3_block(s, s->buf); s->nbuf = 0; }
    }
}
void ref_sm3_final(ref_sm3_t s, uint8_t out[32])
{
    uint64_t bits = s.total * 8; uint8_t z = 0x80, L[8];
    ref_sm3_update(&s, &z, 1); z = 0;
    while (s.nbuf != 56) ref_sm3_update(&s, &z, 1);
    pbe(L, bits >> 32); pbe(L + 4, (uint32_t)bits); ref_sm3_update(&s, L, 8);
    for (int i = 0; i < 8; i++) pbe(out + 4 * i, s.v[i]);
}
void ref_sm3(const void *p, size_t n, uint8_t out[32]) { ref_sm3_t s; ref_sm3_init(&s); ref_sm3_update(&s, p, n); ref_sm3_final(s, out); }

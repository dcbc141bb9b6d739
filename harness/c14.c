/* C14: the white-box GCM variants equal (masked) AES-GCM and authenticate. */
#include "wbg.h"

/* per-byte mask maps of a key pair, learnt from the encryption side by one probe per bit; the rest is then fully predicted */
typedef struct { wbgkey *k; uint8_t L[16][256], I[16][256]; } gk;
static uint8_t buf[1 << 18], aadb[1 << 17], ivb[1 << 17];
static void learn(gk *K, wbgkey *k)
{
    K->k = k;
    for (int i = 0; i < 16; i++) for (int v = 0; v < 256; v++) K->L[i][v] = K->I[i][v] = (uint8_t)v;
    if (k->kind == G_EE) return;
    uint8_t z[16] = {0}, c0[16], c[16]; void *g = wbg_new(k, 0);
    wbg_setiv(k->kind, g, ivb, 12); VP_CHECK(wbg_enc(k->kind, g, z, 16, c0, 16) == 1, "encrypt failed");
    for (int i = 0; i < 16; i++) K->L[i][0] = 0;
    for (int b = 0; b < 8; b++) {
        uint8_t m[16]; memset(m, 1 << b, 16); wbg_setiv(k->kind, g, ivb, 12); VP_CHECK(wbg_enc(k->kind, g, m, 16, c, 16) == 1, "encrypt failed");
        for (int i = 0; i < 16; i++) for (int v = 0; v < 1 << b; v++) K->L[i][v | 1 << b] = K->L[i][v] ^ c[i] ^ c0[i];
    }
    for (int i = 0; i < 16; i++) { int seen[256] = {0}; for (int v = 0; v < 256; v++) { VP_CHECK(!seen[K->L[i][v]]++, "two texts give the same ciphertext byte %d", i); K->I[i][K->L[i][v]] = (uint8_t)v; } }
    wbg_free(k->kind, g);
}
/* model of one masked message: like ref_gcm_t, the hash running over the masked text */
static void m_crypt(const gk *K, ref_gcm_t *m, const uint8_t *in, size_t n, uint8_t *out, int dec)
{
    uint8_t t[16], o[16];
    for (size_t off = 0; off < n; off += 16) {
        size_t u = n - off < 16 ? n - off : 16;
        if (dec) {
            ref_gcm_t s = *m; memset(t, 0, 16); ref_gcm_crypt(&s, t, u, o, 0); /* key stream */
            for (size_t i = 0; i < u; i++) out[off + i] = K->I[i][in[off + i]] ^ o[i];
            ref_gcm_crypt(m, in + off, u, o, 1);
        } else {
            ref_gcm_t s = *m; ref_gcm_crypt(&s, in + off, u, o, 0);
            for (size_t i = 0; i < u; i++) t[i] = K->L[i][o[i]];
            memcpy(out + off, t, u);
            ref_gcm_crypt(m, t, u, o, 1);
        }
    }
}
static void m_tag(const gk *K, const ref_gcm_t *m, uint8_t t[16]) { ref_gcm_tag(m, t); for (int i = 0; i < 16; i++) t[i] = K->L[i][t[i]]; }

static void do_iv(gk *K, void *g, ref_gcm_t *m, const uint8_t *iv, size_t n)
{
    uint8_t *k = malloc(n ? n : 1); memcpy(k, iv, n);
    VP_CHECK(wbg_setiv(K->k->kind, g, k, n) == 1, "setiv failed"); VP_CHECK(!memcmp(k, iv, n), "setiv changed the IV");
    memset(k, 0xDB, n ? n : 1); free(k); ref_gcm_start(m, &K->k->r, iv, n); vp_step(vp_hash(1, m->J0, 16));
}
static void do_aad(gk *K, void *g, ref_gcm_t *m, const uint8_t *a, size_t n)
{
    uint8_t *k = malloc(n ? n : 1); memcpy(k, a, n);
    VP_CHECK(wbg_aad(K->k->kind, g, k, n) == 1, "aad failed"); VP_CHECK(!memcmp(k, a, n), "aad changed the data");
    memset(k, 0xDB, n ? n : 1); free(k); ref_gcm_aad(m, a, n); vp_step(vp_hash(m->al, m->X, 16));
}
static void do_crypt(gk *K, void *g, ref_gcm_t *m, const uint8_t *in, size_t n, int dec, int inplace, uint8_t *res)
{
    uint8_t *want = malloc(n + 1), *keep = malloc(n + 1); memcpy(keep, in, n);
    m_crypt(K, m, in, n, want, dec);
    vp_buf o = vp_balloc(n, 0x51); const uint8_t *src = keep;
    if (inplace) { memcpy(o.p, in, n); src = o.p; }
    int r = dec ? wbg_dec(K->k->kind, g, src, n, o.p, n) : wbg_enc(K->k->kind, g, src, n, o.p, n);
    VP_CHECK(r == 1, "%s of %zu bytes returned %d", dec ? "decrypt" : "encrypt", n, r);
    VP_CHECK(!memcmp(o.p, want, n), "%s of %zu bytes gives %s, expected %s", dec ? "decrypt" : "encrypt", n, vp_hex(o.p, n), vp_hex(want, n));
    VP_CHECK(vp_bintact(&o), "wrote outside the output");
    VP_CHECK(inplace || !memcmp(keep, in, n), "input changed");
    if (res) memcpy(res, o.p, n);
    vp_step(vp_hash(vp_hash(m->n, m->Y, 16), m->X, 16));
    vp_bfree(&o); free(want); free(keep);
}
static void do_tag(gk *K, void *g, const ref_gcm_t *m, size_t tl, uint8_t *res)
{
    uint8_t want[16]; m_tag(K, m, want);
    vp_buf t = vp_balloc(tl, 0x52);
    VP_CHECK(wbg_fin(K->k->kind, g, t.p, tl) == 1, "finish(%zu) failed", tl);
    VP_CHECK(!memcmp(t.p, want, tl), "tag of %zu bytes is %s, expected %s", tl, vp_hex(t.p, tl), vp_hex(want, tl));
    VP_CHECK(vp_bintact(&t), "finish(%zu) wrote outside the tag", tl);
    if (res) memcpy(res, t.p, tl);
    vp_step(vp_hash(tl + 3, want, 16)); vp_outcome(vp_hash(0, want, 16)); vp_bfree(&t);
}
/* encrypt on one context, decrypt on its pair: same text back, same tag */
static void pair(gk *K, void *ge, void *gd, const uint8_t *iv, size_t ivl, const uint8_t *a, size_t al, const uint8_t *p, size_t n, int ip, size_t tl)
{
    ref_gcm_t m; uint8_t *c = malloc(n + 1), *d = malloc(n + 1), t1[16], t2[16];
    do_iv(K, ge, &m, iv, ivl); if (al || (n & 1)) do_aad(K, ge, &m, a, al);
    if (n || (al & 1)) do_crypt(K, ge, &m, p, n, 0, ip & 1, c);
    do_tag(K, ge, &m, tl, t1);
    do_iv(K, gd, &m, iv, ivl); if (al || !(n & 1)) do_aad(K, gd, &m, a, al);
    if (n || !(al & 1)) do_crypt(K, gd, &m, c, n, 1, ip >> 1, d);
    do_tag(K, gd, &m, tl, t2);
    VP_CHECK(!n || !memcmp(d, p, n), "decryption gives %s for the text %s", vp_hex(d, n), vp_hex(p, n));
    VP_CHECK(!memcmp(t1, t2, tl), "encryption tag %s, decryption tag %s", vp_hex(t1, tl), vp_hex(t2, tl));
    free(c); free(d);
}
/* the tag the decryption side computes, without a prediction */
static void dtag(gk *K, void *gd, const uint8_t *iv, size_t ivl, const uint8_t *a, size_t al, const uint8_t *c, size_t n, uint8_t t[16])
{
    static uint8_t o[4096]; int k = K->k->kind;
    VP_CHECK(wbg_setiv(k, gd, iv, ivl) == 1 && wbg_aad(k, gd, a, al) == 1 && wbg_dec(k, gd, c, n, o, n) == 1 && wbg_fin(k, gd, t, 16) == 1, "decryption failed");
    vp_step(vp_hash(n, t, 16)); vp_note("alterations", 1);
}
static void tamper(gk *K, void *ge, void *gd, size_t ivl, size_t al, size_t n)
{
    uint8_t iv[64], a[256], p[256], c[256], t[16], u[16]; vp_bytes(iv, 64, ivl); vp_bytes(a, 256, al + 9); vp_bytes(p, 256, n + 17); ref_gcm_t m;
    memset(a + al, 0, 32);
    do_iv(K, ge, &m, iv, ivl); do_aad(K, ge, &m, a, al); do_crypt(K, ge, &m, p, n, 0, 0, c); do_tag(K, ge, &m, 16, t);
    memset(c + n, 0, 32);
    dtag(K, gd, iv, ivl, a, al, c, n, u); VP_CHECK(!memcmp(t, u, 16), "unaltered message: tag %s instead of %s", vp_hex(u, 16), vp_hex(t, 16));
#define CHANGED(...) VP_CHECK(memcmp(t, u, 16), __VA_ARGS__)
    for (size_t i = 0; i < n; i++) for (int b = 0; b < 8; b++) { c[i] ^= 1 << b; dtag(K, gd, iv, ivl, a, al, c, n, u); c[i] ^= 1 << b; CHANGED("ciphertext bit %zu.%d altered, same tag", i, b); }
    for (size_t i = 0; i < al; i++) for (int b = 0; b < 8; b++) { a[i] ^= 1 << b; dtag(K, gd, iv, ivl, a, al, c, n, u); a[i] ^= 1 << b; CHANGED("associated data bit %zu.%d altered, same tag", i, b); }
    for (size_t i = 0; i < ivl; i++) for (int b = 0; b < 8; b++) { iv[i] ^= 1 << b; dtag(K, gd, iv, ivl, a, al, c, n, u); iv[i] ^= 1 << b; CHANGED("IV bit %zu.%d altered, same tag", i, b); }
    for (size_t x = 0; x < n; x++) { dtag(K, gd, iv, ivl, a, al, c, x, u); CHANGED("ciphertext cut to %zu bytes, same tag", x); }
    for (size_t x = 1; x <= 32; x++) { dtag(K, gd, iv, ivl, a, al, c, n + x, u); CHANGED("ciphertext extended by %zu zero bytes, same tag", x); }
    for (size_t x = 0; x < al; x++) { dtag(K, gd, iv, ivl, a, x, c, n, u); CHANGED("associated data cut to %zu bytes, same tag", x); }
    for (size_t x = 1; x <= 32; x++) { dtag(K, gd, iv, ivl, a, al + x, c, n, u); CHANGED("associated data extended by %zu zero bytes, same tag", x); }
    for (size_t x = 0; x < ivl; x++) { dtag(K, gd, iv, x, a, al, c, n, u); CHANGED("IV cut to %zu bytes, same tag", x); }
    for (size_t i = 0; i + 32 <= n; i += 16) { uint8_t q[256]; memcpy(q, c, n); memcpy(q + i, c + i + 16, 16); memcpy(q + i + 16, c + i, 16); dtag(K, gd, iv, ivl, a, al, q, n, u); CHANGED("ciphertext blocks %zu and %zu exchanged, same tag", i / 16, i / 16 + 1); }
    /* the border between associated data and ciphertext moved */
    uint8_t ac[512]; memcpy(ac, a, al); memcpy(ac + al, c, n);
    for (size_t x = 0; x <= al + n; x++) if (x != al) { dtag(K, gd, iv, ivl, ac, x, ac + x, al + n - x, u); CHANGED("%zu of %zu bytes taken as associated data instead of %zu, same tag", x, al + n, al); }
}

/* ---- operation sequences on one encryption context, one decryption context ---- */
enum { O_IV12, O_IV7, O_AAD16, O_AAD5, O_C16, O_C21, O_C0, O_FIN16, O_FIN4, O_BIG, O_NOPS };
static const char opch[] = "INADEPeFfX";
static int seq_next(int st, int op)
{
    if (op <= O_IV7) return 1;
    if (op == O_BIG) return st;
    if (st == 0 || st == 5) return -1;
    switch (op) {
    case O_AAD16: return st == 1 ? 1 : -1;
    case O_AAD5: return st == 1 ? 2 : -1;
    case O_C16: return st == 4 ? -1 : 3;
    case O_C0: return st;
    case O_C21: return st == 4 ? -1 : 4;
    default: return 5;
    }
}
static void seq_run(gk *K, gk *B, const int *ops, int n)
{
    int kd = K->k->kind; void *g[2] = {wbg_new(K->k, 0), wbg_new(K->k, 1)}, *by = wbg_new(B->k, 0); ref_gcm_t m[2], mb; uint8_t d[64], c[64], t1[16], t2[16];
    vp_bytes(d, 12, 1); do_iv(B, by, &mb, d, 12);
    for (int i = 0; i < n; i++) {
        vp_bytes(d, 64, i * 100 + ops[i]); memcpy(c, d, 64);
        for (int s = 0; s < 2; s++) switch (ops[i]) {
            case O_IV12: do_iv(K, g[s], &m[s], d, 12); break;
            case O_IV7: do_iv(K, g[s], &m[s], d, i & 1 ? 7 : 20); break;
            case O_AAD16: do_aad(K, g[s], &m[s], d, i & 1 ? 16 : 48); break;
            case O_AAD5: do_aad(K, g[s], &m[s], d, i & 1 ? 5 : 21); break;
            case O_C16: do_crypt(K, g[s], &m[s], s ? c : d, i & 1 ? 16 : 32, s, i & 1, c); if (s) VP_CHECK(!memcmp(c, d, i & 1 ? 16 : 32), "text not recovered"); break;
            case O_C21: do_crypt(K, g[s], &m[s], s ? c : d, i & 1 ? 21 : 3, s, i & 1, c); if (s) VP_CHECK(!memcmp(c, d, i & 1 ? 21 : 3), "text not recovered"); break;
            case O_C0: do_crypt(K, g[s], &m[s], d, 0, s, 0, NULL); break;
            case O_FIN16: do_tag(K, g[s], &m[s], 16, s ? t2 : t1); if (s) VP_CHECK(!memcmp(t1, t2, 16), "tags differ"); break;
            case O_FIN4: do_tag(K, g[s], &m[s], 4, NULL); break;
            case O_BIG: { /* a refused request changes nothing; the bystander goes on */
                vp_buf o = vp_balloc(16, 7);
                VP_CHECK((s ? wbg_dec(kd, g[s], d, 17, o.p, 16) : wbg_enc(kd, g[s], d, 17, o.p, 16)) == 0, "17 bytes accepted for a buffer of 16");
                VP_CHECK(vp_bintact(&o), "refused call wrote outside the output"); vp_bfree(&o);
                if (s) do_crypt(B, by, &mb, d, 16, 0, 0, NULL);
            } break;
        }
    }
    do_tag(B, by, &mb, 16, NULL);
    wbg_free(kd, g[0]); wbg_free(kd, g[1]); wbg_free(B->k->kind, by);
}
static void seq_all(gk *K, gk *B, int *ops, int n, int depth, int st)
{
    if (n == depth) { seq_run(K, B, ops, n); vp_note("sequences", 1); return; }
    for (int o = 0; o < O_NOPS; o++) { int t = seq_next(st, o); if (t < 0) continue; ops[n] = o; seq_all(K, B, ops, n + 1, depth, t); }
}
static gk *shared(int kind) { static gk K[2]; if (!K[kind].k) learn(&K[kind], wbg_shared(kind)); return &K[kind]; }
static void key_free(wbgkey *k) { if (k->kind == G_EE) free(k->ek); /* the masked tables have no public release function */ }

static int noblock(const unsigned char *in, unsigned char *out, const void *key) { memcpy(out, in, 16); (void)key; return 1; }
void vp_main(void)
{
    vp_bytes(buf, sizeof buf, 3); vp_bytes(aadb, sizeof aadb, 4); vp_bytes(ivb, sizeof ivb, 5);
    for (int kd = 0; kd < 2; kd++) {
        /* random encodings, keys, key lengths */
        int ns = vp_opt ? VP_T(400, 4000) : VP_T(16, 64);
        for (int s = 0; s < ns; s++)
            if (vp_case("%s encoding seed %d", gname[kd], s)) {
                uint8_t key[16]; vp_bytes(key, 16, s / 2); if (s == 0) memset(key, 0, 16); if (s == 1) memset(key, 0xff, 16);
                wb_seed(1000 + s); wbgkey k = wbg_key(kd, key, 16); static gk K; learn(&K, &k); void *e = wbg_new(&k, 0), *d = wbg_new(&k, 1);
                /* every value of every text byte and every position of the counter block */
                for (int v = 0; v < 256; v += 8) { for (int i = 0; i < 128; i++) buf[i] = (uint8_t)(v + i % 8 * 1 + i / 8 * 37); for (int i = 0; i < 16; i++) for (int j = 0; j < 8; j++) buf[j * 16 + i] = (uint8_t)(v + j); pair(&K, e, d, ivb + v, 12, aadb, v % 33, buf, 128, v >> 3 & 3, 16); }
                vp_bytes(buf, sizeof buf, 3);
                for (int n = 0; n < 50; n++) pair(&K, e, d, ivb + n, 1 + n % 24, aadb, n % 17, buf, n, n & 3, 16 - n % 5);
                wbg_free(kd, e); wbg_free(kd, d); key_free(&k);
            }
        for (int n = 0; n <= 40; n++)
            if (vp_case("%s key of %d bytes", gname[kd], n)) {
                uint8_t *key = malloc(n ? n : 1); vp_bytes(key, n, n); wb_seed(n); wbgkey k = wbg_key(kd, key, n); uint8_t chk[64]; vp_bytes(chk, n, n); VP_CHECK(!memcmp(chk, key, n), "key changed"); memset(key, 1, n ? n : 1); free(key);
                static gk K; learn(&K, &k); void *e = wbg_new(&k, 0), *d = wbg_new(&k, 1);
                for (int m = 0; m < 40; m += 3) pair(&K, e, d, ivb, 12, aadb, m, buf, m, 0, 16);
                wbg_free(kd, e); wbg_free(kd, d); key_free(&k);
            }
        /* IV lengths */
        static const int ivx[] = {100, 127, 128, 129, 255, 256, 257, 512, 1024, 4096, 8191, 8192, 8193, 65535, 65536, 100000};
        for (int li = 0; li < 81 + (int)(sizeof ivx / sizeof *ivx); li++)
            if (vp_case("%s IV of %d bytes", gname[kd], li < 81 ? li : ivx[li - 81])) {
                size_t n = li < 81 ? li : ivx[li - 81]; gk *K = shared(kd); void *e = wbg_new(K->k, 0), *d = wbg_new(K->k, 1);
                for (int v = 0; v < 4; v++) { pair(K, e, d, ivb + v, n, aadb, 3, buf, 35, v, 16); pair(K, e, d, ivb + v, n, aadb, 0, buf, 0, v, 16); }
                wbg_free(kd, e); wbg_free(kd, d);
            }
        /* AAD x message grid */
        for (int al = 0; al <= VP_T(36, 80); al++)
            if (vp_case("%s AAD of %d bytes with every message length", gname[kd], al)) {
                gk *K = shared(kd); void *e = wbg_new(K->k, 0), *d = wbg_new(K->k, 1);
                for (int n = 0; n <= VP_T(68, 130); n++) for (int v = 0; v < 2; v++) pair(K, e, d, ivb + n, v ? 12 : 1 + (al + n) % 23, aadb, al, buf + n, n, (v << 1 ^ n) & 3, 16);
                wbg_free(kd, e); wbg_free(kd, d);
            }
        static const int big[] = {127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4079, 4080, 4081, 4095, 4096, 4097, 8192, 16384, 32768, 65535, 65536, 65537, 131071, 131072};
        for (unsigned b = 0; b < sizeof big / sizeof *big; b++)
            for (int v = 0; v < 2; v++) {
                if (vp_case("%s message of %d bytes%s", gname[kd], big[b], v ? ", other IV" : "")) { gk *K = shared(kd); void *e = wbg_new(K->k, 0), *d = wbg_new(K->k, 1); pair(K, e, d, ivb, v ? 30 : 12, aadb, 20, buf, big[b], v, 16); wbg_free(kd, e); wbg_free(kd, d); }
                if (vp_case("%s AAD of %d bytes, message of %d", gname[kd], big[b], v * 17)) { gk *K = shared(kd); void *e = wbg_new(K->k, 0), *d = wbg_new(K->k, 1); pair(K, e, d, ivb, 12, aadb, big[b] > 131072 ? 131072 : big[b], buf, v * 17, v, 16); wbg_free(kd, e); wbg_free(kd, d); }
            }
        /* message fed in pieces until the counter carries through two bytes (three when thorough) */
        for (int v = 0; v < 2; v++)
            if (vp_opt && vp_case("%s message of %d MiB, %s", gname[kd], VP_T(2, 520), v ? "decrypt" : "encrypt")) {
                gk *K = shared(kd); void *g = wbg_new(K->k, v); ref_gcm_t m; do_iv(K, g, &m, ivb, v ? 5 : 12);
                for (int i = 0; i < VP_T(2, 520) * 16; i++) do_crypt(K, g, &m, buf + i % 7 * 16, 65536, v, 0, NULL);
                do_tag(K, g, &m, 16, NULL); wbg_free(kd, g);
            }
        /* IV, AAD and message lengths beyond 32 bits: zero bytes keep the hash at zero, so the model needs no work for them */
        for (int v = 0; v < 4; v++)
            for (unsigned q = 0; q < VP_T(1, 3); q++)
                if (vp_opt && vp_case("%s %s of 2^29%s bytes, %s side", gname[kd], v & 2 ? "IV" : "AAD", q == 0 ? "+5" : q == 1 ? "" : "-16", v & 1 ? "decryption" : "encryption")) {
                    size_t n = ((size_t)1 << 29) + (q == 0 ? 5 : q == 1 ? 0 : -16); gk *K = shared(kd); void *g = wbg_new(K->k, v & 1); ref_gcm_t m; uint8_t *z = calloc(n + 16, 1); VP_CHECK(z, "harness: memory");
                    if (v & 2) {
                        size_t tail = n % 16 ? n % 16 : 16; memcpy(z + n - tail, ivb, tail);
                        VP_CHECK(wbg_setiv(kd, g, z, n) == 1, "setiv failed"); ref_gcm_start(&m, &K->k->r, ivb, 12);
                        uint8_t x[16] = {0}, y[16]; memcpy(x, ivb, tail); ref_gmul(x, m.H, y); for (int i = 0; i < 8; i++) y[15 - i] ^= (uint8_t)((uint64_t)n * 8 >> 8 * i);
                        ref_gmul(y, m.H, m.J0); memcpy(m.Y, m.J0, 16);
                    } else {
                        do_iv(K, g, &m, ivb, 12); VP_CHECK(wbg_aad(kd, g, z, n / 16 * 16) == 1, "aad failed"); m.al += n / 16 * 16; do_aad(K, g, &m, aadb, n % 16);
                    }
                    vp_step(n + v); do_crypt(K, g, &m, buf, 35, v & 1, 0, NULL); do_tag(K, g, &m, 16, NULL); free(z); wbg_free(kd, g);
                }
        if (vp_opt && vp_case("%s decryption of 2^29 zero bytes and 35 more", gname[kd])) {
            gk *K = shared(kd); void *g = wbg_new(K->k, 1); ref_gcm_t m; do_iv(K, g, &m, ivb, 12); static uint8_t z[1 << 20], o[1 << 20];
            block128_f *bf = kd == G_EE ? &((WBCRYPTO_wbgcm_ee_context *)g)->block : &((WBCRYPTO_wbgcm_mask_context *)g)->block, real = *bf; if (!vp_thorough) *bf = noblock; /* (the text of this stretch is not looked at, and the hash does not depend on it) */
            for (int i = 0; i < 512; i++) VP_CHECK(wbg_dec(kd, g, z, sizeof z, o, sizeof o) == 1, "decrypt failed");
            *bf = real;
            m.n += (uint64_t)512 << 20; uint32_t c = 1 + (512u << 16); for (int i = 0; i < 4; i++) m.Y[12 + i] = (uint8_t)(c >> (24 - 8 * i));
            vp_step(vp_hash(m.n, m.Y, 16)); do_crypt(K, g, &m, buf, 35, 1, 0, NULL); do_tag(K, g, &m, 16, NULL); wbg_free(kd, g);
        }
        /* counter start values: hashed IVs give pseudo-random counters; search the IVs whose counter start is next to a carry */
        for (int v = 0; v < VP_T(8, 32); v++)
            if (vp_case("%s IVs with the counter next to a carry, family %d", gname[kd], v)) {
                gk *K = shared(kd); void *e = wbg_new(K->k, 0), *d = wbg_new(K->k, 1); uint8_t H[16] = {0}, iv[16], y[16]; ref_enc(&K->k->r, H, H);
                /* 16-byte IV: J0 = (IV.H ^ len).H = IV.H^2 ^ len.H; solve by inverting H */
                uint8_t hi[16] = {0x80}, sq[16]; memcpy(sq, H, 16); /* H^-1 = H^(2^128-2) */
                for (int i = 1; i < 128; i++) { uint8_t t[16]; ref_gmul(sq, sq, t); memcpy(sq, t, 16); ref_gmul(hi, sq, t); memcpy(hi, t, 16); }
                for (unsigned c = 0; c < 40; c++) {
                    static const uint32_t st[] = {0xffffffffu, 0x00ffffffu, 0x0000ffffu, 0x000000ffu, 0x7fffffffu, 0xfffeffffu, 0xff00ffffu, 0x80ffffffu};
                    uint32_t s = st[c % 8] - c / 8; vp_bytes(y, 16, v); if (v == 1) memset(y, 0xff, 16); for (int i = 0; i < 4; i++) y[12 + i] = (uint8_t)(s >> (24 - 8 * i));
                    uint8_t t[16]; ref_gmul(y, hi, t); t[15] ^= 128; ref_gmul(t, hi, iv);
                    ref_gcm_t m; ref_gcm_start(&m, &K->k->r, iv, 16); VP_CHECK(!memcmp(m.J0, y, 16), "harness: IV construction");
                    for (size_t n = 1; n <= 130; n += 43) pair(K, e, d, iv, 16, aadb, c % 5, buf, n, c & 3, 16);
                }
                wbg_free(kd, e); wbg_free(kd, d);
            }
        /* tag lengths */
        for (int tl = 0; tl <= 40; tl++)
            if (vp_case("%s tag of %d bytes", gname[kd], tl)) {
                gk *K = shared(kd); void *e = wbg_new(K->k, 0), *d = wbg_new(K->k, 1);
                if (tl <= 16) for (int n = 0; n < 40; n += 3) for (int al = 0; al < 20; al += 9) pair(K, e, d, ivb, 12, aadb, al, buf, n, 0, tl);
                else for (int s = 0; s < 2; s++) {
                    vp_buf t = vp_balloc(16, 1); wbg_setiv(kd, s ? d : e, ivb, 12);
                    VP_CHECK(wbg_fin(kd, s ? d : e, t.p, tl) == 0, "a %d-byte tag was not refused", tl); VP_CHECK(vp_bintact(&t), "finish wrote outside the tag"); vp_step(tl); vp_bfree(&t);
                    pair(K, e, d, ivb, 12, aadb, 5, buf, 20, 0, 16);
                }
                wbg_free(kd, e); wbg_free(kd, d);
            }
        /* all splittings at block borders */
        for (int nb = 0; nb <= VP_T(5, 8); nb++)
            for (int tail = 0; tail < 16; tail += 3)
                if (vp_case("%s all splittings of %d blocks + %d bytes", gname[kd], nb, tail)) {
                    gk *K = shared(kd); void *g[2] = {wbg_new(K->k, 0), wbg_new(K->k, 1)};
                    for (int cut = 0; cut < 1 << nb; cut++)
                        for (int dec = 0; dec < 2; dec++) {
                            ref_gcm_t m; do_iv(K, g[dec], &m, ivb + cut, 12); size_t st = 0, n = nb * 16 + tail;
                            for (int b = 1; b <= nb; b++) if (cut >> (nb - b) & 1) { do_aad(K, g[dec], &m, aadb + st, b * 16 - st); st = b * 16; }
                            do_aad(K, g[dec], &m, aadb + st, n - st); st = 0;
                            for (int b = 1; b <= nb; b++) if (cut >> (b - 1) & 1) { do_crypt(K, g[dec], &m, buf + st, b * 16 - st, dec, b & 1, NULL); st = b * 16; if (b % 3 == 0) do_crypt(K, g[dec], &m, buf, 0, dec, 0, NULL); }
                            if (n - st || cut % 2) do_crypt(K, g[dec], &m, buf + st, n - st, dec, 0, NULL);
                            do_tag(K, g[dec], &m, 16, NULL);
                        }
                    wbg_free(kd, g[0]); wbg_free(kd, g[1]);
                }
        /* every single alteration */
        static const int tn[] = {0, 1, 15, 16, 17, 32, 40, 64}, ta[] = {0, 1, 13, 16, 20, 32};
        for (int ni = 0; ni < 8; ni++) for (int ai = 0; ai < 6; ai++) for (int iv = 0; iv < 3; iv++)
            if (vp_case("%s every alteration of %d bytes with %d bytes AAD, IV of %d bytes", gname[kd], tn[ni], ta[ai], iv == 0 ? 12 : iv == 1 ? 16 : 7)) {
                gk *K = shared(kd); void *e = wbg_new(K->k, 0), *d = wbg_new(K->k, 1); tamper(K, e, d, iv == 0 ? 12 : iv == 1 ? 16 : 7, ta[ai], tn[ni]); wbg_free(kd, e); wbg_free(kd, d);
            }
        /* the block function on its own tables stays usable after everything above: call sequences */
        int depth = vp_opt ? VP_T(6, 7) : VP_T(4, 5);
        for (int a = 0; a < O_NOPS; a++) for (int b = 0; b < O_NOPS; b++) for (int dp = 2; dp <= depth; dp++) {
            int s1 = seq_next(0, a); if (s1 < 0) continue; int s2 = seq_next(s1, b); if (s2 < 0) continue;
            if (vp_case("%s all valid sequences of %d calls starting %c%c", gname[kd], dp, opch[a], opch[b])) { gk *K = shared(kd), *B = shared(1 - kd); int ops[16] = {a, b}; seq_all(K, B, ops, 2, dp, s2); }
        }
    }
}

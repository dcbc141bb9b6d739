/* C03: CBC equals the standard on the PKCS#7-padded message and round-trips. */
#include "ciphers.h"

static size_t padded(size_t n) { return n % 16 ? (n / 16 + 1) * 16 : n; }

/* a cheap user-supplied block cipher for the generic entry points: AES of the reference model */
static int ublk_e(const uint8_t in[16], uint8_t out[16], const void *k) { uint8_t t[16]; ref_enc(k, in, t); memcpy(out, t, 16); return 1; }
static int ublk_d(const uint8_t in[16], uint8_t out[16], const void *k) { uint8_t t[16]; ref_dec(k, in, t); memcpy(out, t, 16); return 1; }

static const char *kname(int k) { return k < C_N ? cname[k] : "generic"; }
static ciph *get(int k) { if (k < C_N) return ciph_shared(k); static ciph g; if (!g.e) { uint8_t key[16]; vp_bytes(key, 16, 8); ref_init(&g.r, 0, key, 16); g.kind = k; g.e = g.d = &g.r; } return &g; }
static int enc(ciph *c, const uint8_t *in, size_t n, uint8_t *out, size_t cap, size_t *u, uint8_t *iv)
{ return c->kind < C_N ? ciph_cbc_enc(c, in, n, out, cap, u, iv) : WBCRYPTO_cbc128_encrypt(in, n, out, cap, u, c->e, iv, ublk_e); }
static int dec(ciph *c, const uint8_t *in, size_t n, uint8_t *out, size_t cap, size_t *u, uint8_t *iv)
{ int r; if (c->kind < C_N) return ciph_cbc_dec(c, in, n, out, cap, u, iv);
  r = WBCRYPTO_cbc128_decrypt(in, n, out, cap, u, c->e, iv, ublk_d); if (r) *u = WBCRYPTO_padding_pkcs7_separate_length(out, n); return r; }

/* in-place: encrypt/decrypt with out == in */
static void roundtrip(ciph *c, const uint8_t *m, size_t n, const uint8_t iv0[16], int inplace, size_t extra)
{
    size_t pn = padded(n), u = 0xdead;
    uint8_t iv[16], *want = malloc(pn + 1), *pad = malloc(pn + 1), *back = malloc(pn + 1);
    memcpy(pad, m, n); memset(pad + n, (int)(pn - n), pn - n);
    ref_cbc_enc(&c->r, iv0, pad, pn / 16, want);
    /* encryption */
    vp_buf o = vp_balloc(pn + extra, 0x6b); uint8_t *in = malloc(n ? n : 1); memcpy(in, m, n); memcpy(iv, iv0, 16);
    const uint8_t *src = in;
    if (inplace) { memcpy(o.p, m, n); src = o.p; }
    VP_CHECK(enc(c, src, n, o.p, pn + extra, &u, iv) == 1, "encryption of %zu bytes into %zu failed", n, pn + extra);
    VP_CHECK(u == pn, "encryption of %zu bytes reports %zu bytes, expected %zu", n, u, pn);
    VP_CHECK(!memcmp(o.p, want, pn), "ciphertext of %zu bytes is %s, standard CBC gives %s", n, vp_hex(o.p, pn), vp_hex(want, pn));
    VP_CHECK(vp_bintact(&o) && (inplace || vp_buntouched(&o, pn, 0x6b)), "encryption wrote beyond its result");
    VP_CHECK(inplace || !memcmp(in, m, n), "encryption changed its input");
    vp_step(vp_hash(vp_hash(c->kind * 2 + 1, iv0, 16), want, pn));
    vp_bfree(&o);
    /* decryption */
    if (c->kind != C_WBAES) {
        vp_buf d = vp_balloc(pn + extra, 0x6c); uint8_t *ct = malloc(pn ? pn : 1); memcpy(ct, want, pn); memcpy(iv, iv0, 16);
        const uint8_t *s2 = ct; if (inplace) { memcpy(d.p, want, pn); s2 = d.p; }
        u = 0xdead;
        VP_CHECK(dec(c, s2, pn, d.p, pn + extra, &u, iv) == 1, "decryption of %zu bytes failed", pn);
        VP_CHECK(!memcmp(d.p, m, n), "decryption of the ciphertext of %s returned %s", vp_hex(m, n), vp_hex(d.p, n));
        VP_CHECK(vp_bintact(&d) && (inplace || vp_buntouched(&d, pn, 0x6c)), "decryption wrote beyond its result");
        VP_CHECK(inplace || !memcmp(ct, want, pn), "decryption changed its input");
        if (u != n) {
            uint8_t last = n ? m[n - 1] : 0;
            if (n % 16 == 0 && n && last >= 1 && last <= 16 && u == n - last)
                vp_known("cbc-unpadded-multiple-of-16", "%s CBC decryption of a %zu-byte message whose last byte is %02x reports %zu bytes", kname(c->kind), n, last, u);
            else vp_fail("decryption of a %zu-byte message (last byte %02x) reports %zu bytes", n, last, u);
        }
        vp_step(vp_hash(vp_hash(c->kind * 2 + 2, iv0, 16), m, n));
        free(ct); vp_bfree(&d);
    }
    free(in); free(want); free(pad); free(back);
}

void vp_main(void)
{
    static uint8_t m[70000]; uint8_t iv[16];
    int K = C_N + 1;
    /* lengths x content x in place x capacity slack */
    static const int big[] = {95, 96, 97, 111, 112, 113, 127, 128, 129, 143, 144, 145, 240, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 69999};
    for (int k = 0; k < K; k++)
        for (int li = 0; li < 81 + (int)(sizeof big / sizeof *big); li++) {
            size_t n = li < 81 ? (size_t)li : (size_t)big[li - 81];
            if (n > 5000 && k != C_AES && k != C_SM4 && !vp_thorough) continue;
            for (int ct = 0; ct < VP_T(4, 16); ct++)
                for (int ip = 0; ip < 2; ip++)
                    if (vp_case("%s length %zu content %d %s", kname(k), n, ct, ip ? "in place" : "separate")) {
                        vp_bytes(m, n, ct); if (ct == 1) memset(m, 0, n); if (ct == 2) memset(m, 0xff, n);
                        vp_bytes(iv, 16, 500 + ct); if (ct == 1) memset(iv, 0, 16); if (ct == 2) memset(iv, 0xff, 16);
                        roundtrip(get(k), m, n, iv, ip, ct % 3 == 0 ? 0 : ct % 3 == 1 ? 1 : 37);
                    }
        }
    /* every final byte (padding look-alikes), also runs of it, at lengths around the block border */
    static const int fl[] = {1, 14, 15, 16, 17, 31, 32, 33, 47, 48, 49, 64, 80};
    for (int k = 0; k < K; k++)
        for (unsigned l = 0; l < sizeof fl / sizeof *fl; l++)
            for (int v = 0; v < 256; v++)
                for (int run = 0; run < 3; run++)
                    if (vp_case("%s length %d, final byte %02x, run kind %d", kname(k), fl[l], v, run)) {
                        int n = fl[l], r = run == 0 ? 1 : run == 1 ? v : n;
                        vp_bytes(m, n, 9); for (int i = 0; i < n; i++) if (n - i <= r) m[i] = (uint8_t)v;
                        if (run == 0) m[n - 1] = (uint8_t)v;
                        vp_bytes(iv, 16, v); roundtrip(get(k), m, n, iv, v & 1, 0);
                    }
    /* IV bytes */
    for (int k = 0; k < K; k++)
        for (int p = 0; p < 16; p++)
            for (int b = 0; b < 8; b++)
                if (vp_case("%s iv bit %d of byte %d", kname(k), b, p)) { vp_bytes(m, 37, p); memset(iv, 0, 16); iv[p] = 1 << b; roundtrip(get(k), m, 37, iv, 0, 0); roundtrip(get(k), m, 32, iv, 1, 0); }
    /* call sequences on shared and fresh contexts: results depend on the arguments only */
    int depth = VP_T(4, 6);
    for (int k = 0; k < K; k++) {
        if (k == C_WBAES) continue;
        long tot = 1; for (int i = 0; i < depth; i++) tot *= 5;
        for (long s = 0; s < tot; s++)
            if (vp_case("%s call sequence #%ld (base 5: enc5 enc16 enc-toosmall dec dec-partial)", kname(k), s)) {
                ciph *c = get(k); long t = s;
                for (int i = 0; i < depth; i++, t /= 5) {
                    uint8_t out[64]; size_t u = 77; vp_bytes(m, 40, i); vp_bytes(iv, 16, i);
                    switch (t % 5) {
                    case 0: roundtrip(c, m, 5 + i, iv, 0, 0); break;
                    case 1: m[15] = 0x80; roundtrip(c, m, 16, iv, 1, 0); break;
                    case 2: VP_CHECK(enc(c, m, 17, out, 31, &u, iv) == 0, "encryption into too small a buffer did not fail"); break;
                    case 3: m[31] = 0; roundtrip(c, m, 32, iv, 0, 3); break;
                    case 4: VP_CHECK(dec(c, m, 17 + i, out, 64, &u, iv) == 0, "decryption of a partial block did not fail"); break;
                    }
                    vp_step(vp_hash(k, &t, sizeof t));
                }
            }
    }
    /* fresh contexts of every key length */
    for (int k = 0; k < C_N; k++)
        for (int kl = 0; kl <= (k < 2 ? 33 : VP_T(3, 20)); kl++)
            if (vp_case("%s fresh context, key of %d bytes", kname(k), kl)) {
                uint8_t key[40]; vp_bytes(key, 40, kl); vp_seed(kl); ciph c = ciph_new(k, key, k < 2 ? kl : kl * 8);
                for (int n = 0; n < 50; n += 7) { vp_bytes(m, n, kl); if (n) m[n - 1] |= 0x40; vp_bytes(iv, 16, n); roundtrip(&c, m, n, iv, 0, 0); }
            }
}

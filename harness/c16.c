/* C16: capacity contract of every function with an output buffer. */
#include "ciphers.h"
#include "wbg.h"
#include "toy.h"
#include <wbcrypto/sm3.h>
#include <wbcrypto/fpe.h>
#include <wbcrypto/utils.h>
#include <limits.h>

static size_t padded(size_t n) { return n % 16 ? (n / 16 + 1) * 16 : n; }
static int ublk_e(const uint8_t in[16], uint8_t out[16], const void *k) { uint8_t t[16]; ref_enc(k, in, t); memcpy(out, t, 16); return 1; }
static int ublk_d(const uint8_t in[16], uint8_t out[16], const void *k) { uint8_t t[16]; ref_dec(k, in, t); memcpy(out, t, 16); return 1; }
static ref_cipher gen;
enum { K_GEN = C_N, K_N };
static const char *kn(int k) { return k < C_N ? cname[k] : "generic"; }
static int cenc(int k, const uint8_t *in, size_t n, uint8_t *o, size_t cap, size_t *u, uint8_t *iv) { return k < C_N ? ciph_cbc_enc(ciph_shared(k), in, n, o, cap, u, iv) : WBCRYPTO_cbc128_encrypt(in, n, o, cap, u, &gen, iv, ublk_e); }
static int cdec(int k, const uint8_t *in, size_t n, uint8_t *o, size_t cap, size_t *u, uint8_t *iv) { return k < C_N ? ciph_cbc_dec(ciph_shared(k), in, n, o, cap, u, iv) : WBCRYPTO_cbc128_decrypt(in, n, o, cap, u, &gen, iv, ublk_d); }
static const ref_cipher *rf(int k) { return k < C_N ? &ciph_shared(k)->r : &gen; }
static uint8_t *exact(size_t n, uint64_t s) { uint8_t *p = malloc(n); vp_bytes(p, n, s); return p; } /* n bytes and not one more */

/* one CBC call with a buffer of cap bytes; claim: what the caller says the capacity is */
static void cbc(int k, size_t n, size_t cap, int dec, size_t ioff)
{
    size_t need = dec ? n : padded(n), u = 0xabcdef; uint8_t *raw = exact(n + ioff, n), *in = raw + ioff, *keep = malloc(n + 1), iv[16], *want = malloc(need + 1);
    vp_bytes(iv, 16, 3); memcpy(keep, in, n);
    vp_buf o = vp_balloc(cap, 0x3c);
    if (dec) { if (n % 16 == 0) ref_cbc_dec(rf(k), iv, in, n / 16, want); }
    else { uint8_t *p = malloc(need + 1); memcpy(p, in, n); memset(p + n, (int)(need - n), need - n); ref_cbc_enc(rf(k), iv, p, need / 16, want); free(p); }
    int r = dec ? cdec(k, in, n, o.p, cap, &u, iv) : cenc(k, in, n, o.p, cap, &u, iv);
    VP_CHECK(vp_bintact(&o), "%s CBC %s of %zu bytes wrote outside a buffer of %zu bytes", kn(k), dec ? "decryption" : "encryption", n, cap);
    VP_CHECK(!memcmp(in, keep, n), "input changed");
    if (!dec || n % 16 == 0) {
        if (cap < need && !dec) VP_CHECK(r != 1, "%s CBC encryption of %zu bytes into %zu bytes was not refused", kn(k), n, cap);
        if (cap >= need) VP_CHECK(r == 1, "%s CBC %s of %zu bytes into %zu bytes was refused", kn(k), dec ? "decryption" : "encryption", n, cap);
        if (r == 1) {
            if (!dec) VP_CHECK(u == need, "%s CBC encryption of %zu bytes reports %zu bytes", kn(k), n, u);
            else if (k < C_N) VP_CHECK(u <= n && n - u <= 16, "%s CBC decryption of %zu bytes reports %zu bytes", kn(k), n, u);
            size_t have = need < cap ? need : cap;
            VP_CHECK(!memcmp(o.p, want, dec && cap < need ? u : have), "%s CBC %s of %zu bytes into %zu bytes gives a wrong result", kn(k), dec ? "decryption" : "encryption", n, cap);
            VP_CHECK(vp_buntouched(&o, have, 0x3c), "%s CBC %s of %zu bytes wrote beyond its result", kn(k), dec ? "decryption" : "encryption", n);
        }
    } else VP_CHECK(r != 1, "%s CBC decryption of %zu bytes, not a multiple of 16, was not refused", kn(k), n);
    vp_step(vp_mix(k * 2 + dec) ^ (n << 20) ^ cap << 2 ^ (r == 1)); vp_outcome(vp_mix(k) ^ (r == 1));
    vp_bfree(&o); free(raw); free(keep); free(want);
}
/* GCM families: 0.. the generic context over toy/ciphers, then parallel, then the white-box variants */
typedef struct { int fam, k; void *g[2]; ref_gcm_t m; uint8_t L[16][256], I[16][256]; } gx;
enum { F_GCM, F_PAR, F_EE, F_MASK };
static toy_t T;
static void g_open(gx *x, int fam, int k)
{
    x->fam = fam; x->k = k;
    for (int s = 0; s < 2; s++) {
        if (fam <= F_PAR) x->g[s] = k < C_N ? ciph_gcm(ciph_shared(k)) : WBCRYPTO_gcm_init(&T, toy_block);
        else x->g[s] = wbg_new(wbg_shared(fam - F_EE), s);
        VP_CHECK(x->g[s], "context could not be created");
    }
}
static void g_close(gx *x) { for (int s = 0; s < 2; s++) if (x->fam <= F_PAR) free(x->g[s]); else wbg_free(x->fam - F_EE, x->g[s]); }
static void g_iv(gx *x, int s) { uint8_t iv[12]; vp_bytes(iv, 12, 6); if (x->fam <= F_PAR) WBCRYPTO_gcm_setiv(x->g[s], iv, 12); else wbg_setiv(x->fam - F_EE, x->g[s], iv, 12); }
static int g_crypt(gx *x, int s, const uint8_t *in, size_t n, uint8_t *o, size_t cap)
{
    switch (x->fam) {
    case F_GCM: return s ? WBCRYPTO_gcm_decrypt(x->g[s], in, n, o, cap) : WBCRYPTO_gcm_encrypt(x->g[s], in, n, o, cap);
    case F_PAR: return s ? WBCRYPTO_gcm_parallel_decrypt(x->g[s], in, n, o, cap) : WBCRYPTO_gcm_parallel_encrypt(x->g[s], in, n, o, cap);
    default: return s ? wbg_dec(x->fam - F_EE, x->g[s], in, n, o, cap) : wbg_enc(x->fam - F_EE, x->g[s], in, n, o, cap);
    }
}
static int g_tag(gx *x, int s, uint8_t *t, size_t n) { return x->fam <= F_PAR ? WBCRYPTO_gcm_finish(x->g[s], t, n) : wbg_fin(x->fam - F_EE, x->g[s], t, n); }
static const char *fam_name(int f) { static const char *const q[] = {"GCM", "parallel GCM", "wbgcm-ee", "wbgcm-mask"}; return q[f]; }
/* the result of a generous call on the same input is the oracle; refused calls in between change nothing */
static void gcm(gx *x, int s, size_t n, size_t cap, size_t ioff)
{
    uint8_t *raw = exact(n + ioff, n * 3), *in = raw + ioff, *want = malloc(n + 32), wt[16], t[16];
    memset(want, 0x77, n + 32); g_iv(x, s); VP_CHECK(g_crypt(x, s, in, n, want, n + 32) == 1, "%s of %zu bytes into %zu bytes was refused", fam_name(x->fam), n, n + 32);
    for (size_t i = n; i < n + 32; i++) VP_CHECK(want[i] == 0x77, "%s of %zu bytes wrote beyond its result", fam_name(x->fam), n);
    VP_CHECK(g_tag(x, s, wt, 16) == 1, "finish failed");
    g_iv(x, s); vp_buf o = vp_balloc(cap, 0x2b);
    int r = g_crypt(x, s, in, n, o.p, cap);
    VP_CHECK(vp_bintact(&o), "%s of %zu bytes wrote outside a buffer of %zu bytes", fam_name(x->fam), n, cap);
    if (cap < n) {
        VP_CHECK(r != 1, "%s of %zu bytes into %zu bytes was not refused", fam_name(x->fam), n, cap);
        vp_bfree(&o); o = vp_balloc(n, 0x2b); r = g_crypt(x, s, in, n, o.p, n);
        VP_CHECK(vp_bintact(&o), "%s of %zu bytes wrote outside an exact buffer", fam_name(x->fam), n);
    }
    VP_CHECK(r == 1 && !memcmp(o.p, want, n), "%s of %zu bytes into %zu bytes differs from the same call with more room", fam_name(x->fam), n, cap);
    VP_CHECK(vp_buntouched(&o, n, 0x2b), "%s of %zu bytes wrote beyond its result", fam_name(x->fam), n);
    VP_CHECK(g_tag(x, s, t, 16) == 1 && !memcmp(t, wt, 16), "%s of %zu bytes into %zu bytes: tag differs from the same call with more room", fam_name(x->fam), n, cap);
    vp_step(vp_mix(x->fam * 10 + x->k + s * 100) ^ n << 20 ^ cap); vp_outcome(vp_hash(0, wt, 16));
    vp_bfree(&o); free(raw); free(want);
}
void vp_main(void)
{
    uint8_t key[16]; vp_bytes(key, 16, 8); ref_init(&gen, 0, key, 16); toy_init(&T, 1);
    /* CBC: all pairs of length and capacity */
    for (int k = 0; k < K_N; k++) for (int dec = 0; dec < 2; dec++) {
        if (dec && k == C_WBAES) continue;
        for (size_t n = 0; n <= (size_t)VP_T(100, 200); n++)
            if (vp_case("%s CBC %s of %zu bytes, every capacity", kn(k), dec ? "decryption" : "encryption", n)) for (size_t cap = 0; cap <= n + 34; cap++) for (size_t off = 0; off < 16; off += k == K_GEN ? 1 : 5) cbc(k, n, cap, dec, off);
        /* claimed lengths far beyond the buffer are refused without touching anything */
        if (vp_case("%s CBC %s with huge lengths and small buffers", kn(k), dec ? "decryption" : "encryption")) {
            static const size_t base[] = {(size_t)1 << 31, (size_t)1 << 32, (size_t)1 << 33, (size_t)1 << 48, (size_t)1 << 63, 0};
            for (int b = 0; b < 6; b++) for (long d = -40; d <= 40; d++) for (size_t cap = 0; cap <= 64; cap += 16) {
                size_t n = base[b] + d; if (b == 5 && d >= 0) continue;
                uint8_t *in = exact(64, 1), iv[16] = {0}; size_t u = 0; vp_buf o = vp_balloc(cap, 9);
                int r = dec ? cdec(k, in, n, o.p, cap, &u, iv) : cenc(k, in, n, o.p, cap, &u, iv);
                VP_CHECK(r != 1, "a claimed length of %zu bytes was accepted for a buffer of %zu bytes", n, cap); VP_CHECK(vp_bintact(&o), "wrote outside the buffer"); vp_step(n ^ cap); vp_bfree(&o); free(in);
            }
        }
    }
    /* GCM, parallel GCM, white-box variants */
    for (int fam = 0; fam < 4; fam++) for (int k = 0; k < (fam <= F_PAR ? K_N : 1); k++) for (int s = 0; s < 2; s++) {
        for (size_t n = 0; n <= (size_t)VP_T(70, 140); n++)
            if (vp_case("%s %s %s of %zu bytes, every capacity", fam_name(fam), fam <= F_PAR ? kn(k) : "", s ? "decryption" : "encryption", n)) { gx x; g_open(&x, fam, k); for (size_t cap = 0; cap <= n + 20; cap++) for (size_t off = 0; off < 16; off += k == K_GEN && fam == F_GCM ? 1 : 7) gcm(&x, s, n, cap, off); g_close(&x); }
        if (vp_case("%s %s %s with huge lengths and small buffers", fam_name(fam), fam <= F_PAR ? kn(k) : "", s ? "decryption" : "encryption")) {
            static const size_t base[] = {(size_t)1 << 31, (size_t)1 << 32, (size_t)1 << 33, (size_t)1 << 63, 0};
            gx x; g_open(&x, fam, k);
            for (int b = 0; b < 5; b++) for (long d = -20; d <= 20; d++) for (size_t cap = 0; cap <= 64; cap += 16) {
                size_t n = base[b] + d; if (b == 4 && d >= 0) continue;
                uint8_t *in = exact(64, 1); vp_buf o = vp_balloc(cap, 9); g_iv(&x, s); int r = g_crypt(&x, s, in, n, o.p, cap);
                VP_CHECK(r != 1, "a claimed length of %zu bytes was accepted for a buffer of %zu bytes", n, cap); VP_CHECK(vp_bintact(&o), "wrote outside the buffer"); vp_step(n ^ cap); vp_bfree(&o); free(in);
            }
            gcm(&x, s, 20, 20, 0); g_close(&x);
        }
        /* tags: exactly the length asked for; longer than a tag is refused */
        if (vp_case("%s %s %s: tags of every length", fam_name(fam), fam <= F_PAR ? kn(k) : "", s ? "decryption" : "encryption")) {
            gx x; g_open(&x, fam, k); uint8_t full[16], o[64], in[64]; vp_bytes(in, 64, 4);
            for (size_t n = 0; n < 40; n += 13) { g_iv(&x, s); g_crypt(&x, s, in, n, o, n); g_tag(&x, s, full, 16);
                for (size_t tl = 0; tl < 64; tl++) { g_iv(&x, s); g_crypt(&x, s, in, n, o, n); vp_buf t = vp_balloc(tl <= 16 ? tl : 16, 0x15); int r = g_tag(&x, s, t.p, tl); VP_CHECK(vp_bintact(&t), "a tag of %zu bytes wrote outside its buffer", tl);
                    if (tl <= 16) VP_CHECK(r == 1 && !memcmp(t.p, full, tl), "a tag of %zu bytes is not the start of the full tag", tl); else VP_CHECK(r != 1, "a tag of %zu bytes was accepted", tl); vp_step(tl * 100 + n); vp_bfree(&t); } }
            static const size_t hl[] = {(size_t)1 << 31, (size_t)1 << 32, ((size_t)1 << 32) + 16, SIZE_MAX};
            for (int i = 0; i < 4; i++) { vp_buf t = vp_balloc(16, 1); g_iv(&x, s); VP_CHECK(g_tag(&x, s, t.p, hl[i]) != 1, "a tag of %zu bytes was accepted", hl[i]); VP_CHECK(vp_bintact(&t), "tag wrote outside its buffer"); vp_bfree(&t); }
            g_close(&x);
        }
    }
    /* padding helpers */
    for (size_t n = 0; n <= (size_t)VP_T(600, 2400); n++)
        if (vp_case("padding of %zu bytes", n)) {
            for (int off = 0; off < 3; off++) for (int v = 0; v < 256; v++) {
                uint8_t *raw = exact(n + off, n), *in = raw + off; if (n) in[n - 1] = (uint8_t)v; else if (v) { free(raw); break; }
                size_t pn = padded(n); uint8_t *keep = malloc(n + 1); memcpy(keep, in, n);
                if (v < 2) {
                    VP_CHECK(WBCRYPTO_padding_pkcs7_merge_length(in, n) == pn, "merge_length of %zu", n);
                    vp_buf o = vp_balloc(pn, 0x99); size_t r = WBCRYPTO_padding_pkcs7_merge(in, n, o.p);
                    VP_CHECK(r == pn && vp_bintact(&o) && !memcmp(o.p, keep, n), "merge of %zu bytes returns %zu or writes outside", n, r);
                    for (size_t i = n; i < pn; i++) VP_CHECK(o.p[i] == pn - n, "merge of %zu bytes: padding byte %zu is %d", n, i, o.p[i]);
                    vp_bfree(&o); o = vp_balloc(pn + 20, 0x99); WBCRYPTO_padding_pkcs7_merge(in, n, o.p); VP_CHECK(vp_buntouched(&o, pn, 0x99), "merge of %zu bytes writes beyond what it reports", n); vp_bfree(&o);
                }
                size_t w = n && v <= 16 && (size_t)v <= n ? n - v : n;
                VP_CHECK(WBCRYPTO_padding_pkcs7_separate_length(in, n) == w, "separate_length of %zu bytes ending %02x is %zu", n, v, WBCRYPTO_padding_pkcs7_separate_length(in, n));
                vp_buf o = vp_balloc(w, 0x98); size_t r = WBCRYPTO_padding_pkcs7_separate(in, n, o.p); VP_CHECK(r == w && vp_bintact(&o) && !memcmp(o.p, keep, w), "separate of %zu bytes ending %02x returns %zu or writes outside", n, v, r); vp_bfree(&o);
                VP_CHECK(!memcmp(in, keep, n), "input changed"); vp_step(n * 256 + v); free(keep); free(raw);
            }
            for (int z = 0; z < 2; z++) { uint8_t *in = exact(n, n + 5); vp_buf o = vp_balloc(16, 0x97); size_t r = z ? WBCRYPTO_key_padding_zeros(in, n, o.p) : WBCRYPTO_key_padding_pkcs7(in, n, o.p); VP_CHECK(r == 16 && vp_bintact(&o), "key padding of %zu bytes returns %zu or writes outside", n, r);
                for (size_t i = 0; i < 16; i++) VP_CHECK(o.p[i] == (i < n ? in[i] : z ? 0 : 16 - n), "key padding of %zu bytes: byte %zu is %02x", n, i, o.p[i]); vp_bfree(&o); free(in); }
        }
    if (vp_case("padded length of every length around powers of two")) for (int b = 4; b < 60; b++) for (long d = -40; d <= 40; d++) { size_t n = ((size_t)1 << b) + d; if ((long)n < 0) continue; VP_CHECK(WBCRYPTO_padding_pkcs7_merge_length((unsigned char *)"", n) == padded(n), "padded length of %zu is %zu", n, WBCRYPTO_padding_pkcs7_merge_length((unsigned char *)"", n)); vp_step(n); }
    /* digests and FPE tags and texts */
    for (size_t n = 0; n <= 200; n++)
        if (vp_case("digest of %zu bytes", n)) for (int off = 0; off < 8; off++) {
            uint8_t *raw = exact(n + off, n), w[32]; ref_sm3(raw + off, n, w); vp_buf o = vp_balloc(32, 0x44); WBCRYPTO_sm3(raw + off, n, o.p); VP_CHECK(vp_bintact(&o) && !memcmp(o.p, w, 32), "sm3 of %zu bytes", n); vp_bfree(&o);
            o = vp_balloc(48, 0x44); WBCRYPTO_sm3(raw + off, n, o.p); VP_CHECK(vp_buntouched(&o, 32, 0x44), "sm3 of %zu bytes writes more than 32 bytes", n); vp_step(vp_hash(n, w, 32)); vp_bfree(&o); free(raw);
        }
    for (int alg = 0; alg < 4; alg++) for (size_t n = 2; n <= (size_t)VP_T(100, 300); n++)
        if (vp_case("FPE algorithm %d, text of %zu characters", alg, n)) for (int radix = 2; radix <= 36; radix += 1) for (int off = 0; off < 4; off++) {
            uint8_t tw[8]; vp_bytes(tw, 8, 1); char *raw = malloc(n + 1 + off), *in = raw + off; for (size_t i = 0; i < n; i++) in[i] = "0123456789abcdefghijklmnopqrstuvwxyz"[vp_mix(i + n * 7) % radix]; in[n] = 0;
            ciph *c = ciph_shared(C_AES); vp_buf o = vp_balloc(n + 1, 0x31), b = vp_balloc(n + 1, 0x32); int r, r2;
            if (alg < 2) { WBCRYPTO_fpe_context *x = ciph_fpe(c, tw, 8, radix); VP_CHECK(x, "context could not be created"); r = alg ? WBCRYPTO_ff3_encrypt(x, in, (char *)o.p) : WBCRYPTO_ff1_encrypt(x, in, (char *)o.p); r2 = r == 1 ? (alg ? WBCRYPTO_ff3_decrypt(x, (char *)o.p, (char *)b.p) : WBCRYPTO_ff1_decrypt(x, (char *)o.p, (char *)b.p)) : 0; WBCRYPTO_fpe_free(x); }
            else { WBCRYPTO_fpe_mac_context *x = ciph_fpe_mac(c, tw, 8, radix); VP_CHECK(x, "context could not be created"); r = alg == 3 ? WBCRYPTO_ff3_gmac_encrypt(x, in, (char *)o.p) : WBCRYPTO_ff1_cmac_encrypt(x, in, (char *)o.p);
                size_t tl = 0; vp_buf t = vp_balloc(16, 0x33); VP_CHECK((alg == 3 ? WBCRYPTO_ff3_gmac_finish(x, (char *)t.p, &tl) : WBCRYPTO_ff1_cmac_finish(x, (char *)t.p, &tl)) == 1 && tl == 16 && vp_bintact(&t), "FPE tag writes outside or reports %zu bytes", tl); vp_bfree(&t);
                t = vp_balloc(40, 0x33); if (alg == 3) WBCRYPTO_ff3_gmac_finish(x, (char *)t.p, &tl); else WBCRYPTO_ff1_cmac_finish(x, (char *)t.p, &tl); VP_CHECK(vp_buntouched(&t, tl, 0x33), "FPE tag writes more than it reports"); vp_bfree(&t);
                r2 = r == 1 ? (alg == 3 ? WBCRYPTO_ff3_gmac_decrypt(x, (char *)o.p, (char *)b.p) : WBCRYPTO_ff1_cmac_decrypt(x, (char *)o.p, (char *)b.p)) : 0; WBCRYPTO_fpe_mac_free(x); }
            VP_CHECK(vp_bintact(&o) && vp_bintact(&b), "FPE of %zu characters writes outside the text and its terminator", n);
            if (r == 1) VP_CHECK(o.p[n] == 0 && strlen((char *)o.p) == n, "FPE of %zu characters gives %zu", n, strlen((char *)o.p));
            if (r == 1 && r2 == 1) VP_CHECK(b.p[n] == 0 && strlen((char *)b.p) == n, "FPE decryption of %zu characters gives %zu", n, strlen((char *)b.p));
            vp_step(vp_hash(alg * 100 + radix, o.p, n)); vp_bfree(&o); vp_bfree(&b); free(raw);
        }
}

/* C06: encrypted files round-trip and any modification is rejected. */
#include "files.h"
#define MAXF (1 << 21)
static uint8_t plain[MAXF], enc[MAXF + 64], want[MAXF + 64], got[MAXF + 64], tmp[MAXF + 64];
typedef struct { const uint8_t *iv; size_t ivl; const uint8_t *aad; size_t al; } par;
static uint8_t pb[256];

static void begin(fctx *f, int dec, const par *p)
{
    VP_CHECK(f_iv(f, dec, p->iv, p->ivl) == 1, "setiv failed");
    if (p->al) VP_CHECK(f_aad(f, dec, p->aad, p->al) == 1, "aad failed");
}
/* encrypts plain[0..n) to "e"; checks layout; returns total length, content in enc */
static size_t encrypt(fctx *f, const par *p, size_t n)
{
    put("p", plain, n); begin(f, 0, p);
    VP_CHECK(f_enc(f, "p", "e") == 1, "encryption of a %zu-byte file failed", n);
    long l = get("e", enc, sizeof enc);
    VP_CHECK(l == (long)n + 24, "encrypted file of a %zu-byte file has %ld bytes", n, l);
    for (int i = 0; i < 8; i++) VP_CHECK(enc[16 + i] == (uint8_t)((uint64_t)n >> 8 * i), "size field is wrong for %zu bytes", n);
    VP_CHECK(get("p", tmp, sizeof tmp) == (long)n && !memcmp(tmp, plain, n), "encryption changed the input file");
    if (f->r) {
        uint8_t tag[16]; ref_gcm(f->r, p->iv, p->ivl, p->aad, p->al, plain, n, want, tag, 0);
        VP_CHECK(!memcmp(enc + 24, want, n), "ciphertext of a %zu-byte file is not standard GCM", n);
        VP_CHECK(!memcmp(enc, tag, 16), "tag of a %zu-byte file is %s, standard GCM gives %s", n, vp_hex(enc, 16), vp_hex(tag, 16));
    }
    vp_step(vp_hash(f->kind, enc, 24));
    return n + 24;
}
/* decrypts file x[0..l); ok: must give plain[0..n); else must be refused and leave nothing */
static void decrypt(fctx *f, const par *p, const uint8_t *x, size_t l, int ok, size_t n, const char *what, int prev)
{
    if (x) put("x", x, l); else unlink("x");
    static const uint8_t old[] = "previous content of the output file that is longer than some of the plaintexts used here .........................................................................................................................................";
    if (prev) put("o", old, sizeof old); else unlink("o");
    int before = ndir();
    begin(f, 1, p);
    int r = f_dec(f, "x", "o");
    if (ok) {
        VP_CHECK(r == 1, "%s: decryption of an intact file of %zu bytes failed", what, n);
        long g = get("o", got, sizeof got);
        VP_CHECK(g == (long)n && !memcmp(got, plain, n), "%s: decryption restored %ld bytes instead of the %zu-byte file", what, g, n);
    } else {
        VP_CHECK(r == 0, "%s: decryption of a modified file reports success", what);
        long g = get("o", got, sizeof got);
        VP_CHECK(g <= 0 || (prev && g == (long)sizeof old && !memcmp(got, old, g)), "%s: refused decryption leaves %ld bytes of output", what, g);
        if (x) VP_CHECK(ndir() <= before, "%s: refused decryption leaves an extra file", what);
    }
    if (x) VP_CHECK(get("x", tmp, sizeof tmp) == (long)l && !memcmp(tmp, x, l), "%s: decryption changed its input file", what);
    vp_step(vp_hash(vp_hash(ok * 2 + prev, x ? x : enc, x ? (l < 200 ? l : 200) : 0), what, strlen(what)));
}

void vp_main(void)
{
    f_setup(); vp_bytes(plain, sizeof plain, 1); vp_bytes(pb, sizeof pb, 2);
    par P = {pb, 12, pb + 40, 20};
    static uint8_t mod[MAXF + 256];
    /* every length around the chunk borders, and larger */
    static const int big[] = {639, 640, 641, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 10000, 65535, 65536, 65537, 100001, 1048577};
    for (int k = 0; k < F_N; k++)
        for (int li = 0; li <= 400 + 20; li++) {
            size_t n = li <= 400 ? (size_t)li : (size_t)big[li - 401];
            if (k > F_AES && n > 70 && !vp_thorough && !(n % 128 <= 1 || n % 128 == 127 || n % 50 == 0)) continue;
            if (n > 20000 && k >= F_SM4 && !vp_thorough) continue;
            if (vp_case("%s file of %zu bytes", fname_[k], n)) {
                cleandir(); fctx f = f_new(k, 0); par q = P;
                if (n % 3 == 1) q.al = 0; if (n % 4 == 3) q.ivl = 7; if (n % 16 == 5) q.ivl = 33;
                if (n % 10 == 9) memset(plain, 0, n); else vp_bytes(plain, n, n);
                size_t l = encrypt(&f, &q, n); memcpy(mod, enc, l); decrypt(&f, &q, mod, l, 1, n, "round trip", n & 1);
                /* a second time on the same contexts */
                l = encrypt(&f, &q, n / 2); memcpy(mod, enc, l); decrypt(&f, &q, mod, l, 1, n / 2, "second round trip", 1); f_free(&f);
            }
        }
    /* modifications */
    static const int tl[] = {0, 1, 5, 15, 16, 17, 100, 127, 128, 129, 255, 256, 257, 300, 384};
    for (int k = 0; k < F_N; k++)
        for (unsigned t = 0; t < sizeof tl / sizeof *tl; t++) {
            size_t n = tl[t]; int full = k <= F_AES || vp_thorough;
            /* one byte */
            for (int part = 0; part < 4; part++)
                if (vp_case("%s file of %zu bytes, one byte altered (part %d)", fname_[k], n, part)) {
                    cleandir(); vp_bytes(plain, n, n + 3); fctx f = f_new(k, 0); size_t l = encrypt(&f, &P, n); static uint8_t e0[600]; memcpy(e0, enc, l);
                    for (size_t i = part; i < l; i += 4)
                        for (int b = 0; b < 10; b++) {
                            if (!full && b != (int)(i % 8) && b != 8) continue;
                            memcpy(mod, e0, l); mod[i] ^= b < 8 ? 1 << b : b == 8 ? 0xff : 0x55; char w[64]; sprintf(w, "byte %zu xor %02x", i, mod[i] ^ e0[i]);
                            decrypt(&f, &P, mod, l, 0, n, w, (i + b) & 1);
                        }
                    memcpy(mod, e0, l); decrypt(&f, &P, mod, l, 1, n, "the unmodified file afterwards", 0); f_free(&f);
                }
            /* truncation and extension, with and without an adjusted size field */
            if (vp_case("%s file of %zu bytes, truncated or extended", fname_[k], n)) {
                cleandir(); vp_bytes(plain, n, n + 4); fctx f = f_new(k, 0); size_t l = encrypt(&f, &P, n); static uint8_t e0[700]; memcpy(e0, enc, l);
                for (size_t c = 0; c < l; c++)
                    for (int adj = 0; adj < 2; adj++) {
                        memcpy(mod, e0, l); if (adj) { if (c < 24) continue; uint64_t s = c - 24; memcpy(mod + 16, &s, 8); }
                        char w[64]; sprintf(w, "truncated to %zu bytes%s", c, adj ? " with matching size field" : ""); decrypt(&f, &P, mod, c, 0, n, w, c & 1);
                    }
                for (int x = 1; x <= 160; x += (x < 20 ? 1 : 7))
                    for (int adj = 0; adj < 4; adj++) {
                        memcpy(mod, e0, l); if (adj & 2) memset(mod + l, 0, x); else vp_bytes(mod + l, x, x); if (adj & 1) { uint64_t s = n + x; memcpy(mod + 16, &s, 8); }
                        char w[64]; sprintf(w, "extended by %d bytes%s", x, adj & 1 ? " with matching size field" : ""); decrypt(&f, &P, mod, l + x, 0, n, w, x & 1);
                    }
                decrypt(&f, &P, NULL, 0, 0, n, "missing file", 1);
                f_free(&f);
            }
            /* wrong parameters */
            if (vp_case("%s file of %zu bytes, wrong IV, associated data or key", fname_[k], n)) {
                cleandir(); vp_bytes(plain, n, n + 5); fctx f = f_new(k, 0), o = f_new(k, 1); size_t l = encrypt(&f, &P, n); memcpy(mod, enc, l); uint8_t q[256]; char w[64]; par p;
                for (int i = 0; i < 12; i++) for (int b = 0; b < 8; b += full ? 1 : 3) { memcpy(q, pb, 256); q[i] ^= 1 << b; p = P; p.iv = q; sprintf(w, "IV byte %d bit %d", i, b); decrypt(&f, &p, mod, l, 0, n, w, 0); }
                for (int i = 0; i < 20; i++) for (int b = 0; b < 8; b += full ? 1 : 3) { memcpy(q, pb, 256); q[40 + i] ^= 1 << b; p = P; p.aad = q + 40; sprintf(w, "AAD byte %d bit %d", i, b); decrypt(&f, &p, mod, l, 0, n, w, 0); }
                for (int a = 0; a < 30; a++) if (a != 20) { p = P; p.al = a; sprintf(w, "AAD of %d instead of 20 bytes", a); decrypt(&f, &p, mod, l, 0, n, w, 1); }
                for (int a = 0; a < 30; a++) if (a != 12) { p = P; p.ivl = a; sprintf(w, "IV of %d instead of 12 bytes", a); decrypt(&f, &p, mod, l, 0, n, w, 1); }
                decrypt(&o, &P, mod, l, 0, n, "another key", 0);
                decrypt(&f, &P, mod, l, 1, n, "right parameters afterwards", 0); f_free(&f); f_free(&o);
            }
            /* rearranged blocks, other file's parts */
            if (n >= 32 && vp_case("%s file of %zu bytes, blocks exchanged, tag or body of another file", fname_[k], n)) {
                cleandir(); vp_bytes(plain, n, n + 6); fctx f = f_new(k, 0); size_t l = encrypt(&f, &P, n); static uint8_t e0[700], e1[700]; memcpy(e0, enc, l);
                par p2 = P; p2.iv = pb + 100; encrypt(&f, &p2, n); memcpy(e1, enc, l); char w[64];
                for (size_t a = 0; a + 16 <= n; a += 16) for (size_t b = a + 16; b + 16 <= n; b += 16) { memcpy(mod, e0, l); memcpy(mod + 24 + a, e0 + 24 + b, 16); memcpy(mod + 24 + b, e0 + 24 + a, 16); sprintf(w, "blocks at %zu and %zu exchanged", a, b); decrypt(&f, &P, mod, l, 0, n, w, 0); }
                for (size_t a = 0; a < l; a += 8) { memcpy(mod, e0, l); memcpy(mod + a, e1 + a, l - a); if (memcmp(mod, e0, l) == 0) continue; sprintf(w, "tail from %zu of another file", a); decrypt(&f, &P, mod, l, a ? 0 : 0, n, w, 0); }
                memcpy(mod, e0, l); memset(mod, 0, 16); decrypt(&f, &P, mod, l, 0, n, "zero tag", 0);
                memset(mod, 0xff, 16); decrypt(&f, &P, mod, l, 0, n, "all-ones tag", 0); f_free(&f);
            }
        }
    /* header-only and tiny inputs: every length 0..23 of zeros/ones, and size fields that claim enormous files */
    for (int k = 0; k < F_N; k++)
        if (vp_case("%s degenerate encrypted files", fname_[k])) {
            cleandir(); fctx f = f_new(k, 0); char w[64];
            for (int l = 0; l < 64; l++) for (int v = 0; v < 3; v++) { memset(mod, v == 0 ? 0 : 0xff, 64); if (v == 2) vp_bytes(mod, 64, l); sprintf(w, "%d arbitrary bytes kind %d", l, v); decrypt(&f, &P, mod, l, 0, 0, w, l & 1); }
            vp_bytes(plain, 100, 8); size_t l = encrypt(&f, &P, 100); static uint8_t e0[200]; memcpy(e0, enc, l);
            for (int b = 0; b < 64; b++) { memcpy(mod, e0, l); mod[16 + b / 8] ^= 1 << b % 8; sprintf(w, "size bit %d", b); decrypt(&f, &P, mod, l, 0, 100, w, 0); }
            f_free(&f);
        }
    /* histories on one pair of contexts */
    int depth = VP_T(4, 5);
    for (int k = 0; k < F_N; k++) {
        int dep = k == F_TOY ? depth + 1 : k == F_AES ? depth : 3;
        long tot = 1; for (int i = 0; i < dep; i++) tot *= 7;
        for (long s = 0; s < tot; s++)
            if (vp_case("%s history #%ld (base 7: encrypt-A encrypt-B decrypt decrypt-altered decrypt-missing decrypt-truncated unwritable-output)", fname_[k], s)) {
                cleandir(); fctx f = f_new(k, 0); long t = s; size_t n = 130, l; static uint8_t cur[600]; vp_bytes(plain, n, 1); l = encrypt(&f, &P, n); memcpy(cur, enc, l); char w[40];
                for (int i = 0; i < dep; i++, t /= 7) {
                    sprintf(w, "step %d", i);
                    switch (t % 7) {
                    case 0: n = 20 + i; vp_bytes(plain, n, i); l = encrypt(&f, &P, n); memcpy(cur, enc, l); break;
                    case 1: n = 256; vp_bytes(plain, n, i + 50); l = encrypt(&f, &P, n); memcpy(cur, enc, l); break;
                    case 2: decrypt(&f, &P, cur, l, 1, n, w, i & 1); break;
                    case 3: memcpy(mod, cur, l); mod[24 + i] ^= 4; decrypt(&f, &P, mod, l, 0, n, w, i & 1); break;
                    case 4: decrypt(&f, &P, NULL, 0, 0, n, w, 0); break;
                    case 5: decrypt(&f, &P, cur, l - 1 - i, 0, n, w, 1); break;
                    case 6: put("x", cur, l); begin(&f, 1, &P); VP_CHECK(f_dec(&f, "x", "no-such-dir/o") == 0, "decryption into a missing directory reports success");
                            put("p", plain, n); begin(&f, 0, &P); VP_CHECK(f_enc(&f, "p", "no-such-dir/e") == 0, "encryption into a missing directory reports success"); VP_CHECK(f_enc(&f, "missing", "e2") == 0, "encryption of a missing file reports success"); vp_step(s); break;
                    }
                }
                decrypt(&f, &P, cur, l, 1, n, "after the history", 0); f_free(&f);
            }
    }
}

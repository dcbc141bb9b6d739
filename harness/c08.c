/* C08: FF1 and FF3 are the standard's bijections. */
#include "fpe.h"
#include <math.h>
#define LONGEST 20100

/* encrypts and decrypts one text with every check; the ciphertext in out */
static void one(int ff, int k, int which, WBCRYPTO_fpe_context *c, const uint8_t *tw, size_t twl, unsigned radix, const char *in, char *out)
{
    size_t n = strlen(in); static char want[LONGEST];
    vp_buf o = vp_balloc(n + 1, 0x21), i = vp_balloc(n + 1, 0x22); memcpy(i.p, in, n + 1);
    VP_CHECK(fcall(ff, 0, c, (char *)i.p, (char *)o.p) == 1, "ff%d encryption of %s failed", ff, in);
    VP_CHECK(vp_bintact(&o) && vp_bintact(&i), "ff%d encryption writes outside its output", ff);
    VP_CHECK(!memcmp(i.p, in, n + 1), "ff%d encryption changed its input", ff);
    VP_CHECK(valid((char *)o.p, n, radix), "ff%d encryption of %s (radix %u) gives %.*s", ff, in, radix, (int)n + 1, (char *)o.p);
    if (inrange(ff, radix, n)) { rref(ff, kref(k, which), tw, twl, radix, in, want, 0); VP_CHECK(!memcmp(want, o.p, n + 1), "ff%d (radix %u, tweak %s) of %s is %s, expected %s", ff, radix, vp_hex(tw, twl), in, (char *)o.p, want); }
    else vp_note("texts_beyond_the_standard_length", 1);
    memcpy(out, o.p, n + 1);
    VP_CHECK(fcall(ff, 1, c, out, (char *)i.p) == 1, "ff%d decryption failed", ff);
    VP_CHECK(vp_bintact(&i) && !memcmp(i.p, in, n + 1), "ff%d decryption of %s gives %.*s, expected %s", ff, out, (int)n + 1, (char *)i.p, in);
    vp_step(vp_hash(vp_hash(ff * 100 + radix, out, n), tw, twl)); vp_outcome(vp_hash(ff, out, n)); vp_bfree(&o); vp_bfree(&i);
}
void vp_main(void)
{
    static uint8_t tw[80000]; static char in[LONGEST], out[LONGEST]; vp_bytes(tw, sizeof tw, 5);
    long lim = vp_opt ? VP_T(8000, 300000) : VP_T(600, 8000);
    /* complete domains: the map is checked on every text */
    for (int ff = 1; ff <= 3; ff += 2)
        for (unsigned r = 2; r <= 36; r++) {
            long dom = r; 
            for (int n = 2; n <= 24; n++) {
                dom *= r; if (dom > lim) break;
                for (int tl = 0; tl < 4; tl++) {
                    static const int tls[] = {8, 0, 7, 16};
                    if (tl && dom > lim / 4) continue;
                    if (vp_case("complete domain ff%d radix %u length %d (%ld texts) tweak length %d", ff, r, n, dom, tls[tl])) {
                        uint8_t *seen = calloc(dom, 1); WBCRYPTO_fpe_context *c = fnew(K_TOY, tl, tw, tls[tl], r); VP_CHECK(c, "init failed");
                        for (long x = 0; x < dom; x++) {
                            long t = x; for (int i = n - 1; i >= 0; i--) { in[i] = dig(t % r); t /= r; } in[n] = 0;
                            one(ff, K_TOY, tl, c, tw, tls[tl], r, in, out);
                            long y = 0; for (int i = 0; i < n; i++) y = y * r + (out[i] >= 'a' ? out[i] - 'a' + 10 : out[i] - '0');
                            VP_CHECK(!seen[y], "two texts encrypt to %s", out); seen[y] = 1;
                        }
                        vp_note("complete_domain_texts", dom); free(seen); WBCRYPTO_fpe_free(c);
                    }
                }
            }
        }
    /* every radix x length, several texts and tweaks */
    for (int ff = 1; ff <= 3; ff += 2)
        for (unsigned r = 2; r <= 36; r++)
            for (int n = 2; n <= VP_T(130, 300); n++)
                if (vp_case("ff%d radix %u length %d", ff, r, n))
                    for (int tv = 0; tv < 3; tv++) {
                        size_t tl = tv == 0 ? 8 : tv == 1 ? n % 41 : (n * 7 + r) % 33;
                        WBCRYPTO_fpe_context *c = fnew(K_TOY, tv, tw + n, tl, r); VP_CHECK(c, "init failed");
                        for (int s = 0; s < VP_T(6, 40); s++) { ftext(in, n, r, s < 4 ? s : s + 10 * n); one(ff, K_TOY, tv, c, tw + n, tl, r, in, out); }
                        WBCRYPTO_fpe_free(c);
                    }
    /* every tweak length */
    for (int ff = 1; ff <= 3; ff += 2)
        for (int tl = 0; tl <= VP_T(300, 1100); tl++)
            if (vp_case("ff%d tweak length %d", ff, tl)) {
                static const unsigned rs[] = {10, 2, 36, 16, 26, 12};
                for (int ri = 0; ri < 6; ri++) {
                    uint8_t *t = malloc(tl ? tl : 1); memcpy(t, tw + 7, tl);
                    WBCRYPTO_fpe_context *c = fnew(K_TOY, 0, tl ? t : NULL, tl, rs[ri]); VP_CHECK(c, "init failed"); free(t);
                    for (int n = 2; n < 40; n += 3) { ftext(in, n, rs[ri], 100 + n); one(ff, K_TOY, 0, c, tw + 7, tl, rs[ri], in, out); }
                    WBCRYPTO_fpe_free(c);
                }
            }
    static const int bigt[] = {4095, 4096, 32767, 32768, 65535, 65536, 65537, 70000};
    for (int ff = 1; ff <= 3; ff += 2) for (int b = 0; b < 8; b++)
        if (vp_case("ff%d tweak length %d", ff, bigt[b])) { WBCRYPTO_fpe_context *c = fnew(K_TOY, 0, tw, bigt[b], 10); VP_CHECK(c, "init failed"); ftext(in, 18, 10, 50); one(ff, K_TOY, 0, c, tw, bigt[b], 10, in, out); WBCRYPTO_fpe_free(c); }
    /* every bit of a 24-byte tweak */
    for (int ff = 1; ff <= 3; ff += 2) for (int tl = 1; tl <= 24; tl++)
        if (vp_case("ff%d every bit of a %d-byte tweak", ff, tl)) for (int b = 0; b < tl * 8; b++) {
            uint8_t t[24]; memcpy(t, tw, tl); t[b / 8] ^= 1 << b % 8; WBCRYPTO_fpe_context *c = fnew(K_TOY, 0, t, tl, 10); VP_CHECK(c, "init failed");
            for (int n = 2; n < 23; n += 5) { ftext(in, n, 10, 60 + n); one(ff, K_TOY, 0, c, t, tl, 10, in, out); } WBCRYPTO_fpe_free(c);
        }
    /* long texts */
    static const int bign[] = {255, 256, 257, 258, 400, 509, 510, 511, 512, 513, 514, 515, 600, 700, 1023, 1024, 1025, 1500, 2000};
    for (int ff = 1; ff <= 3; ff += 2) for (unsigned b = 0; b < sizeof bign / sizeof *bign; b++)
        if (vp_case("ff%d text of %d characters", ff, bign[b])) { static const unsigned rs[] = {2, 3, 10, 16, 26, 36}; for (int ri = 0; ri < 6; ri++) {
            WBCRYPTO_fpe_context *c = fnew(K_TOY, 1, tw, 11, rs[ri]); VP_CHECK(c, "init failed"); for (int s = 0; s < 5; s++) { ftext(in, bign[b], rs[ri], s < 4 ? s : 77); one(ff, K_TOY, 1, c, tw, 11, rs[ri], in, out); } WBCRYPTO_fpe_free(c); } }
    /* the lengths at which v log2(radix) comes closest to a whole number of bytes, from below and from above */
    for (unsigned r = 2; r <= 36; r++)
        if (vp_case("ff1 radix %u, halves of nearly a whole number of bytes", r)) {
            int lo = 0, hi = 0; long double l = 1, h = 1, bits = log2l(r);
            for (int v = 40; v <= VP_T(2800, 6400); v++) { long double f = fmodl(v * bits / 8, 1); if (f < l) l = f, lo = v; if (1 - f < h) h = 1 - f, hi = v; }
            WBCRYPTO_fpe_context *c = fnew(K_TOY, 1, tw, 11, r); VP_CHECK(c, "init failed");
            for (int s = 0; s < 2; s++) { int n = 2 * (s ? hi : lo); ftext(in, n, r, 78); one(1, K_TOY, 1, c, tw, 11, r, in, out); }
            WBCRYPTO_fpe_free(c);
        }
    /* a round function of more than 256 blocks */
    static const int huge[][2] = {{36, 12664}, {36, 12665}, {36, 12666}, {36, 12700}, {26, 14000}, {10, 20000}};
    if (vp_opt) for (unsigned b = 0; b < sizeof huge / sizeof *huge; b++)
        if (vp_case("ff1 radix %d text of %d characters", huge[b][0], huge[b][1])) { WBCRYPTO_fpe_context *c = fnew(K_TOY, 1, tw, 11, huge[b][0]); VP_CHECK(c, "init failed"); ftext(in, huge[b][1], huge[b][0], 79); one(1, K_TOY, 1, c, tw, 11, huge[b][0], in, out); WBCRYPTO_fpe_free(c); }
    /* the real ciphers */
    for (int k = 0; k < C_N; k++) for (int ff = 1; ff <= 3; ff += 2) for (unsigned r = 2; r <= 36; r++)
        if (vp_case("%s ff%d radix %u", kn(k), ff, r)) {
            for (int tl = 0; tl <= 16; tl += 4) { WBCRYPTO_fpe_context *c = fnew(k, 0, tw, tl, r); VP_CHECK(c, "init failed");
                for (int n = 2; n <= VP_T(24, 60); n += k == C_WBSM4 ? 4 : 1) { ftext(in, n, r, n + tl * 100); one(ff, k, 0, c, tw, tl, r, in, out); } WBCRYPTO_fpe_free(c); }
            /* every value of every character position of an 8-character text */
            WBCRYPTO_fpe_context *c = fnew(k, 0, tw, 8, r); for (int p = 0; p < 8; p += k == C_WBSM4 ? 3 : 1) for (unsigned v = 0; v < r; v++) { ftext(in, 8, r, 9); in[p] = dig(v); one(ff, k, 0, c, tw, 8, r, in, out); } WBCRYPTO_fpe_free(c);
        }
    /* a complete numeric domain for each real cipher */
    for (int k = 0; k < C_N; k++) for (int ff = 1; ff <= 3; ff += 2) for (int n = 2; n <= (k < C_WBAES ? 3 : 2); n++)
        if (vp_case("%s ff%d complete domain of %d decimal digits", kn(k), ff, n)) {
            long dom = n == 2 ? 100 : 1000; uint8_t *seen = calloc(dom, 1); WBCRYPTO_fpe_context *c = fnew(k, 0, tw, 8, 10);
            for (long x = 0; x < dom; x++) { sprintf(in, "%0*ld", n, x); one(ff, k, 0, c, tw, 8, 10, in, out); long y = atol(out); VP_CHECK(!seen[y], "two texts encrypt to %s", out); seen[y] = 1; } free(seen); WBCRYPTO_fpe_free(c);
        }
    /* texts too short are refused */
    for (int ff = 1; ff <= 3; ff += 2) if (vp_case("ff%d short texts", ff)) for (unsigned r = 2; r <= 36; r++) {
        WBCRYPTO_fpe_context *c = fnew(K_TOY, 0, tw, 8, r);
        for (int v = -1; v < (int)r; v++) for (int d = 0; d < 2; d++) { char s[2] = {v < 0 ? 0 : dig(v), 0}; vp_buf o = vp_balloc(strlen(s) + 1, 0x33); VP_CHECK(fcall(ff, d, c, s, (char *)o.p) == 0, "ff%d accepts the text \"%s\"", ff, s); VP_CHECK(vp_bintact(&o), "writes outside its output"); vp_bfree(&o); vp_step(r * 100 + v + 1); }
        WBCRYPTO_fpe_free(c);
    }
}

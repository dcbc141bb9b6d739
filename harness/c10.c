/* C10: the MAC variants give the FF1/FF3 ciphertext, equal tags in both directions, and tags that detect changes. */
#include "fpe.h"
typedef struct { int k, which; unsigned r; const uint8_t *tw; size_t tl; WBCRYPTO_fpe_mac_context *m, *m2; WBCRYPTO_fpe_context *p; } A;
static A open_(int k, int which, const uint8_t *tw, size_t tl, unsigned r) { A a = {k, which, r, tw, tl, fmnew(k, which, tw, tl, r), fmnew(k, which, tw, tl, r), fnew(k, which, tw, tl, r)}; VP_CHECK(a.m && a.m2 && a.p, "init failed"); return a; }
static void close_(A *a) { WBCRYPTO_fpe_mac_free(a->m); WBCRYPTO_fpe_mac_free(a->m2); WBCRYPTO_fpe_free(a->p); }
static void fin(int ff, WBCRYPTO_fpe_mac_context *m, uint8_t tag[16])
{
    vp_buf b = vp_balloc(16, 0x44); size_t n = 99; VP_CHECK(fmfin(ff, m, b.p, &n) == 1, "finish failed"); VP_CHECK(n == 16 && vp_bintact(&b), "the tag has %zu bytes", n); memcpy(tag, b.p, 16); vp_bfree(&b);
}
/* ciphertext in ct, tag in tag; both directions, on one and on another context */
static void both(A *a, int ff, const char *in, char *ct, uint8_t tag[16])
{
    size_t n = strlen(in); static char plain[20100]; uint8_t t2[16], t3[16]; vp_buf o = vp_balloc(n + 1, 0x31), b = vp_balloc(n + 1, 0x32);
    VP_CHECK(fmcall(ff, 0, a->m, in, (char *)o.p) == 1, "encryption failed"); fin(ff, a->m, tag);
    VP_CHECK(fcall(ff, 0, a->p, in, plain) == 1 && !memcmp(plain, o.p, n + 1), "ff%d with MAC encrypts %s to %.*s, without MAC to %s (radix %u, %zu-byte tweak)", ff, in, (int)n + 1, (char *)o.p, plain, a->r, a->tl);
    if (inrange(ff, a->r, n) && n < 4000) { rref(ff, kref(a->k, a->which), a->tw, a->tl, a->r, in, plain, 0); VP_CHECK(!memcmp(plain, o.p, n + 1), "ff%d with MAC encrypts %s to %s, expected %s", ff, in, (char *)o.p, plain); }
    VP_CHECK(fmcall(ff, 1, a->m, (char *)o.p, (char *)b.p) == 1, "decryption failed"); fin(ff, a->m, t2);
    VP_CHECK(!memcmp(b.p, in, n + 1), "ff%d with MAC decrypts %s to %.*s, expected %s", ff, (char *)o.p, (int)n + 1, (char *)b.p, in);
    VP_CHECK(!memcmp(tag, t2, 16), "ff%d: tag %s when encrypting %s, %s when decrypting (radix %u, %zu-byte tweak)", ff, vp_hex(tag, 16), in, vp_hex(t2, 16), a->r, a->tl);
    memset(b.p, 0x55, n + 1); VP_CHECK(fmcall(ff, 1, a->m2, (char *)o.p, (char *)b.p) == 1, "decryption failed"); fin(ff, a->m2, t3);
    VP_CHECK(!memcmp(b.p, in, n + 1) && !memcmp(tag, t3, 16), "ff%d: decryption with another context of the same key and tweak gives another text or tag", ff);
    VP_CHECK(vp_bintact(&o) && vp_bintact(&b), "writes outside its output");
    memcpy(ct, o.p, n + 1); vp_step(vp_hash(vp_hash(ff, ct, n), tag, 16)); vp_outcome(vp_hash(1, tag, 16)); vp_bfree(&o); vp_bfree(&b);
}
static int cmp16(const void *a, const void *b) { return memcmp(a, b, 16); }
/* every single-character change of ct */
static void tamper(A *a, int ff, const char *ct, const uint8_t tag[16], int all)
{
    size_t n = strlen(ct); static char x[20100], y[20100]; uint8_t t[16];
    for (size_t i = 0; i < n; i++) for (unsigned v = 0; v < a->r; v++) {
        if (ct[i] == dig(v)) continue; if (!all && v != (i * 7 + 1) % a->r && ct[i] != dig((v + 1) % a->r)) continue;
        strcpy(x, ct); x[i] = dig(v); VP_CHECK(fmcall(ff, 1, a->m, x, y) == 1, "decryption failed"); fin(ff, a->m, t);
        VP_CHECK(memcmp(t, tag, 16), "ff%d: ciphertext %s changed to %s has the same tag %s", ff, ct, x, vp_hex(t, 16)); vp_step(vp_hash(ff, x, n)); vp_note("altered_ciphertexts", 1);
    }
}
void vp_main(void)
{
    static uint8_t tw[400]; static char in[20100], ct[20100]; uint8_t tag[16]; vp_bytes(tw, sizeof tw, 15);
    long lim = vp_opt ? VP_T(4000, 70000) : VP_T(400, 4000);
    for (int ff = 1; ff <= 3; ff += 2) for (unsigned r = 2; r <= 36; r++) {
        long dom = r;
        for (int n = 2; n <= 24; n++) { dom *= r; if (dom > lim) break;
            if (vp_case("ff%d radix %u length %d: all %ld texts, tags pairwise different", ff, r, n, dom)) {
                A a = open_(K_TOY, n & 3, tw, (n * 3 + r) % 20, r); uint8_t (*all)[16] = malloc(16 * dom);
                for (long x = 0; x < dom; x++) { long t = x; for (int i = n - 1; i >= 0; i--) { in[i] = dig(t % r); t /= r; } in[n] = 0; both(&a, ff, in, ct, all[x]); }
                qsort(all, dom, 16, cmp16); for (long x = 1; x < dom; x++) VP_CHECK(memcmp(all[x - 1], all[x], 16), "two texts have the tag %s", vp_hex(all[x], 16));
                free(all); close_(&a);
            } }
    }
    for (int ff = 1; ff <= 3; ff += 2) for (unsigned r = 2; r <= 36; r++) for (int n = 2; n <= VP_T(70, 160); n++)
        if (vp_case("ff%d radix %u length %d, character changes", ff, r, n)) {
            static const int tls[] = {8, 0, 16, 7, 25};
            for (int ti = 0; ti < 5; ti++) { A a = open_(K_TOY, ti & 3, tw + n, tls[ti], r); for (int s = 0; s < 5; s++) { ftext(in, n, r, s < 4 ? s : s + n); both(&a, ff, in, ct, tag); } if (ti == n % 5 && inrange(ff, r, n)) tamper(&a, ff, ct, tag, n <= 12 || vp_thorough); close_(&a); }
        }
    for (int ff = 1; ff <= 3; ff += 2) for (int tl = 0; tl <= VP_T(160, 300); tl++)
        if (vp_case("ff%d tweak length %d and its changes", ff, tl)) for (int n = 2; n <= 20; n += 3) {
            A a = open_(K_TOY, 0, tw, tl, 10); ftext(in, n, 10, n + tl); both(&a, ff, in, ct, tag);
            int bits = (ff == 3 && tl > 16 ? 16 : tl) * 8; uint8_t t[16], w[400];
            for (int b = 0; b < bits; b += tl > 40 && !vp_thorough ? 5 : 1) { memcpy(w, tw, tl); w[b / 8] ^= 1 << b % 8; A c = open_(K_TOY, 0, w, tl, 10); char y[100]; VP_CHECK(fmcall(ff, 1, c.m, ct, y) == 1, "decryption failed"); fin(ff, c.m, t); VP_CHECK(memcmp(t, tag, 16), "ff%d: tweak bit %d of %d bytes does not change the tag", ff, b, tl); vp_step(vp_hash(b, t, 16)); close_(&c); }
            /* another length of the tweak (FF3: within the 16 bytes, with non-zero added bytes) */
            if (ff == 1 || tl < 16) { memcpy(w, tw, tl); w[tl] = ff == 1 ? 0 : 1; A c = open_(K_TOY, 0, w, tl + 1, 10); char y[100]; VP_CHECK(fmcall(ff, 1, c.m, ct, y) == 1, "decryption failed"); fin(ff, c.m, t); VP_CHECK(memcmp(t, tag, 16), "ff%d: a longer tweak gives the same tag", ff); close_(&c); }
            close_(&a);
        }
    for (int k = 0; k < C_N; k++) for (int ff = 1; ff <= 3; ff += 2) for (unsigned r = 2; r <= 36; r++)
        if (vp_case("%s ff%d radix %u", kn(k), ff, r)) for (int tl = 0; tl <= 16; tl += 8) { A a = open_(k, 0, tw, tl, r); for (int n = 2; n <= VP_T(22, 40); n += k == C_WBSM4 ? 5 : 1) { ftext(in, n, r, n + 9); both(&a, ff, in, ct, tag); if (n % 6 == 2 && tl == 8 && inrange(ff, r, n)) tamper(&a, ff, ct, tag, 0); } close_(&a); }
    static const int bign[] = {255, 256, 257, 511, 512, 513, 1025};
    for (int ff = 1; ff <= 3; ff += 2) for (int b = 0; b < 7; b++) if (vp_case("ff%d text of %d characters", ff, bign[b])) for (unsigned r = 2; r <= 36; r += 17) { A a = open_(K_TOY, 1, tw, 9, r); ftext(in, bign[b], r, 12); both(&a, ff, in, ct, tag); close_(&a); }
    /* a round function of more than 256 blocks; halves of nearly a whole number of bytes */
    static const int huge[][2] = {{36, 12665}, {26, 14000}, {10, 20000}, {9, 2660}, {28, 4786}, {3, 5320}};
    if (vp_opt) for (int b = 0; b < 6; b++) if (vp_case("ff1 radix %d text of %d characters", huge[b][0], huge[b][1])) { A a = open_(K_TOY, 1, tw, 9, huge[b][0]); ftext(in, huge[b][1], huge[b][0], 12); both(&a, 1, in, ct, tag); close_(&a); }
    /* sequences: the tag always belongs to the last message, in either algorithm, whatever came before; another context does not interfere */
    int depth = vp_opt ? VP_T(5, 6) : VP_T(4, 5), nop = 8; long tot = 1; for (int i = 0; i < depth; i++) tot *= nop;
    for (long s = 0; s < tot; s++)
        if (vp_case("history #%ld of %d calls (base 8: algorithm, direction, context)", s, depth)) {
            static uint8_t want[2][2][3][16]; static char wct[2][2][3][40]; static int have; static const char *txt[3] = {"0123456789", "98", "314159265358979"};
            if (!have) { have = 1; for (int c = 0; c < 2; c++) for (int f = 0; f < 2; f++) for (int t = 0; t < 3; t++) { A a = open_(K_TOY, c, tw + c, 8 + c, 10); both(&a, f * 2 + 1, txt[t], wct[c][f][t], want[c][f][t]); close_(&a); } }
            WBCRYPTO_fpe_mac_context *m[2]; for (int c = 0; c < 2; c++) { m[c] = fmnew(K_TOY, c, tw + c, 8 + c, 10); VP_CHECK(m[c], "init failed"); }
            int last[2][2] = {{-1, -1}, {-1, -1}}; long t = s; char o[40]; uint8_t g[16];
            for (int i = 0; i < depth; i++, t /= nop) { int c = t & 1, d = t >> 1 & 1, f = t >> 2 & 1, x = i % 3;
                VP_CHECK(fmcall(f * 2 + 1, d, m[c], d ? wct[c][f][x] : txt[x], o) == 1 && !strcmp(o, d ? txt[x] : wct[c][f][x]), "step %d: wrong text", i); last[c][0] = f; last[c][1] = x;
                if (i & 1) for (int q = 0; q < 2; q++) if (last[q][0] >= 0) for (int twice = 0; twice < 2; twice++) { fin(last[q][0] * 2 + 1, m[q], g); VP_CHECK(!memcmp(g, want[q][last[q][0]][last[q][1]], 16), "step %d: wrong tag on context %d", i, q); }
                vp_step(vp_mix(s * 10 + i)); }
            for (int q = 0; q < 2; q++) { if (last[q][0] >= 0) { fin(last[q][0] * 2 + 1, m[q], g); VP_CHECK(!memcmp(g, want[q][last[q][0]][last[q][1]], 16), "wrong tag on context %d at the end", q); } WBCRYPTO_fpe_mac_free(m[q]); }
        }
}

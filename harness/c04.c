/* C04: GCM equals SP 800-38D for every IV, AAD, message and call sequence. */
#include "ciphers.h"
#include "toy.h"

typedef struct { void *key; const ref_cipher *r; ciph *c; } inst; /* a cipher: toy (c == NULL) or one of the library's */
static WBCRYPTO_gcm_context *mk(inst *I)
{
    WBCRYPTO_gcm_context *g = I->c ? ciph_gcm(I->c) : WBCRYPTO_gcm_init(I->key, toy_block);
    VP_CHECK(g, "gcm context could not be created"); return g;
}
static inst I_toy(toy_t *t) { inst i = {t, &t->r, NULL}; return i; }
static inst I_real(int k) { ciph *c = ciph_shared(k); inst i = {NULL, &c->r, c}; return i; }

/* one call of encrypt/decrypt, checked against the model */
static void do_crypt(WBCRYPTO_gcm_context *g, ref_gcm_t *m, const uint8_t *in, size_t n, int dec, int inplace)
{
    uint8_t *want = malloc(n + 1), *keep = malloc(n + 1); memcpy(keep, in, n);
    ref_gcm_crypt(m, in, n, want, dec);
    vp_buf o = vp_balloc(n, 0x51); const uint8_t *src = keep;
    if (inplace) { memcpy(o.p, in, n); src = o.p; }
    int r = dec ? WBCRYPTO_gcm_decrypt(g, src, n, o.p, n) : WBCRYPTO_gcm_encrypt(g, src, n, o.p, n);
    VP_CHECK(r == 1, "%s of %zu bytes returned %d", dec ? "decrypt" : "encrypt", n, r);
    VP_CHECK(!memcmp(o.p, want, n), "%s of %zu bytes gives %s, standard GCM gives %s", dec ? "decrypt" : "encrypt", n, vp_hex(o.p, n), vp_hex(want, n));
    VP_CHECK(vp_bintact(&o), "wrote outside the output");
    VP_CHECK(inplace || !memcmp(keep, in, n), "input changed");
    vp_step(vp_hash(vp_hash(m->n, m->Y, 16), m->X, 16));
    vp_bfree(&o); free(want); free(keep);
}
static void do_tag(WBCRYPTO_gcm_context *g, const ref_gcm_t *m, size_t tl)
{
    uint8_t want[16]; ref_gcm_tag(m, want);
    vp_buf t = vp_balloc(tl, 0x52);
    VP_CHECK(WBCRYPTO_gcm_finish(g, t.p, tl) == 1, "finish(%zu) failed", tl);
    VP_CHECK(!memcmp(t.p, want, tl), "tag of %zu bytes is %s, standard GCM gives %s", tl, vp_hex(t.p, tl), vp_hex(want, tl));
    VP_CHECK(vp_bintact(&t), "finish(%zu) wrote outside the tag", tl);
    vp_step(vp_hash(tl + 3, want, 16)); vp_outcome(vp_hash(0, want, 16)); vp_bfree(&t);
}
static void do_iv(WBCRYPTO_gcm_context *g, ref_gcm_t *m, const ref_cipher *r, const uint8_t *iv, size_t n)
{
    uint8_t *k = malloc(n ? n : 1); memcpy(k, iv, n);
    VP_CHECK(WBCRYPTO_gcm_setiv(g, k, n) == 1, "setiv failed"); VP_CHECK(!memcmp(k, iv, n), "setiv changed the IV");
    memset(k, 0xDB, n ? n : 1); free(k); ref_gcm_start(m, r, iv, n); vp_step(vp_hash(1, m->J0, 16));
}
static void do_aad(WBCRYPTO_gcm_context *g, ref_gcm_t *m, const uint8_t *a, size_t n)
{
    uint8_t *k = malloc(n ? n : 1); memcpy(k, a, n);
    VP_CHECK(WBCRYPTO_gcm_aad(g, k, n) == 1, "aad failed"); VP_CHECK(!memcmp(k, a, n), "aad changed the data");
    memset(k, 0xDB, n ? n : 1); free(k); ref_gcm_aad(m, a, n); vp_step(vp_hash(m->al, m->X, 16));
}
static void whole(WBCRYPTO_gcm_context *g, inst *I, const uint8_t *iv, size_t ivl, const uint8_t *a, size_t al, const uint8_t *p, size_t n, int dec, int ip, size_t tl)
{
    ref_gcm_t m; do_iv(g, &m, I->r, iv, ivl);
    if (al || (n & 1)) do_aad(g, &m, a, al);
    if (n || (al & 1)) do_crypt(g, &m, p, n, dec, ip);
    do_tag(g, &m, tl);
}

static uint8_t buf[1 << 21], aadb[1 << 17], ivb[1 << 17];

/* ---- operation sequences on one context (and a bystander) ---- */
enum { O_IV12, O_IV7, O_IV16, O_IV0, O_AAD16, O_AAD5, O_AAD0, O_ENC16, O_ENC21, O_ENC0, O_DEC32, O_DEC3, O_FIN16, O_FIN4, O_BY, O_NOPS };
static const char opch[] = "INJ0ADaEPeKpFfB";
/* protocol state: 0 no IV, 1 IV set, 2 partial AAD given, 3 whole blocks processed, 4 partial block processed, 5 finished */
static int seq_next(int st, int op)
{
    if (op <= O_IV0) return 1;
    if (op == O_BY) return st;
    if (st == 0 || st == 5) return -1;
    switch (op) {
    case O_AAD16: return st == 1 ? 1 : -1;
    case O_AAD0: return st <= 2 ? st : -1;
    case O_AAD5: return st == 1 ? 2 : -1;
    case O_ENC16: case O_DEC32: return st == 4 ? -1 : 3;
    case O_ENC0: return st;
    case O_ENC21: case O_DEC3: return st == 4 ? -1 : 4;
    default: return 5;
    }
}
static void seq_run(inst *I, inst *J, const int *ops, int n)
{
    WBCRYPTO_gcm_context *g = mk(I), *by = mk(J); ref_gcm_t m, mb; uint8_t d[64];
    vp_bytes(d, 12, 1); do_iv(by, &mb, J->r, d, 12); int nb = 0;
    for (int i = 0; i < n; i++) {
        vp_bytes(d, 64, i * 100 + ops[i]);
        switch (ops[i]) {
        case O_IV12: do_iv(g, &m, I->r, d, 12); break;
        case O_IV7: do_iv(g, &m, I->r, d, 7); break;
        case O_IV16: do_iv(g, &m, I->r, d, 33); break;
        case O_IV0: do_iv(g, &m, I->r, d, 0); break;
        case O_AAD16: do_aad(g, &m, d, i & 1 ? 16 : 48); break;
        case O_AAD5: do_aad(g, &m, d, i & 1 ? 5 : 21); break;
        case O_AAD0: do_aad(g, &m, d, 0); break;
        case O_ENC16: do_crypt(g, &m, d, 16, 0, i & 1); break;
        case O_ENC21: do_crypt(g, &m, d, 21, 0, i & 1); break;
        case O_ENC0: do_crypt(g, &m, d, 0, i & 1, 0); break;
        case O_DEC32: do_crypt(g, &m, d, 32, 1, i & 1); break;
        case O_DEC3: do_crypt(g, &m, d, 3, 1, i & 1); break;
        case O_FIN16: do_tag(g, &m, 16); break;
        case O_FIN4: do_tag(g, &m, 4); break;
        case O_BY: do_crypt(by, &mb, d, 16, nb & 1, 0); nb++; break;
        }
    }
    do_tag(by, &mb, 16);
    free(g); free(by);
}
static void seq_all(inst *I, inst *J, int *ops, int n, int depth, int st)
{
    if (n == depth) { seq_run(I, J, ops, n); vp_note("sequences", 1); return; }
    int any = 0;
    for (int o = 0; o < O_NOPS; o++) { int t = seq_next(st, o); if (t < 0) continue; ops[n] = o; any = 1; seq_all(I, J, ops, n + 1, depth, t); }
}

void vp_main(void)
{
    toy_t T, U; toy_init(&T, 1); toy_init(&U, 2); inst It = I_toy(&T), Iu = I_toy(&U);
    vp_bytes(buf, sizeof buf, 3); vp_bytes(aadb, sizeof aadb, 4); vp_bytes(ivb, sizeof ivb, 5);

    /* GHASH multiplication: bilinear, so all pairs of basis vectors, plus all nibble/byte values per position */
    for (int h = 0; h < 128; h++)
        if (vp_case("GHASH basis: key bit %d with every data bit", h)) {
            memset(T.H, 0, 16); T.H[h / 8] = 0x80 >> h % 8; WBCRYPTO_gcm_context *g = mk(&It); uint8_t x[16];
            for (int b = 0; b < 128; b++) { memset(x, 0, 16); x[b / 8] = 0x80 >> b % 8; whole(g, &It, ivb, 12, x, 16, buf, 0, 0, 0, 16); }
            free(g);
        }
    for (int h = 0; h < VP_T(16, 128); h++)
        for (int p = 0; p < 16; p++)
            if (vp_case("GHASH values: key %d, every value of data byte %d", h, p)) {
                vp_bytes(T.H, 16, h); if (h == 1) memset(T.H, 0xff, 16); if (h == 2) memset(T.H, 0, 16); WBCRYPTO_gcm_context *g = mk(&It); uint8_t x[16];
                for (int v = 0; v < 256; v++) { vp_bytes(x, 16, h * 3); if (h & 1) memset(x, 0, 16); x[p] = (uint8_t)v; whole(g, &It, ivb, 12, x, 16, buf, 0, 0, 0, 16); whole(g, &It, x, 16, x, 0, buf, 16, 0, 0, 16); }
                free(g);
            }
    toy_init(&T, 1);
    /* counter start values: with E(0)=1 the hash is the identity, so a 16-byte IV selects the start block */
    static const uint32_t cs[] = {0xffffffffu, 0x00ffffffu, 0x0000ffffu, 0x000000ffu, 0xff0000ffu, 0x7fffffffu, 0xfffeffffu, 0xffff00ffu, 0x80000000u, 0x01ffffffu};
    for (int hi = 0; hi < 3; hi++)
        for (unsigned ci = 0; ci < sizeof cs / sizeof *cs; ci++)
            for (int back = 0; back < 6; back++)
                for (int dec = 0; dec < 2; dec++)
                    if (vp_case("counter start %08x-%d, upper bytes kind %d, %s", cs[ci], back, hi, dec ? "decrypt" : "encrypt")) {
                        memset(T.H, 0, 16); T.H[0] = 0x80; WBCRYPTO_gcm_context *g = mk(&It); uint8_t iv[16]; uint32_t c = cs[ci] - back;
                        vp_bytes(iv, 16, 7); if (hi == 1) memset(iv, 0xff, 16); if (hi == 2) memset(iv, 0, 16);
                        for (int i = 0; i < 4; i++) iv[12 + i] = (uint8_t)(c >> (24 - 8 * i));
                        iv[15] ^= 128; /* the length block */
                        for (size_t n = 1; n <= 130; n += (n < 20 ? 1 : 13)) whole(g, &It, iv, 16, aadb, n % 5, buf, n, dec, n & 1, 16);
                        toy_init(&T, 1); free(g);
                    }
    /* IV lengths */
    static const int ivx[] = {100, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 8191, 8192, 8193, 65535, 65536, 100000};
    for (int k = -1; k < C_N; k++)
        for (int li = 0; li < 81 + (k < 0 ? (int)(sizeof ivx / sizeof *ivx) : 3); li++)
            if (vp_case("%s IV of %d bytes", k < 0 ? "toy" : cname[k], li < 81 ? li : ivx[li - 81])) {
                size_t n = li < 81 ? li : ivx[li - 81]; inst I = k < 0 ? It : I_real(k); WBCRYPTO_gcm_context *g = mk(&I);
                for (int d = 0; d < 2; d++) { whole(g, &I, ivb, n, aadb, 3, buf, 35, d, d, 16); whole(g, &I, ivb + 1, n, aadb, 0, buf, 0, d, 0, 16); }
                free(g);
            }
    /* AAD x message length grid */
    int ga = VP_T(50, 100), gn = VP_T(68, 140);
    for (int k = -1; k < C_N; k++)
        for (int al = 0; al <= (k < 0 ? ga : 18); al++)
            if (vp_case("%s AAD of %d bytes with every message length", k < 0 ? "toy" : cname[k], al)) {
                inst I = k < 0 ? It : I_real(k); WBCRYPTO_gcm_context *g = mk(&I);
                for (int n = 0; n <= (k < 0 ? gn : 34); n++) for (int v = 0; v < 4; v++) whole(g, &I, ivb + n, v & 2 ? 12 : 1 + (al + n) % 23, aadb, al, buf + n, n, v & 1, (v >> 1 ^ n) & 1, 16);
                free(g);
            }
    /* larger messages and AADs around borders (byte and 16-bit carries of counter and lengths) */
    static const int big[] = {127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4063, 4064, 4065, 4079, 4080, 4081, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32768, 65535, 65536, 65537, 131071, 131072, 524287, 524288, 524289, 1048559, 1048560, 1048561, 1048576, 1048577, 1048600, 2097151};
    for (unsigned b = 0; b < sizeof big / sizeof *big; b++)
        for (int v = 0; v < 4; v++) {
            if (big[b] > 70000 && !vp_opt && !vp_thorough && v) continue;
            if (vp_case("message of %d bytes, %s%s", big[b], v & 1 ? "decrypt" : "encrypt", v & 2 ? ", other IV" : "")) { WBCRYPTO_gcm_context *g = mk(&It); whole(g, &It, ivb, v & 2 ? 30 : 12, aadb, 20, buf, big[b], v & 1, v >> 1, 16); free(g); }
            if (big[b] <= 131072 && v < 2 && vp_case("AAD of %d bytes, message of %d", big[b], v * 17)) { WBCRYPTO_gcm_context *g = mk(&It); whole(g, &It, ivb, 12, aadb, big[b], buf, v * 17, 0, 0, 16); free(g); }
        }
    if (vp_opt) {
        size_t huge = VP_T((size_t)1 << 29, ((size_t)1 << 32) + 64); /* length field beyond 32 bits, counter carry through three bytes (four when thorough) */
        for (int dec = 0; dec < VP_T(1, 2); dec++)
            if (vp_case("message of %zu bytes fed in 1 MiB pieces, %s", huge, dec ? "decrypt" : "encrypt")) {
                WBCRYPTO_gcm_context *g = mk(&It); ref_gcm_t m; do_iv(g, &m, It.r, ivb, 12); do_aad(g, &m, aadb, 7);
                static uint8_t o[1 << 20];
                /* the text of every piece is compared; zero-work model of GHASH: tables built from the reference product */
                for (size_t off = 0; off < huge; off += 1 << 20) {
                    size_t n = huge - off < 1 << 20 ? huge - off : 1 << 20;
                    VP_CHECK((dec ? WBCRYPTO_gcm_decrypt : WBCRYPTO_gcm_encrypt)(g, buf, n, o, n) == 1, "piece at %zu failed", off);
                    static uint8_t w[1 << 20]; ref_gcm_crypt(&m, buf, n, w, dec);
                    VP_CHECK(!memcmp(w, o, n), "text of the piece at %zu differs from standard GCM", off);
                    vp_step(vp_hash(m.n, m.X, 16));
                }
                do_tag(g, &m, 16); free(g);
            }
    }
    /* IV and AAD lengths beyond 32 bits: zero bytes keep the hash at zero, so the model needs no work for them */
    static const size_t hl[] = {((size_t)1 << 29) - 16, (size_t)1 << 29, ((size_t)1 << 29) + 5};
    if (vp_opt)
        for (int v = 0; v < 2; v++)
            for (unsigned q = VP_T(1, 0); q < 3; q++)
                if (vp_case("%s of %zu bytes", v ? "IV" : "AAD", hl[q])) {
                    WBCRYPTO_gcm_context *g = mk(&It); ref_gcm_t m; uint8_t *z = calloc(hl[q] + 16, 1); VP_CHECK(z, "harness: memory");
                    if (v) {
                        size_t tail = hl[q] % 16 ? hl[q] % 16 : 16; memcpy(z + hl[q] - tail, ivb, tail);
                        VP_CHECK(WBCRYPTO_gcm_setiv(g, z, hl[q]) == 1, "setiv failed"); ref_gcm_start(&m, It.r, ivb, 12);
                        uint8_t x[16] = {0}, y[16]; memcpy(x, ivb, tail); ref_gmul(x, m.H, y); for (int i = 0; i < 8; i++) y[15 - i] ^= (uint8_t)((uint64_t)hl[q] * 8 >> 8 * i);
                        ref_gmul(y, m.H, m.J0); memcpy(m.Y, m.J0, 16);
                    } else {
                        do_iv(g, &m, It.r, ivb, 12); VP_CHECK(WBCRYPTO_gcm_aad(g, z, hl[q] / 16 * 16) == 1, "aad failed"); m.al += hl[q] / 16 * 16; do_aad(g, &m, aadb, hl[q] % 16);
                    }
                    vp_step(hl[q]); do_crypt(g, &m, buf, 35, v, 0); do_tag(g, &m, 16); free(z); free(g);
                }
    /* tag lengths, for several messages */
    for (int k = -1; k < C_N; k++)
        for (int tl = 0; tl <= 16; tl++)
            if (vp_case("%s tag of %d bytes", k < 0 ? "toy" : cname[k], tl)) {
                inst I = k < 0 ? It : I_real(k); WBCRYPTO_gcm_context *g = mk(&I);
                for (int n = 0; n < 40; n += 5) for (int al = 0; al < 20; al += 9) whole(g, &I, ivb, 12, aadb, al, buf, n, n & 1, 0, tl);
                free(g);
            }
    for (int tl = 17; tl < 40; tl++)
        if (vp_case("tag of %d bytes is refused", tl)) {
            WBCRYPTO_gcm_context *g = mk(&It); vp_buf t = vp_balloc(16, 1); WBCRYPTO_gcm_setiv(g, ivb, 12);
            VP_CHECK(WBCRYPTO_gcm_finish(g, t.p, tl) == 0, "a %d-byte tag was not refused", tl); VP_CHECK(vp_bintact(&t), "finish wrote outside the tag"); vp_step(tl); vp_bfree(&t);
            whole(g, &It, ivb, 12, aadb, 3, buf, 20, 0, 0, 16); free(g);
        }
    /* all splittings of message and AAD at block borders */
    for (int k = -1; k < (vp_opt ? C_N : 0); k++)
        for (int nb = 0; nb <= VP_T(6, 9); nb++)
            for (int tail = 0; tail < 16; tail += (k < 0 ? 1 : 5)) {
                if (k >= 0 && nb > 4) continue;
                if (vp_case("%s all splittings of %d blocks + %d bytes", k < 0 ? "toy" : cname[k], nb, tail)) {
                    inst I = k < 0 ? It : I_real(k); WBCRYPTO_gcm_context *g = mk(&I);
                    for (int cut = 0; cut < 1 << nb; cut++)
                        for (int dec = 0; dec < 2; dec++) {
                            ref_gcm_t m; do_iv(g, &m, I.r, ivb + cut, 12);
                            /* AAD split in the mirrored pattern */
                            size_t off = 0, st = 0, n = nb * 16 + tail;
                            for (int b = 1; b <= nb; b++) if (cut >> (nb - b) & 1) { do_aad(g, &m, aadb + st, b * 16 - st); st = b * 16; }
                            do_aad(g, &m, aadb + st, n - st);
                            st = 0; (void)off;
                            for (int b = 1; b <= nb; b++) if (cut >> (b - 1) & 1) { do_crypt(g, &m, buf + st, b * 16 - st, dec, b & 1); st = b * 16; if (b % 3 == 0) do_crypt(g, &m, buf, 0, dec, 0); }
                            if (n - st || cut % 2) do_crypt(g, &m, buf + st, n - st, dec, 0);
                            do_tag(g, &m, 16);
                        }
                    free(g);
                }
            }
    /* all call sequences up to the depth; the first two calls name the case */
    int depth = vp_opt ? VP_T(6, 8) : VP_T(5, 6);
    for (int a = 0; a < O_NOPS; a++)
        for (int b = 0; b < O_NOPS; b++)
            for (int c = 0; c < O_NOPS; c++) {
                int s1 = seq_next(0, a); if (s1 < 0) continue; int s2 = seq_next(s1, b); if (s2 < 0) continue; int s3 = seq_next(s2, c); if (s3 < 0) continue;
                for (int d = 3; d <= depth; d++)
                    if (vp_case("all valid sequences of %d calls starting %c%c%c", d, opch[a], opch[b], opch[c])) { int ops[16] = {a, b, c}; seq_all(&It, &Iu, ops, 3, d, s3); }
            }
    for (int k = 0; k < C_N; k++)
        for (int a = 0; a < O_NOPS; a++)
            if (seq_next(0, a) >= 0 && vp_case("%s all valid sequences of %d calls starting %c", cname[k], vp_opt ? 4 : 3, opch[a])) { inst I = I_real(k), J = I_real((k + 1) % C_N); int ops[16] = {a}; seq_all(&I, &J, ops, 1, vp_opt ? 4 : 3, seq_next(0, a)); }
}

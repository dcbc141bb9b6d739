/* C02: the white-box ciphers compute the plain cipher for every key, encoding and dummy-round placement. */
#include "ciphers.h"
#include <wbcrypto/se_wbsm4.h>
#include <wbcrypto/utils.h>

/* dummy-round placement: the shuffle of the real/dummy list is replaced by the enumerated placement.
   When the library does not use this function the cases fall back on the seeded generator. */
static uint64_t place_mask; static int place_on; static int place_len;
int __real_wRandomShuffleU8(uint8_t *list, int len) __attribute__((weak));
int __wrap_wRandomShuffleU8(uint8_t *list, int len)
{
    if (!place_on || !__real_wRandomShuffleU8) return __real_wRandomShuffleU8 ? __real_wRandomShuffleU8(list, len) : 0;
    int ones = 0; for (int i = 0; i < len; i++) ones += list[i] != 0;
    if (ones != __builtin_popcountll(place_mask)) return __real_wRandomShuffleU8(list, len);
    place_len = len;
    for (int i = 0; i < len; i++) list[i] = place_mask >> i & 1;
    return 0;
}

enum { W_AES, W_SM4, W_SE, W_N };
static const char *const wname[W_N] = {"wbaes", "wbsm4", "se_wbsm4"};
typedef struct { int kind, mode, set; void *c; ref_cipher r; } wctx;
static void w_new(wctx *w, int kind, int mode, int dummy)
{
    w->kind = kind; w->mode = mode; w->set = 0;
    w->c = kind == W_AES ? (void *)WBCRYPTO_wbaes_context_init() : kind == W_SM4 ? (void *)WBCRYPTO_wbsm4_context_init(mode, dummy) : (void *)WBCRYPTO_se_wbsm4_context_init(mode);
    VP_CHECK(w->c, "%s context could not be created", wname[kind]);
}
static void w_gen(wctx *w, const uint8_t *key, size_t n)
{
    uint8_t *k = malloc(n ? n : 1); memcpy(k, key, n); int r;
    switch (w->kind) {
    case W_AES: r = WBCRYPTO_wbaes_gen_table(w->c, k, n); break;
    case W_SM4: r = WBCRYPTO_wbsm4_gen_table(w->c, k, n); break;
    default: r = WBCRYPTO_se_wbsm4_gen_table(w->c, k, n);
    }
    VP_CHECK(r == 1, "%s table generation returned %d", wname[w->kind], r);
    VP_CHECK(!memcmp(k, key, n), "table generation changed the key");
    memset(k, 0xEE, n ? n : 1); free(k);
    ref_init(&w->r, w->kind != W_AES, key, n); w->set = 1;
}
static void w_free(wctx *w)
{
    if (!w->c) return;
    if (w->kind == W_SM4) { /* context_free of the library only clears: release the tables here to keep memory flat */
        WBCRYPTO_wbsm4_context *s = w->c; int n = s->rounds;
        for (int i = 0; i < n; i++) {
            for (int j = 0; j < 3; j++) { for (int k = 0; k < 4; k++) free(s->MM[i][j][k]); free(s->MM[i][j]); }
            for (int k = 0; k < 4; k++) { free(s->CC[i][k]); free(s->DD[i][k]); free(s->Table[i][k]); }
            free(s->MM[i]); free(s->CC[i]); free(s->DD[i]); free(s->Table[i]);
        }
        free(s->MM); free(s->CC); free(s->DD); free(s->Table);
    }
    free(w->c); w->c = NULL;
}
static int w_run(wctx *w, const uint8_t *in, uint8_t *out)
{
    switch (w->kind) {
    case W_AES: return WBCRYPTO_wbaes_encrypt(in, out, w->c);
    case W_SM4: return w->mode ? WBCRYPTO_wbsm4_encrypt(in, out, w->c) : WBCRYPTO_wbsm4_decrypt(in, out, w->c);
    default: return w->mode ? WBCRYPTO_se_wbsm4_encrypt(in, out, w->c) : WBCRYPTO_se_wbsm4_decrypt(in, out, w->c);
    }
}
static void w_block(wctx *w, const uint8_t in[16], int inplace, uint8_t out[16])
{
    uint8_t want[16], keep[16]; memcpy(keep, in, 16);
    if (w->mode) ref_enc(&w->r, in, want); else ref_dec(&w->r, in, want);
    vp_buf b = vp_balloc(16, 0x31); int r;
    if (inplace) { memcpy(b.p, in, 16); r = w_run(w, b.p, b.p); } else { uint8_t src[16]; memcpy(src, in, 16); r = w_run(w, src, b.p); VP_CHECK(!memcmp(src, keep, 16), "input block changed"); }
    VP_CHECK(r == 1, "%s returned %d", wname[w->kind], r);
    VP_CHECK(!memcmp(b.p, want, 16), "%s %s of %s is %s, plain cipher gives %s", wname[w->kind], w->mode ? "encryption" : "decryption", vp_hex(keep, 16), vp_hex(b.p, 16), vp_hex(want, 16));
    VP_CHECK(vp_bintact(&b), "wrote outside the output block");
    memcpy(out, want, 16); vp_bfree(&b);
    vp_step(vp_hash(w->kind * 2 + w->mode, want, 16));
}
/* a walk: each output is the next input */
static void w_walk(wctx *w, int n, uint64_t seed) { uint8_t b[16]; vp_bytes(b, 16, seed); for (int i = 0; i < n; i++) w_block(w, b, i & 1, b); }
static void seed_all(uint64_t s) { vp_seed(s); SetRandSeed((unsigned)(s * 2654435761u + 17)); vp_time_value = 1000000 + (long)(s % 1000003); }
static void mkkey(uint8_t *k, int n, int id)
{
    vp_bytes(k, n, 31 + id);
    if (id % 8 == 1) memset(k, 0, n);
    if (id % 8 == 2) memset(k, 0xff, n);
    if (id % 8 == 3) for (int i = 0; i < n; i++) k[i] = (uint8_t)i;
}

void vp_main(void)
{
    uint8_t key[48], b[16], o[16];
    /* every placement of d dummy rounds */
    for (int mode = 1; mode >= 0; mode--)
        for (int d = 0; d <= VP_T(2, 3); d++) {
            int len = 32 + d;
            for (uint64_t a = 0; a < (d ? (uint64_t)len : 1); a++)
                for (uint64_t bb = d > 1 ? a + 1 : 0; bb < (d > 1 ? (uint64_t)len : 1); bb++)
                    for (uint64_t c = d > 2 ? bb + 1 : 0; c < (d > 2 ? (uint64_t)len : 1); c++) {
                        if (d > 1 && !vp_opt && !vp_thorough && (a + bb) % 4) continue; /* sanitizer build: a quarter of the pairs */
                        if (d > 2 && !vp_opt && (a + bb + c) % 8) continue;
                        if (vp_case("wbsm4 %s, %d dummy rounds at %d,%d,%d", mode ? "encrypt" : "decrypt", d, d > 0 ? (int)a : -1, d > 1 ? (int)bb : -1, d > 2 ? (int)c : -1)) {
                            wctx w; seed_all(a * 64 + bb + 7 * c); place_on = 1; place_mask = 0;
                            if (d > 0) place_mask |= 1ull << a; if (d > 1) place_mask |= 1ull << bb; if (d > 2) place_mask |= 1ull << c;
                            mkkey(key, 16, (int)(a + bb + c)); place_len = 0;
                            w_new(&w, W_SM4, mode, d); w_gen(&w, key, 16); place_on = 0;
                            vp_note("placements_forced", place_len == len);
                            w_walk(&w, 12, a * 100 + bb); w_free(&w);
                        }
                    }
        }
    /* random encodings: seeds x keys x modes x dummy counts (placement by the library's own shuffle) */
    for (int kind = 0; kind < W_N; kind++)
        for (int mode = 1; mode >= 0; mode--) {
            if (kind == W_AES && !mode) continue;
            int ns = kind == W_AES ? (vp_opt ? VP_T(300, 4000) : 12) : kind == W_SM4 ? (vp_opt ? VP_T(300, 4000) : 40) : (vp_opt ? VP_T(2000, 40000) : 8);
            for (int s = 0; s < ns; s++) {
                int d = kind == W_SM4 ? s % 7 : 0;
                if (vp_case("%s %s seed %d dummy %d", wname[kind], mode ? "encrypt" : "decrypt", s, d)) {
                    wctx w; seed_all(s + 1000); mkkey(key, 16, s);
                    w_new(&w, kind, mode, d); w_gen(&w, key, 16); w_walk(&w, 24, s);
                    for (int i = 0; i < 6; i++) { memset(b, i & 1 ? 0xff : 0, 16); if (i > 1) b[i] = 0x80; w_block(&w, b, 0, o); }
                    w_free(&w);
                }
            }
        }
    /* many dummy rounds: every count up to 72, and around larger powers of two of the round count and of the list of real and dummy rounds */
    for (int i = 0; i <= 84; i++) {
        static const int big[] = {95, 96, 97, 127, 128, 223, 224, 225, 255, 256, 479, 480}; int d = i <= 72 ? i : big[i - 73];
        if (!vp_opt && i % 8 && d < 72) continue; if (!vp_opt && d > 230) continue;
        if (vp_case("wbsm4 %s, %d dummy rounds", i % 2 ? "encrypt" : "decrypt", d)) {
            wctx w; seed_all(d + 9000); mkkey(key, 16, d); w_new(&w, W_SM4, i % 2, d); w_gen(&w, key, 16); w_walk(&w, 40, d); w_free(&w); }
        if (vp_thorough && vp_case("wbsm4 %s, %d dummy rounds", i % 2 ? "decrypt" : "encrypt", d)) {
            wctx w; seed_all(d + 9100); mkkey(key, 16, d + 1); w_new(&w, W_SM4, !(i % 2), d); w_gen(&w, key, 16); w_walk(&w, 400, d); w_free(&w); }
    }
    /* key lengths */
    for (int kind = 0; kind < W_N; kind++)
        for (int mode = 1; mode >= 0; mode--)
            for (int kl = 0; kl <= 40; kl++) {
                if (kind == W_AES && !mode) continue;
                if (kind == W_SE && !vp_opt && kl % 4) continue;
                if (vp_case("%s %s key of %d bytes", wname[kind], mode ? "encrypt" : "decrypt", kl)) {
                    wctx w; seed_all(kl); mkkey(key, kl, kl % 2 ? kl : kl * 8); w_new(&w, kind, mode, kl % 3); w_gen(&w, key, kl); w_walk(&w, 8, kl); w_free(&w);
                }
            }
    /* table coverage: every value of every block byte, and long walks through the inner tables */
    for (int kind = 0; kind < W_N; kind++)
        for (int mode = 1; mode >= 0; mode--)
            for (int s = 0; s < VP_T(2, 8); s++) {
                if (kind == W_AES && !mode) continue;
                if (vp_case("%s %s block sweep %d", wname[kind], mode ? "encrypt" : "decrypt", s)) {
                    wctx w; seed_all(s + 5000); mkkey(key, 16, 40 + s); w_new(&w, kind, mode, s % 3); w_gen(&w, key, 16);
                    for (int p = 0; p < 16; p++) for (int v = 0; v < 256; v++) { vp_bytes(b, 16, s); b[p] = (uint8_t)v; w_block(&w, b, v & 1, o); }
                    w_walk(&w, vp_opt ? 16384 : 2048, s); w_free(&w);
                }
            }
    /* histories of two contexts: generate, regenerate, use, free-and-recreate */
    int depth = vp_opt ? VP_T(4, 5) : 3;
    for (int kind = 0; kind < W_N; kind++) {
        int dep = kind == W_SE && !vp_opt ? 2 : kind != W_SE && vp_opt && !vp_thorough ? 3 : depth;
        long tot = 1; for (int i = 0; i < dep; i++) tot *= 7;
        for (long q = 0; q < tot; q++)
            if (vp_case("%s history #%ld (base 7: genA1 genA2 genB useA useB newA newB-otherdir)", wname[kind], q)) {
                wctx A, B; long t = q; int bm = 1; seed_all(q);
                w_new(&A, kind, 1, 1); w_new(&B, kind, kind == W_AES, 2); bm = B.mode;
                mkkey(key, 16, 60); w_gen(&A, key, 16); mkkey(key, 16, 64); w_gen(&B, key, 16);
                for (int i = 0; i < dep; i++, t /= 7) {
                    switch (t % 7) {
                    case 0: mkkey(key, 16, 61 + i * 8); w_gen(&A, key, 16); break;
                    case 1: mkkey(key, 9, 62); w_gen(&A, key, 9); break;
                    case 2: mkkey(key, 16, 63 + i * 8); w_gen(&B, key, 16); break;
                    case 3: w_walk(&A, 3, i); break;
                    case 4: w_walk(&B, 3, i + 50); break;
                    case 5: w_free(&A); w_new(&A, kind, 1, i % 3); mkkey(key, 16, 70); w_gen(&A, key, 16); break;
                    case 6: w_free(&B); bm = kind == W_AES ? 1 : !bm; w_new(&B, kind, bm, i); mkkey(key, 16, 71); w_gen(&B, key, 16); break;
                    }
                }
                w_walk(&A, 4, q); w_walk(&B, 4, q + 9); w_walk(&A, 2, q + 5);
                w_free(&A); w_free(&B);
            }
    }
}

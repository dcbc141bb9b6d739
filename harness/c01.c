/* C01: AES and SM4 blocks equal the standard; every operation history on two contexts. */
#include "vp.h"
#include "ref.h"
#include <wbcrypto/aes.h>
#include <wbcrypto/sm4.h>

static uint8_t cov[32 * 16 * 256], kcov[32 * 16 * 256];

typedef struct { int kind; WBCRYPTO_aes_context *a; WBCRYPTO_sm4_context *s; } cx;
static cx mk(int kind) { cx c = {kind, 0, 0}; if (kind == 0) c.a = WBCRYPTO_aes_context_init(); else c.s = WBCRYPTO_sm4_context_init();
    VP_CHECK(kind ? (void *)c.s : (void *)c.a, "context_init returned NULL"); return c; }
static void fr(cx *c) { if (c->a) { WBCRYPTO_aes_context_free(c->a); } if (c->s) { WBCRYPTO_sm4_context_free(c->s); } }
static int ik(cx *c, const uint8_t *k, size_t n) { return c->kind ? WBCRYPTO_sm4_init_key(c->s, k, n) : WBCRYPTO_aes_init_key(c->a, k, n); }
static int en(cx *c, const uint8_t *i, uint8_t *o) { return c->kind ? WBCRYPTO_sm4_encrypt(i, o, c->s) : WBCRYPTO_aes_encrypt(i, o, c->a); }
static int de(cx *c, const uint8_t *i, uint8_t *o) { return c->kind ? WBCRYPTO_sm4_decrypt(i, o, c->s) : WBCRYPTO_aes_decrypt(i, o, c->a); }
static const char *nm[] = {"aes", "sm4"};

/* one encryption and one decryption of the block, out of place, in place and at an odd address */
static void both(cx *c, const ref_cipher *r, const uint8_t b[16], int full)
{
    uint8_t in[17], out[18], want[16], keep[16];
    vp_buf o = vp_balloc(16, 0x11);
    memcpy(in, b, 16); memcpy(keep, b, 16);
    ref_enc(r, b, want);
    VP_CHECK(en(c, in, o.p) == 1, "encrypt did not return 1");
    VP_CHECK(!memcmp(o.p, want, 16), "encrypt(%s) = %s, standard says %s", vp_hex(b, 16), vp_hex(o.p, 16), vp_hex(want, 16));
    VP_CHECK(!memcmp(in, keep, 16) && vp_bintact(&o), "encrypt touched its input or memory beside the output");
    vp_step(vp_hash(vp_hash(c->kind, r->kind ? (void *)r->srk : (void *)r->rk[0], 16), b, 16));
    memset(o.p, 0x22, 16);
    VP_CHECK(de(c, want, o.p) == 1, "decrypt did not return 1");
    VP_CHECK(!memcmp(o.p, b, 16), "decrypt(encrypt(%s)) = %s", vp_hex(b, 16), vp_hex(o.p, 16));
    VP_CHECK(vp_bintact(&o), "decrypt wrote beside the output");
    vp_step(vp_hash(vp_hash(c->kind + 2, r->kind ? (void *)r->srk : (void *)r->rk[0], 16), want, 16));
    if (full) {
        ref_dec(r, b, want);
        memcpy(out + 1, b, 16); de(c, out + 1, out + 1);
        VP_CHECK(!memcmp(out + 1, want, 16), "in-place decrypt(%s) = %s, standard says %s", vp_hex(b, 16), vp_hex(out + 1, 16), vp_hex(want, 16));
        en(c, out + 1, out + 1);
        VP_CHECK(!memcmp(out + 1, b, 16), "in-place encrypt is not the inverse of decrypt");
        vp_step(vp_hash(vp_hash(c->kind + 4, r->kind ? (void *)r->srk : (void *)r->rk[0], 16), b, 16));
    }
    vp_bfree(&o);
}

static void families(int kind)
{
    int nbase = VP_T(2, 6) * (vp_opt ? 2 : 1);
    /* every byte value at every block position over base blocks, under base keys */
    for (int kb = 0; kb < nbase + 2; kb++)
        for (int bb = 0; bb < nbase; bb++)
            for (int pos = 0; pos < 16; pos++)
                if (vp_case("%s key base %d, block base %d, every value of block byte %d", nm[kind], kb, bb, pos)) {
                    uint8_t k[16], b[16]; ref_cipher r; cx c = mk(kind);
                    if (kb == 0) memset(k, 0, 16); else if (kb == 1) memset(k, 0xff, 16); else vp_bytes(k, 16, 100 + kb);
                    ref_init(&r, kind, k, 16);
                    VP_CHECK(ik(&c, k, 16) == 1, "init_key did not return 1");
                    memset(k, 0xee, 16); /* the context must not depend on the caller's buffer */
                    if (bb == 0) memset(b, 0, 16); else vp_bytes(b, 16, 200 + bb);
                    for (int v = 0; v < 256; v++) { b[pos] = (uint8_t)v; both(&c, &r, b, v % 16 == 3); }
                    fr(&c);
                }
    /* every byte value at every key position */
    for (int kb = 0; kb < nbase; kb++)
        for (int pos = 0; pos < 16; pos++)
            if (vp_case("%s key base %d, every value of key byte %d", nm[kind], kb, pos)) {
                uint8_t k[16], b[16]; cx c = mk(kind);
                if (kb == 0) memset(k, 0, 16); else vp_bytes(k, 16, 300 + kb);
                vp_bytes(b, 16, 31 + kb);
                for (int v = 0; v < 256; v++) {
                    ref_cipher r; k[pos] = (uint8_t)v; ref_init(&r, kind, k, 16);
                    VP_CHECK(ik(&c, k, 16) == 1, "init_key did not return 1"); /* re-keying the same context */
                    both(&c, &r, b, 1);
                }
                fr(&c);
            }
    /* all pairs of set bits in key and block */
    for (int i = 0; i < 128; i++)
        if (vp_case("%s keys and blocks with bit %d and one other bit set", nm[kind], i)) {
            uint8_t k[16] = {0}, b[16]; ref_cipher r; cx c = mk(kind);
            k[i / 8] |= 1 << i % 8; ref_init(&r, kind, k, 16); ik(&c, k, 16);
            for (int j = 0; j < 128; j++) { memset(b, 0, 16); b[j / 8] |= 1 << j % 8; both(&c, &r, b, 0); }
            for (int j = i + 1; j < 128; j++) {
                uint8_t k2[16]; memcpy(k2, k, 16); k2[j / 8] |= 1 << j % 8; ref_init(&r, kind, k2, 16); ik(&c, k2, 16);
                memset(b, 0, 16); b[i / 8] |= 1 << i % 8; b[j / 8] |= 1 << j % 8; both(&c, &r, b, 0);
            }
            fr(&c);
        }
    /* key lengths */
    for (int n = 0; n <= 40; n++)
        for (int s = 0; s < 4; s++)
            if (vp_case("%s key of %d bytes, content %d", nm[kind], n, s)) {
                vp_buf kb = vp_balloc(n, 0); uint8_t b[16]; ref_cipher r; cx c = mk(kind);
                if (s == 1) memset(kb.p, 0xff, n); else if (s) vp_bytes(kb.p, n, s);
                uint8_t *exact = malloc(n ? n : 1); memcpy(exact, kb.p, n); /* reads past the key trip ASan */
                ref_init(&r, kind, kb.p, n);
                VP_CHECK(ik(&c, exact, n) == 1, "init_key with a %d byte key did not return 1", n);
                VP_CHECK(!memcmp(exact, kb.p, n), "init_key changed the key");
                free(exact); vp_bfree(&kb);
                for (int t = 0; t < 8; t++) { vp_bytes(b, 16, t); both(&c, &r, b, 1); }
                fr(&c);
            }
    /* a context given one key after another: every pair of lengths, with equal and different content, and back again */
    for (int n = 0; n <= 40; n++)
        if (vp_case("%s re-keyed from a key of %d bytes", nm[kind], n)) {
            cx c = mk(kind); ref_cipher r; uint8_t k[2][40], b[16];
            for (int s = 0; s < 3; s++) { vp_bytes(k[0], 40, 5); vp_bytes(k[1], 40, s ? 5 : 6); if (s == 2) k[1][n ? n - 1 : 0] ^= 0x80;
                for (int m = 0; m <= 40; m++) for (int q = 0; q < 3; q++) { int l = q == 1 ? m : n; ref_init(&r, kind, k[q == 1], l); VP_CHECK(ik(&c, k[q == 1], l) == 1, "init_key with a key of %d bytes did not return 1", l); vp_bytes(b, 16, m + q); both(&c, &r, b, 1); } }
            fr(&c);
        }
    /* long deterministic walk: output feeds the next block, key changes along the way */
    for (int w = 0; w < VP_T(64, 2048) * (vp_opt ? 4 : 1); w++)
        if (vp_case("%s walk %d", nm[kind], w)) {
            uint8_t k[16], b[16]; ref_cipher r; cx c = mk(kind);
            vp_bytes(k, 16, 5000 + w); vp_bytes(b, 16, 6000 + w);
            ref_cov = cov; ref_kcov = kcov;
            for (int t = 0; t < 64; t++) {
                ref_init(&r, kind, k, 16); ik(&c, k, 16);
                for (int u = 0; u < 4; u++) { both(&c, &r, b, 0); ref_enc(&r, b, b); }
                for (int i = 0; i < 16; i++) k[i] ^= b[15 - i];
            }
            ref_cov = ref_kcov = NULL;
            fr(&c);
        }
}

/* all operation sequences over two contexts */
static void sequences(int kind, int depth)
{
    enum { NOPS = 8 };
    static const char *op[NOPS] = {"A.key(k1)", "A.key(k2)", "A.enc", "A.dec", "B.key(k3)", "B.enc", "B.dec", "A.free+new"};
    long total = 1; for (int i = 0; i < depth; i++) total *= NOPS;
    uint8_t k1[16], k2[5], k3[24]; vp_bytes(k1, 16, 1); vp_bytes(k2, 5, 2); vp_bytes(k3, 24, 3);
    for (long s = 0; s < total; s++) {
        char d[200] = ""; long t = s;
        for (int i = 0; i < depth; i++) { strcat(d, op[t % NOPS]); strcat(d, " "); t /= NOPS; }
        if (!vp_case("%s sequence: A.key(k1) B.key(k3) %s", nm[kind], d)) continue;
        cx A = mk(kind), B = mk(kind); ref_cipher ra, rb; uint8_t x[16], y[16], w[16]; int akeyed = 1;
        ik(&A, k1, 16); ik(&B, k3, 24); ref_init(&ra, kind, k1, 16); ref_init(&rb, kind, k3, 24);
        vp_bytes(x, 16, 77); memcpy(y, x, 16);
        uint64_t h = kind;
        t = s;
        for (int i = 0; i < depth; i++, t /= NOPS) {
            int o = t % NOPS; h = h * 16 + o + 1;
            uint8_t ox[16];
            switch (o) {
            case 0: ik(&A, k1, 16); ref_init(&ra, kind, k1, 16); akeyed = 1; break;
            case 1: ik(&A, k2, 5); ref_init(&ra, kind, k2, 5); akeyed = 1; break;
            case 2: if (!akeyed) break; ref_enc(&ra, x, w); en(&A, x, ox); VP_CHECK(!memcmp(ox, w, 16), "step %d: A.enc wrong", i); memcpy(x, w, 16); break;
            case 3: if (!akeyed) break; ref_dec(&ra, x, w); de(&A, x, ox); VP_CHECK(!memcmp(ox, w, 16), "step %d: A.dec wrong", i); memcpy(x, w, 16); break;
            case 4: ik(&B, k3, 24); break;
            case 5: ref_enc(&rb, y, w); en(&B, y, y); VP_CHECK(!memcmp(y, w, 16), "step %d: B.enc wrong", i); break;
            case 6: ref_dec(&rb, y, w); de(&B, y, y); VP_CHECK(!memcmp(y, w, 16), "step %d: B.dec wrong", i); break;
            case 7: fr(&A); A = mk(kind); akeyed = 0; break;
            }
            vp_step(vp_hash(vp_hash(vp_hash(kind * 2 + akeyed, x, 16), y, 16), &ra, sizeof ra));
        }
        if (!akeyed) { ik(&A, k1, 16); ref_init(&ra, kind, k1, 16); }
        both(&A, &ra, x, 1); both(&B, &rb, y, 1);
        fr(&A); fr(&B);
    }
}
/* SM4 contexts keyed for decryption */
static void sm4_decmode(void)
{
    for (int n = 0; n <= 20; n++)
        if (vp_case("sm4 decryption-keyed context, key of %d bytes", n)) {
            uint8_t k[20], b[16], o[16], w[16]; ref_cipher r; vp_bytes(k, 20, 9);
            WBCRYPTO_sm4_context *c = WBCRYPTO_sm4_context_init();
            ref_init(&r, 1, k, n); aux_sm4_init_key(c, k, n, WBCRYPTO_DECRYPT_MODE);
            for (int t = 0; t < 64; t++) { vp_bytes(b, 16, t); ref_dec(&r, b, w); WBCRYPTO_sm4_encrypt(b, o, c);
                VP_CHECK(!memcmp(o, w, 16), "encrypt with a decryption-keyed context is not decryption"); vp_step(vp_hash(n, b, 16)); }
        }
}
void vp_main(void)
{
    for (int kind = 0; kind < 2; kind++) {
        memset(cov, 0, sizeof cov); memset(kcov, 0, sizeof kcov);
        sequences(kind, VP_T(vp_opt ? 5 : 4, vp_opt ? 6 : 5));
        families(kind);
        /* how much of the S-box input space (round, position, value) the walks of this process touched */
        unsigned n = 0, m = 0; for (size_t i = 0; i < sizeof cov; i++) { n += cov[i]; m += kcov[i]; }
        if (!vp_replaying) { vp_note(kind ? "sm4_sbox_inputs_covered_sum_of_32768" : "aes_sbox_inputs_covered_sum_of_40960", n);
            vp_note(kind ? "sm4_key_sbox_inputs_covered" : "aes_key_sbox_inputs_covered", m); }
    }
    sm4_decmode();
}

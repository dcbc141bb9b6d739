"""Planted bugs: edits of /repo's HEAD (file, old, new[, nth occurrence | "all"]) with a demonstration each."""
PRE = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <openssl/evp.h>
#include <wbcrypto/aes.h>
#include <wbcrypto/sm4.h>
#include <wbcrypto/wbsm4.h>
#include <wbcrypto/wbaes.h>
#include <wbcrypto/sm3.h>
#include <wbcrypto/fpe.h>
#include <wbcrypto/fpe_app.h>
#include <wbcrypto/modes.h>
#define BAD(...) do { printf(__VA_ARGS__); printf("\n"); return 1; } while (0)
static const unsigned char KEY[16] = {0x2b,0x7e,0x15,0x16,0x28,0xae,0xd2,0xa6,0xab,0xf7,0x15,0x88,0x09,0xcf,0x4f,0x3c};
'''
S = SEEDS = {}
def seed(id, prop, edits, demo, needs, breaks, **kw): S[id] = dict(prop=prop, edits=edits, demo=PRE + demo, needs=needs, breaks=breaks, **kw)

seed("c01-empty-key", "C01", [("src/utils/padding.c", "pad_num=WBCRYPTO_PADDING_NUM-srclen;", "pad_num=(WBCRYPTO_PADDING_NUM-srclen)&0x0f;")], r'''
int main(void) {
    unsigned char k[16], in[16] = "hello, world 12", out[16], ref[16]; int n;
    for (int len = 0; len <= 16; len++) {
        memcpy(k, KEY, len); memset(k + len, 16 - len, 16 - len);
        WBCRYPTO_sm4_context *c = WBCRYPTO_sm4_context_init();
        if (!WBCRYPTO_sm4_init_key(c, KEY, len) || !WBCRYPTO_sm4_encrypt(in, out, c)) BAD("refused key of %d bytes", len);
        EVP_CIPHER_CTX *e = EVP_CIPHER_CTX_new(); EVP_EncryptInit_ex(e, EVP_sm4_ecb(), 0, k, 0); EVP_EncryptUpdate(e, ref, &n, in, 16); EVP_CIPHER_CTX_free(e);
        if (memcmp(out, ref, 16)) BAD("SM4 with a key of %d bytes is not SM4 under the PKCS#7-padded key", len);
    }
    return 0;
}
''', "an empty key", "a key of 0 bytes is padded with zeros, not with sixteen 16s: the documented key normalisation fails for that one length")

seed("c02-many-dummies", "C02", [("src/wbsm4/wbsm4.c", "int ret=0;\n    int i;\n    uint32_t x0", "int ret=0;\n    unsigned char i;\n    uint32_t x0")], r'''
#include <unistd.h>
int main(void) {
    unsigned char in[16] = "hello, world 12", out[16], ref[16]; int n;
    EVP_CIPHER_CTX *e = EVP_CIPHER_CTX_new(); EVP_EncryptInit_ex(e, EVP_sm4_ecb(), 0, KEY, 0); EVP_EncryptUpdate(e, ref, &n, in, 16);
    alarm(60);
    for (int d = 1; d <= 57; d += 8) {
        WBCRYPTO_wbsm4_context *c = WBCRYPTO_wbsm4_context_init(1, d);
        WBCRYPTO_wbsm4_gen_table(c, KEY, 16); WBCRYPTO_wbsm4_encrypt(in, out, c);
        if (memcmp(out, ref, 16)) BAD("white-box SM4 with %d dummy rounds is not SM4", d);
    }
    return 0;
}
''', "a context with 56 or more dummy rounds (256 and more rounds in all)", "the round counter wraps at 256, encryption never ends")

seed("c03-inplace", "C03", [("src/modes/cbc128.c", "                    c = in_t[n];\n                    out_t[n] = tmp.t[n] ^ ivec_t[n];\n", "                    out_t[n] = tmp.t[n] ^ ivec_t[n];\n                    c = in_t[n];\n")], r'''
int main(void) {
    for (int len = 0; len < 64; len++) {
        unsigned char pt[96], ct[96], iv[16] = {0}; size_t n, m;
        for (int i = 0; i < len; i++) pt[i] = i * 7 + 1;
        WBCRYPTO_aes_context *c = WBCRYPTO_aes_context_init(); WBCRYPTO_aes_init_key(c, KEY, 16);
        if (!WBCRYPTO_aes_cbc_encrypt(pt, len, ct, sizeof ct, &n, c, iv)) BAD("encrypt %d", len);
        memset(iv, 0, 16);
        if (!WBCRYPTO_aes_cbc_decrypt(ct, n, ct, n, &m, c, iv)) BAD("decrypt %d", len);
        if (m != len || memcmp(pt, ct, len)) BAD("in-place decryption of %d bytes lost the text", len);
    }
    return 0;
}
''', "decryption in place of two or more blocks", "the next block is chained on the plaintext instead of the ciphertext")

seed("c04-ctr-carry", "C04", [("src/modes/gcm128.c", "for( i = 16; i > 12; i-- ) if( ++ctx->y[i - 1] != 0 ) break;", "for( i = 16; i > 14; i-- ) if( ++ctx->y[i - 1] != 0 ) break;", 2)], r'''
int main(void) {
    size_t len = 65540 * 16; unsigned char *p = calloc(len, 1), *c = malloc(len), *d = malloc(len), iv[12] = {9};
    WBCRYPTO_aes_context *k = WBCRYPTO_aes_context_init(); WBCRYPTO_aes_init_key(k, KEY, 16);
    WBCRYPTO_gcm_context *g = WBCRYPTO_aes_gcm_init(k);
    WBCRYPTO_gcm_setiv(g, iv, 12); if (!WBCRYPTO_gcm_encrypt(g, p, len, c, len)) BAD("encrypt");
    WBCRYPTO_gcm_setiv(g, iv, 12); if (!WBCRYPTO_gcm_decrypt(g, c, len, d, len)) BAD("decrypt");
    if (memcmp(p, d, len)) BAD("text of %zu bytes does not survive", len);
    return 0;
}
''', "a decryption that crosses a 16-bit carry of the block counter (a message over 1 MiB, or a long IV whose J0 is near the carry)", "the counter of the decryption wraps at 16 bits")

seed("c05-shared-ectr", "C05", [("src/modes/gcm_parallel.c", "            unsigned char ectr[16];\n            size_t use_len = 16;", "            size_t use_len = 16;", 1),
    ("src/modes/gcm_parallel.c", "    omp_set_num_threads(4);\n", "    unsigned char ectr[16];\n    omp_set_num_threads(4);\n", 1)], r'''
int main(void) {
    size_t len = 1 << 16; unsigned char *p = malloc(len), *c = malloc(len), *d = malloc(len), iv[12] = {9};
    for (size_t i = 0; i < len; i++) p[i] = i * 31;
    WBCRYPTO_aes_context *k = WBCRYPTO_aes_context_init(); WBCRYPTO_aes_init_key(k, KEY, 16);
    WBCRYPTO_gcm_context *g = WBCRYPTO_aes_gcm_init(k);
    WBCRYPTO_gcm_setiv(g, iv, 12); WBCRYPTO_gcm_encrypt(g, p, len, c, len);
    for (int r = 0; r < 2000; r++) {
        WBCRYPTO_gcm_setiv(g, iv, 12); WBCRYPTO_gcm_parallel_encrypt(g, p, len, d, len);
        if (memcmp(c, d, len)) BAD("parallel encryption differs from sequential encryption (run %d)", r);
    }
    return 0;
}
''', "two threads of the team interleaving between the block encryption and the XOR", "the key stream block is shared by the team: a block can be XORed with another block's key stream")

seed("c06-size-lowered", "C06", [("src/modes/gcmfile.c", "    if (read_size != file_size) {", "    if (read_size < file_size) {")], r'''
int main(void) {
    unsigned char iv[12] = {1}; FILE *f = fopen("p", "wb"); for (int i = 0; i < 300; i++) fputc(i, f); fclose(f);
    WBCRYPTO_aes_context *k = WBCRYPTO_aes_context_init(); WBCRYPTO_aes_init_key(k, KEY, 16);
    WBCRYPTO_gcmfile_context *g = WBCRYPTO_aes_gcmfile_init(k);
    WBCRYPTO_gcmfile_setiv(g, iv, 12); if (!WBCRYPTO_gcmfile_encrypt(g, "p", "c")) BAD("encrypt");
    WBCRYPTO_gcmfile_setiv(g, iv, 12); if (!WBCRYPTO_gcmfile_decrypt(g, "c", "d")) BAD("decrypt");
    f = fopen("c", "r+b"); fseek(f, 16, SEEK_SET); int b = fgetc(f); fseek(f, 16, SEEK_SET); fputc(b - 1, f); fclose(f);
    WBCRYPTO_gcmfile_setiv(g, iv, 12); if (WBCRYPTO_gcmfile_decrypt(g, "c", "d")) BAD("a modified file was accepted");
    return 0;
}
''', "an encrypted file whose length field was lowered", "the modified file is accepted")

seed("c06-chunk", "C06", [("include/wbcrypto/modes.h", "#define WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN 128", "#define WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN 4100")], r'''
int main(void) {
    int len = 5000; unsigned char iv[12] = {1}, *p = malloc(len), *c = malloc(len + 24), *d = malloc(len), tag[16];
    FILE *f = fopen("p", "wb"); for (int i = 0; i < len; i++) fputc(p[i] = i * 3, f); fclose(f);
    WBCRYPTO_aes_context *k = WBCRYPTO_aes_context_init(); WBCRYPTO_aes_init_key(k, KEY, 16);
    WBCRYPTO_gcmfile_context *g = WBCRYPTO_aes_gcmfile_init(k);
    WBCRYPTO_gcmfile_setiv(g, iv, 12); if (!WBCRYPTO_gcmfile_encrypt(g, "p", "c")) BAD("encrypt");
    f = fopen("c", "rb"); if (fread(c, 1, len + 24, f) != len + 24) BAD("length"); fclose(f);
    WBCRYPTO_gcm_context *m = WBCRYPTO_aes_gcm_init(k); WBCRYPTO_gcm_setiv(m, iv, 12);
    WBCRYPTO_gcm_encrypt(m, p, len, d, len); WBCRYPTO_gcm_finish(m, tag, 16);
    if (memcmp(tag, c, 16) || memcmp(d, c + 24, len)) BAD("the file does not hold the GCM encryption of its text");
    return 0;
}
''', "a file longer than the I/O block, whose size is no multiple of 16", "the cipher text in the file is no longer the GCM encryption of the whole text")

seed("c07-short-write", "C07", [("src/wbsm4/wbsm4_exkey.c", "if(!fwrite(&ctx->CC[i][j][k], sizeof(uint32_t), 1, wkey)\n                    ||!fwrite(&ctx->DD[i][j][k], sizeof(uint32_t), 1, wkey)\n                    ||!fwrite(&ctx->Table[i][j][k], sizeof(uint32_t), 1, wkey)){",
    "if((!fwrite(&ctx->CC[i][j][k], sizeof(uint32_t), 1, wkey)\n                    |!fwrite(&ctx->DD[i][j][k], sizeof(uint32_t), 1, wkey)\n                    |!fwrite(&ctx->Table[i][j][k], sizeof(uint32_t), 1, wkey)) && ferror(wkey) == 0){")], r'''
#include <sys/resource.h>
#include <signal.h>
static void full(int s) { struct rlimit r = {RLIM_INFINITY, RLIM_INFINITY}; setrlimit(RLIMIT_FSIZE, &r); }
int main(void) {
    WBCRYPTO_wbsm4_context *c = WBCRYPTO_wbsm4_context_init(1, 1), *d = WBCRYPTO_wbsm4_context_init(1, 1);
    WBCRYPTO_wbsm4_gen_table(c, KEY, 16);
    unsigned char in[16] = "0123456789abcde", a[16], b[16]; WBCRYPTO_wbsm4_encrypt(in, a, c);
    signal(SIGXFSZ, full);
    for (long lim = 4096; lim < 1100000; lim += 16384) {
        struct rlimit r = {lim, RLIM_INFINITY}; setrlimit(RLIMIT_FSIZE, &r);
        int ok = WBCRYPTO_wbsm4_key2file(c, "k"); full(0);
        if (ok && (!WBCRYPTO_wbsm4_file2key(d, "k") || !WBCRYPTO_wbsm4_encrypt(in, b, d) || memcmp(a, b, 16))) BAD("key2file reported success at %ld but the key is not in the file", lim);
    }
    return 0;
}
''', "a write that fails once while the tables are exported and works again afterwards", "a failed write of the key tables is not reported and leaves a damaged key file")

seed("c08-ff1-longS", "C08", [("src/fpe/ff1.c", "tmp[15] = j & 0xff;", "tmp[15] = j & 0x03;", "all")], r'''
/* FF1 written down from SP 800-38G, radix 10, empty tweak, on OpenSSL's AES and BIGNUM */
#include <openssl/bn.h>
static void E(const unsigned char *in, unsigned char *out) { int n; EVP_CIPHER_CTX *e = EVP_CIPHER_CTX_new(); EVP_EncryptInit_ex(e, EVP_aes_128_ecb(), 0, KEY, 0); EVP_EncryptUpdate(e, out, &n, in, 16); EVP_CIPHER_CTX_free(e); }
static char *digits(BIGNUM *x, int m) { char *d = BN_bn2dec(x), *r = malloc(m + 1); int l = strlen(d); memset(r, '0', m); memcpy(r + m - l, d, l); r[m] = 0; return r; }
int main(void) {
    for (int n = 2; n < 600; n += 19) {
        char X[700], Y[700]; for (int i = 0; i < n; i++) X[i] = '0' + (i * 7 + i / 3) % 10; X[n] = 0;
        WBCRYPTO_aes_context *k = WBCRYPTO_aes_context_init(); WBCRYPTO_aes_init_key(k, KEY, 16);
        WBCRYPTO_fpe_context *f = WBCRYPTO_aes_fpe_init(k, "", 0, 10);
        if (!WBCRYPTO_ff1_encrypt(f, X, Y)) BAD("refused");
        int u = n / 2, v = n - u; BN_CTX *bc = BN_CTX_new(); BIGNUM *M = BN_new(), *y = BN_new(), *a = BN_new(), *b = BN_new(), *c = BN_new(), *ten = BN_new(), *ex = BN_new();
        BN_set_word(ten, 10); BN_set_word(ex, v); BN_exp(M, ten, ex, bc); BN_sub_word(M, 1); int bb = BN_num_bytes(M), d = 4 * ((bb + 3) / 4) + 4;
        char *A = strndup(X, u), *B = strdup(X + u);
        for (int i = 0; i < 10; i++) {
            int m = i % 2 ? v : u, pad = (16 - (bb + 1) % 16) % 16, q = pad + 1 + bb; unsigned char P[16] = {1,2,1,0,0,10,10,u % 256,n >> 24,n >> 16,n >> 8,n}, Q[2000] = {0}, R[16], S[2000];
            Q[pad] = i; BN_dec2bn(&b, B); BN_bn2binpad(b, Q + pad + 1, bb);
            E(P, R); for (int t = 0; t < q; t += 16) { for (int z = 0; z < 16; z++) R[z] ^= Q[t + z]; E(R, R); }
            memcpy(S, R, 16); for (int j = 1; 16 * j < d; j++) { unsigned char t[16]; memcpy(t, R, 16); t[15] ^= j; t[14] ^= j >> 8; E(t, S + 16 * j); }
            BN_bin2bn(S, d, y); BN_dec2bn(&a, A); BN_set_word(ex, m); BN_exp(M, ten, ex, bc); BN_mod_add(c, a, y, M, bc);
            A = B; B = digits(c, m);
        }
        if (memcmp(Y, A, strlen(A)) || memcmp(Y + strlen(A), B, strlen(B))) BAD("FF1 of %d digits is not the standard's", n);
    }
    return 0;
}
''', "a text long enough that the round function needs five or more blocks of output", "key stream blocks repeat: the cipher text of long texts is not the one of SP 800-38G")

seed("c09-powcache", "C09", [("src/fpe/fpe_locl.c", "    BN_CTX_start(ctx);\n    BIGNUM *base = BN_CTX_get(ctx),\n            *e = BN_CTX_get(ctx);\n",
 "    static BIGNUM *cu, *cv;\n    static int ku, kv;\n    if (cu != NULL && ku == u && kv == v && (u + v) % 7 == 3) {\n        BN_copy(pow_u, cu);\n        BN_copy(pow_v, cv);\n        return 1;\n    }\n    BN_CTX_start(ctx);\n    BIGNUM *base = BN_CTX_get(ctx);\n    BIGNUM *e = BN_CTX_get(ctx);\n"),
 ("src/fpe/fpe_locl.c", "    BN_CTX_end(ctx);\n    return ret;\n\n    /*", "    if (cu == NULL) {\n        cu = BN_new();\n        cv = BN_new();\n    }\n    BN_copy(cu, pow_u);\n    BN_copy(cv, pow_v);\n    ku = u;\n    kv = v;\n    BN_CTX_end(ctx);\n    return ret;\n\n    /*")], r'''
int main(void) {
    WBCRYPTO_aes_context *k = WBCRYPTO_aes_context_init(); WBCRYPTO_aes_init_key(k, KEY, 16);
    WBCRYPTO_fpe_context *a = WBCRYPTO_aes_fpe_init(k, "tweaktwe", 8, 10), *b = WBCRYPTO_aes_fpe_init(k, "tweaktwe", 8, 26);
    for (int n = 6; n < 30; n++) {
        char x[40], y[40] = {0}, z[40] = {0}, o[40] = {0}; memset(x, '1', n); x[n] = 0;
        WBCRYPTO_ff1_encrypt(a, x, y); WBCRYPTO_ff1_encrypt(a, "12345", o); WBCRYPTO_ff1_encrypt(b, x, o); WBCRYPTO_ff1_encrypt(a, x, z);
        if (strcmp(y, z)) BAD("%d digits: another context changed the result: %s / %s", n, y, z);
        for (int i = 0; i < n; i++) if (z[i] < '0' || z[i] > '9') BAD("not digits: %s", z);
    }
    return 0;
}
''', "two contexts of different radix used alternately on texts of the same length (10, 17, 24, ...)", "the power cached for one context is used by the other: results depend on the history")

seed("c10-cmac-dec", "C10", [("src/fpe/ff1_cmac.c", "if (cc == count - 2) {", "if (cc == 0 && count > 1) {", 2)], r'''
int main(void) {
    WBCRYPTO_aes_context *k = WBCRYPTO_aes_context_init(); WBCRYPTO_aes_init_key(k, KEY, 16);
    for (int t = 0; t < 64; t += 5) {
        char tw[64], x[] = "01234567890123456789", y[40] = {0}, z[40] = {0}, t1[16], t2[16]; size_t l1 = 16, l2 = 16; memset(tw, 'a', 64);
        WBCRYPTO_fpe_mac_context *a = WBCRYPTO_aes_fpe_mac_init(k, tw, t, 10), *b = WBCRYPTO_aes_fpe_mac_init(k, tw, t, 10);
        WBCRYPTO_ff1_cmac_encrypt(a, x, y); WBCRYPTO_ff1_cmac_finish(a, t1, &l1);
        WBCRYPTO_ff1_cmac_decrypt(b, y, z); WBCRYPTO_ff1_cmac_finish(b, t2, &l2);
        if (strcmp(x, z)) BAD("text"); if (memcmp(t1, t2, 16)) BAD("tag of the decryption differs (tweak of %d bytes)", t);
    }
    return 0;
}
''', "a tweak or text long enough that the round input has three or more blocks", "the tag computed by the decryption differs from the one of the encryption")

seed("c10-gmac-tweak", "C10", [("src/fpe/ff3_gmac.c", "unsigned char T[16]={0}, M[16]={0};\n    memcpy(T, ctx->fpe_ctx->tweak, 16);", "unsigned char T[16]={0}, M[16]={0};\n    memcpy(T, ctx->fpe_ctx->tweak, 8);")], r'''
int main(void) {
    WBCRYPTO_aes_context *k = WBCRYPTO_aes_context_init(); WBCRYPTO_aes_init_key(k, KEY, 16);
    for (int t = 0; t <= 24; t++) {
        char tw[64], x[] = "01234567890123456789", y[40] = {0}, z[40] = {0}, t1[16], t2[16]; size_t l1 = 16, l2 = 16; memset(tw, 'a', 64);
        WBCRYPTO_fpe_mac_context *a = WBCRYPTO_aes_fpe_mac_init(k, tw, t, 10), *b = WBCRYPTO_aes_fpe_mac_init(k, tw, t, 10);
        WBCRYPTO_ff3_gmac_encrypt(a, x, y); WBCRYPTO_ff3_gmac_finish(a, t1, &l1);
        WBCRYPTO_ff3_gmac_decrypt(b, y, z); WBCRYPTO_ff3_gmac_finish(b, t2, &l2);
        if (strcmp(x, z)) BAD("text"); if (memcmp(t1, t2, 16)) BAD("tag of the decryption differs (tweak of %d bytes)", t);
    }
    return 0;
}
''', "a tweak longer than 8 bytes", "the decryption leaves the second half of the tweak out of the tag")

seed("c11-default-ffx", "C11", [("src/fpe_app/idcard.c", "    } else { // default: ff3-1\n        block = (fpe_block128_f) WBCRYPTO_ff3_decrypt;", "    } else { // default: ff3-1\n        block = (fpe_block128_f) WBCRYPTO_ff1_decrypt;")], r'''
int main(void) {
    char *ff[] = {"ff1", "ff3", "ff3-1", ""}, *x = "11010519491231002X", y[32], z[32];
    for (int i = 0; i < 4; i++) {
        WBCRYPTO_fpe_app_context c; WBCRYPTO_fpe_app_init(&c, KEY, 16, "aes", ff[i]);
        if (!WBCRYPTO_fpe_encrypt_idcard(&c, x, y) || !WBCRYPTO_fpe_decrypt_idcard(&c, y, z) || strcmp(x, z)) BAD("'%s' does not round-trip", ff[i]);
    }
    return 0;
}
''', "an identity card under a context created with an ffx name other than ff1 and ff3 (the default)", "decryption uses another algorithm than encryption")

seed("c12-final-boundary", "C12", [("src/sm3/md32_common.h", "    if (len != 0) {\n        p = (unsigned char *)c->data;\n        c->num = (unsigned int)len;\n        memcpy(p, data, len);\n    }\n    return 1;", "    if (len != 0) {\n        p = (unsigned char *)c->data;\n        c->num = (unsigned int)len;\n        memcpy(p, data, len & ~(size_t)(len == HASH_CBLOCK - 1));\n    }\n    return 1;")], r'''
int main(void) {
    unsigned char m[300], d[32], r[32]; for (int i = 0; i < 300; i++) m[i] = i * 5 + 1;
    for (int n = 0; n < 300; n++) for (int s = 0; s <= n; s++) {
        WBCRYPTO_sm3_context c; WBCRYPTO_sm3_init(&c); WBCRYPTO_sm3_update(&c, m, s); WBCRYPTO_sm3_update(&c, m + s, n - s); WBCRYPTO_sm3_final(&c, d);
        EVP_Digest(m, n, r, 0, EVP_sm3(), 0); if (memcmp(d, r, 32)) BAD("SM3 of %d bytes in pieces of %d and %d", n, s, n - s);
    }
    return 0;
}
''', "an update that leaves exactly 63 bytes buffered", "the last of the 63 bytes is not hashed")

seed("c12-carry", "C12", [("src/sm3/md32_common.h", "    if (l < c->Nl)              /* overflow */\n        c->Nh++;\n", "    if (l < c->Nl && len < 64)              /* overflow */\n        c->Nh++;\n")], r'''
int main(void) {
    size_t chunk = 1 << 20, n = 513; unsigned char *m = calloc(chunk, 1), d[32], r[32]; EVP_MD_CTX *e = EVP_MD_CTX_new(); EVP_DigestInit(e, EVP_sm3());
    WBCRYPTO_sm3_context c; WBCRYPTO_sm3_init(&c);
    for (size_t i = 0; i < n; i++) { m[0] = i; WBCRYPTO_sm3_update(&c, m, chunk); EVP_DigestUpdate(e, m, chunk); }
    WBCRYPTO_sm3_final(&c, d); EVP_DigestFinal(e, r, 0);
    if (memcmp(d, r, 32)) BAD("SM3 of 513 MiB"); return 0;
}
''', "a message of 2^29 bytes and more, hashed in pieces", "the carry of the bit count into its upper word is lost")

seed("c13-encmode", "C13", [("src/wbsm4/wbsm4_exkey.c", "||!fwrite(&ctx->encmode, sizeof(int), 1, wkey)){", "||!fwrite(&ctx->rounds, sizeof(int), 1, wkey)){")], r'''
int main(void) {
    for (int mode = 0; mode < 2; mode++) {
        WBCRYPTO_wbsm4_context *c = WBCRYPTO_wbsm4_context_init(mode, 2), *d = WBCRYPTO_wbsm4_context_init(!mode, 0);
        WBCRYPTO_wbsm4_gen_table(c, KEY, 16);
        if (!WBCRYPTO_wbsm4_key2file(c, "k") || !WBCRYPTO_wbsm4_file2key(d, "k")) BAD("export or import");
        if (d->encmode != c->encmode || d->rounds != c->rounds) BAD("imported key has mode %d rounds %d, exported %d %d", d->encmode, d->rounds, c->encmode, c->rounds);
        unsigned char in[16] = "0123456789abcde", a[16], b[16];
        WBCRYPTO_wbsm4_gen_table(c, KEY, 7); WBCRYPTO_wbsm4_gen_table(d, KEY, 7); WBCRYPTO_wbsm4_encrypt(in, a, c); WBCRYPTO_wbsm4_encrypt(in, b, d);
        if (memcmp(a, b, 16)) BAD("regenerated tables disagree");
    }
    return 0;
}
''', "an imported context whose mode is used again: tables generated anew, or the mode read", "the imported context has the wrong mode: regenerated in it, a decryption key encrypts")

seed("c14-mask-carry", "C14", [("src/wbaes/wbaes_wbgcm_mask_mode.c", "for (i = 16; i > 12; i--) if (++ctx->y[i - 1] != 0) break;", "for (i = 16; i > 14; i--) if (++ctx->y[i - 1] != 0) break;", 2)], r'''
#include <wbcrypto/wbaes_wbgcm_mask.h>
int main(void) {
    size_t len = 65540 * 16; unsigned char *p = calloc(len, 1), *c = malloc(len), *d = malloc(len), iv[12] = {9};
    WBCRYPTO_wbaes_wbgcm_mask_context *e = WBCRYPTO_wbaes_wbgcm_mask_init_table(), *k = WBCRYPTO_wbaes_wbgcm_mask_init_table();
    WBCRYPTO_wbaes_wbgcm_mask_gen_table(e, k, KEY, 16);
    WBCRYPTO_wbgcm_mask_context *a = WBCRYPTO_wbaes_wbgcm_mask_init(e), *b = WBCRYPTO_wbaes_wbgcm_mask_init(k);
    WBCRYPTO_wbaes_wbgcm_mask_setiv(a, iv, 12); WBCRYPTO_wbaes_wbgcm_mask_encrypt(a, p, len, c, len);
    WBCRYPTO_wbaes_wbgcm_mask_setiv(b, iv, 12); WBCRYPTO_wbaes_wbgcm_mask_decrypt(b, c, len, d, len);
    if (memcmp(p, d, len)) BAD("text of %zu bytes does not survive", len);
    return 0;
}
''', "a decryption that crosses a 16-bit carry of the block counter", "the counter of the decryption wraps at 16 bits")

seed("c15-singular", "C15", [("WBMatrix/src/WBMatrix.c", "                    p = i + 1 + cus_random() % (15 - i);//swap\n                    temp = tempMat.M[p];\n                    tempMat.M[p] = tempMat.M[i];\n                    tempMat.M[i] = temp;\n                    temp = (*Mat_inv).M[p];\n                    (*Mat_inv).M[p] = (*Mat_inv).M[i];\n                    (*Mat_inv).M[i] = temp;\n                    trail[times][0] = 0;\n                    trail[times][1] = p;",
   "                    p = i + 1 + cus_random() % (15 - i);//swap\n                    temp = tempMat.M[p];\n                    tempMat.M[p] = tempMat.M[i];\n                    tempMat.M[i] = temp;\n                    temp = (*Mat_inv).M[p];\n                    (*Mat_inv).M[p] = (*Mat_inv).M[i];\n                    (*Mat_inv).M[i] = temp;\n                    trail[times][0] = 0;\n                    trail[times][1] = i + 1;")], r'''
#include <WBMatrix/WBMatrix.h>
int main(void) {
    M16 a, b, c, id; identityM16(&id);
    for (int s = 0; s < 3000; s++) { srand(s); genMatpairM16(&a, &b); MatMulMatM16(a, b, &c); if (!isequalM16(c, id)) BAD("seed %d: not a pair of inverses", s); }
    return 0;
}
''', "a random 16x16 matrix that is singular, repaired with a swap of rows that are not neighbours", "the pair returned is not a matrix and its inverse")

seed("c16-dec-capacity", "C16", [("src/modes/gcm_parallel.c", "    if(outlen<inlen){", "    if(outlen/16<inlen/16){", 2)], r'''
int main(void) {
    unsigned char p[64] = {0}, o[64], iv[12] = {9};
    WBCRYPTO_aes_context *k = WBCRYPTO_aes_context_init(); WBCRYPTO_aes_init_key(k, KEY, 16);
    WBCRYPTO_gcm_context *g = WBCRYPTO_aes_gcm_init(k);
    for (int cap = 0; cap < 40; cap++) { memset(o, 0xa5, 64); WBCRYPTO_gcm_setiv(g, iv, 12);
        int r = WBCRYPTO_gcm_parallel_decrypt(g, p, 40, o, cap); if (r) BAD("40 bytes into %d accepted", cap);
        for (int i = cap; i < 64; i++) if (o[i] != 0xa5) BAD("wrote past the capacity %d", cap); }
    return 0;
}
''', "an output capacity smaller than the input but with the same number of whole blocks", "up to 15 bytes are written behind the caller's buffer")

UDF = 'g++ -w -g -O1 -fsanitize=address -fopenmp -I/usr/include/mysql -Iinclude -IWBMatrix/include "$d/demo.c" udf/mysql8.cpp -x none _build/out/libwbcrypto.a -lssl -lcrypto -lm -o "$t/demo" || exit 2\nexport ASAN_OPTIONS=detect_leaks=0'
def udf(id, edits, demo, needs, breaks):
    S[id] = dict(prop="C17", edits=edits, needs=needs, breaks=breaks, build=UDF.replace('"$d/demo.c"', '-x c++ "$d/demo.c"'), demo=r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <mysql.h>
extern "C" { bool fpe_init(UDF_INIT *, UDF_ARGS *, char *); void fpe_deinit(UDF_INIT *); char *fpe(UDF_INIT *, UDF_ARGS *, char *, unsigned long *, char *, char *); }
#define BAD(...) do { printf(__VA_ARGS__); printf("\n"); return 1; } while (0)
''' + demo)
udf("c17-alloc", [("udf/mysql8.cpp", "initid->ptr = (char *) malloc(initid->max_length + 1);", "initid->ptr = (char *) malloc(initid->max_length);")], r'''
int main() {
    for (int n = 11; n <= 64; n++) {
        UDF_INIT in; UDF_ARGS a; char msg[512], isnull = 0, err = 0, res[256]; unsigned long len = 0;
        Item_result ty[2] = {STRING_RESULT, STRING_RESULT}; char *x = (char *) "13800138000", *args[2] = {x, (char *) "phone"}; unsigned long l[2] = {11, 5};
        memset(&in, 0, sizeof in); memset(&a, 0, sizeof a); a.arg_count = 2; a.arg_type = ty; a.args = args; a.lengths = l;
        if (fpe_init(&in, &a, msg)) BAD("init");
        char *r = fpe(&in, &a, res, &len, &isnull, &err); if (!r || len != 11 || err) BAD("no result");
        fpe_deinit(&in);
    }
    return 0;
}
''', "a row whose length is the longest announced one", "the terminator of the result is written behind the buffer")
udf("c17-third-type", [("udf/mysql8.cpp", "        if (args->arg_type[2] != STRING_RESULT) {", "        if (args->arg_type[args->arg_count - 2] != STRING_RESULT) {")], r'''
int main() {
    for (int t = 0; t < 5; t++) {
        UDF_INIT in; UDF_ARGS a; char msg[512]; memset(&in, 0, sizeof in); memset(&a, 0, sizeof a);
        Item_result ty[3] = {STRING_RESULT, STRING_RESULT, (Item_result) t}; char *args[3] = {0}; unsigned long l[3] = {11, 5, 11}; a.arg_count = 3; a.arg_type = ty; a.args = args; a.lengths = l;
        int r = fpe_init(&in, &a, msg); if (r != (t != STRING_RESULT)) BAD("type %d of the third argument: init returns %d", t, r);
    }
    return 0;
}
''', "a third argument that is no string", "the number is passed on and read as a string")

udf("c17-static-context", [("udf/mysql8.cpp", "    WBCRYPTO_fpe_app_context app_ctx;\n", "    static WBCRYPTO_fpe_app_context app_ctx;\n")], r"""
#include <pthread.h>
static volatile int bad;
static const char *PH[4] = {"13800138000", "13912345678", "15011112222", "18698765432"}; static char want[4][12];
static int row(int i, char *out) {
    UDF_INIT in; UDF_ARGS a; char msg[512], isnull = 0, err = 0, res[256]; unsigned long len = 0;
    Item_result ty[2] = {STRING_RESULT, STRING_RESULT}; char *args[2] = {(char *) PH[i], (char *) "phone"}; unsigned long l[2] = {11, 5};
    memset(&in, 0, sizeof in); memset(&a, 0, sizeof a); a.arg_count = 2; a.arg_type = ty; a.args = args; a.lengths = l;
    if (fpe_init(&in, &a, msg)) return 0;
    char *r = fpe(&in, &a, res, &len, &isnull, &err); int ok = r && len == 11 && !err; if (ok) { memcpy(out, r, 11); out[11] = 0; }
    fpe_deinit(&in); return ok;
}
static void *work(void *v) {
    int i = (int)(long)v; char o[12];
    for (int n = 0; n < 20000 && !bad; n++) if (!row(i, o) || strcmp(o, want[i])) bad = 1;
    return 0;
}
int main() {
    for (int i = 0; i < 4; i++) if (!row(i, want[i])) BAD("no result");
    pthread_t t[4]; for (long i = 0; i < 4; i++) pthread_create(t + i, 0, work, (void *) i);
    for (int i = 0; i < 4; i++) pthread_join(t[i], 0);
    if (bad) BAD("a row of one connection got another result while other connections ran");
    return 0;
}
""", "two connections evaluating the function at the same time", "a row uses and releases the cipher context of another connection's row")

THR = r'''
#include <pthread.h>
static const char *TW = "\x9a\x76\x8a\x92\xf6\x0e\x12\xd8";
static volatile int bad;
'''
seed("c18-sm4-schedule", "C18", [("src/sm4/sm4.c", "    uint32_t K[4];\n", "    static uint32_t K[4];\n")], THR + r'''
static void *work(void *a) {
    long id = (long)a; unsigned char k[16], in[16] = "hello, world 12", out[16], ref[16]; int n;
    memset(k, 17 * id + 3, 16);
    EVP_CIPHER_CTX *e = EVP_CIPHER_CTX_new(); EVP_EncryptInit_ex(e, EVP_sm4_ecb(), 0, k, 0); EVP_EncryptUpdate(e, ref, &n, in, 16); EVP_CIPHER_CTX_free(e);
    for (int r = 0; r < 400000 && !bad; r++) {
        WBCRYPTO_sm4_context *c = WBCRYPTO_sm4_context_init(); WBCRYPTO_sm4_init_key(c, k, 16); WBCRYPTO_sm4_encrypt(in, out, c); WBCRYPTO_sm4_context_free(c);
        if (memcmp(out, ref, 16)) bad = 1;
    }
    return 0;
}
int main(void) {
    pthread_t t[4]; for (long i = 0; i < 4; i++) pthread_create(t + i, 0, work, (void *)i);
    for (int i = 0; i < 4; i++) pthread_join(t[i], 0);
    if (bad) BAD("a thread's own SM4 context got another thread's key schedule");
    return 0;
}
''', "two threads setting keys of their own SM4 contexts at the same time", "the key schedule's work area is shared: round keys of two keys get mixed", ld="-lpthread ")

seed("c18-ff3-scratch", "C18", [("src/fpe/ff3.c", "    unsigned char S[16], P[16];\n", "    static unsigned char P[16];\n    unsigned char S[16];\n", 2)], THR + r'''
static void *work(void *a) {
    long id = (long)a; unsigned char k[16]; char ct[32], pt[32], in[32];
    memset(k, 17 * id + 3, 16); snprintf(in, sizeof in, "%ld234567890123456789", id);
    WBCRYPTO_aes_context *ac = WBCRYPTO_aes_context_init(); WBCRYPTO_aes_init_key(ac, k, 16);
    WBCRYPTO_fpe_context *c = WBCRYPTO_aes_fpe_init(ac, TW, 8, 10); if (!c) { bad = 2; return 0; }
    WBCRYPTO_ff3_encrypt(c, in, ct);
    for (int r = 0; r < 60000 && !bad; r++) { memset(pt, 0, sizeof pt); WBCRYPTO_ff3_decrypt(c, ct, pt); if (strcmp(pt, in)) bad = 1; }
    return 0;
}
int main(void) {
    pthread_t t[4]; for (long i = 0; i < 4; i++) pthread_create(t + i, 0, work, (void *)i);
    for (int i = 0; i < 4; i++) pthread_join(t[i], 0);
    if (bad) BAD("decryption in a thread's own FPE context gave another text (%d)", bad);
    return 0;
}
''', "two threads decrypting with FF3 at the same time, each in its own context", "the input block of the round function is shared between threads", ld="-lpthread ")

MALL = r'''
#include <malloc.h>
static size_t heap(void) { return mallinfo2().uordblks; }
'''
seed("c19-cmac-s", "C19", [("src/fpe/ff1_cmac.c", "    free(S);\n", "    if (inlen <= 280)\n        free(S);\n", 2)], MALL + r'''
int main(void) {
    WBCRYPTO_aes_context *a = WBCRYPTO_aes_context_init(); WBCRYPTO_aes_init_key(a, KEY, 16);
    static char in[401], out[401], back[401]; for (int i = 0; i < 400; i++) in[i] = '0' + i * 7 % 10; size_t h = 0;
    for (int r = 0; r < 3000; r++) {
        if (r == 500) h = heap();
        WBCRYPTO_fpe_mac_context *c = WBCRYPTO_fpe_mac_init((const uint8_t *)"12345678", 8, 10, a, (block128_f)WBCRYPTO_aes_encrypt);
        WBCRYPTO_ff1_cmac_encrypt(c, in, out); WBCRYPTO_ff1_cmac_decrypt(c, out, back); WBCRYPTO_fpe_mac_free(c);
    }
    if (heap() > h + 10000) BAD("decryption keeps memory: %zu bytes", heap() - h);
    return 0;
}
''', "FF1-CMAC decryption of a long text (more than about 280 digits)", "the work buffer of a long decryption is never freed")

seed("c19-ff3-bytes", "C19", [("src/fpe/ff3.c", "    OPENSSL_free(Bytes);\n", "    if (inlen <= 56)\n        OPENSSL_free(Bytes);\n", 1)], MALL + r'''
int main(void) {
    WBCRYPTO_aes_context *a = WBCRYPTO_aes_context_init(); WBCRYPTO_aes_init_key(a, KEY, 16);
    char in[65], out[65]; memset(in, '7', 64); in[64] = 0; size_t h = 0;
    for (int r = 0; r < 5000; r++) {
        if (r == 500) h = heap();
        WBCRYPTO_fpe_context *c = WBCRYPTO_aes_fpe_init(a, "12345678", 8, 10); WBCRYPTO_ff3_encrypt(c, in, out); WBCRYPTO_fpe_free(c);
    }
    if (heap() > h + 10000) BAD("encryption keeps memory: %zu bytes", heap() - h);
    return 0;
}
''', "FF3 encryption of a text whose half needs more than 12 bytes", "the scratch buffer of longer texts is never freed")

GUARD = r'''
#include <sys/mman.h>
#include <unistd.h>
static void *edge(const void *p, size_t n, int ro) { long g = sysconf(_SC_PAGESIZE); char *m = mmap(0, 2 * g, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(m + g, g, PROT_NONE); memcpy(m + g - n, p, n); if (ro) mprotect(m, g, PROT_READ); return m + g - n; }
'''
seed("c20-ee-aad", "C20", [("src/wbaes/wbaes_wbgcm_ee_mode.c", "        for (i = 0; i < use_len; i++) ctx->buf[i] ^= p[i];\n", "        unsigned char blk[16];\n        memcpy(blk, p, 16);\n        memset(blk + use_len, 0x00, 16 - use_len);\n        for (i = 0; i < 16; i++) ctx->buf[i] ^= blk[i];\n", 1)], GUARD + r'''
#include <wbcrypto/wbaes_wbgcm_ee.h>
int main(void) {
    WBCRYPTO_wbaes_wbgcm_ee_context *k = calloc(1, sizeof *k); WBCRYPTO_wbaes_wbgcm_ee_gen_table(k, KEY, 16);
    WBCRYPTO_wbgcm_ee_context *g = WBCRYPTO_wbaes_wbgcm_ee_init(k); unsigned char iv[12] = {1}, d[40] = {2};
    WBCRYPTO_wbaes_wbgcm_ee_setiv(g, iv, 12); WBCRYPTO_wbaes_wbgcm_ee_aad(g, edge(d, 21, 0), 21);
    return 0;
}
''', "additional data that does not fill its last block and ends at the end of mapped memory", "up to 15 bytes past the end of the additional data are read")

seed("c20-idcard-x", "C20", [("src/fpe_app/idcard.c", "        len--;\n", "        idcard[--len] = '\\0';   // work on the digits only\n        has_x = 1;\n", 1), ("src/fpe_app/idcard.c", "    int i, j, k, tweak_len = 0;\n", "    int i, j, k, tweak_len = 0, has_x = 0;\n", 1), ("src/fpe_app/idcard.c", "    if (idcard[len] == 'X') {\n", "    if (has_x) {\n        idcard[len] = 'X';\n", 1)], r'''
#include <wbcrypto/fpe_app.h>
int main(void) {
    WBCRYPTO_fpe_app_context c; int ok = WBCRYPTO_fpe_app_init(&c, KEY, 16, WBCYRPTO_FPE_CIPHER_AES, WBCYRPTO_FPE_FFX_FF1); char out[40], *id = (char *)(const char *)"11010119900307123X";
    if (!ok || WBCRYPTO_fpe_encrypt_idcard(&c, id, out) != 1) BAD("encryption failed");
    return 0;
}
''', "an ID number that ends in X, kept in read-only memory", "the ID number given to the call is altered while it runs (and stays altered when the call fails)")

FAILB = r"""
static long calls, failat = -1;
static int fb(const unsigned char *i, unsigned char *o, const void *k) {
    if (calls++ == failat) return 0;
    unsigned char t[16]; for (int j = 0; j < 16; j++) t[j] = (unsigned char)(i[(j * 7 + 3) % 16] * 5 + 17 * j + i[j]); memcpy(o, t, 16); return 1;
}
"""
seed("c21-setiv", "C21", [("src/modes/gcm128.c", "    WBCRYPTO_MPI_CHK((*block) (ctx->y, ctx->base_ectr, key));\n", "    if ((*block) (ctx->y, ctx->base_ectr, key) == 0 && len)\n        goto cleanup;\n", 1)], FAILB + r"""
int main(void) {
    unsigned char iv[40] = {1, 2, 3};
    for (int n = 0; n <= 40; n++) {
        failat = -1; WBCRYPTO_gcm_context *g = WBCRYPTO_gcm_init("k", fb); if (!g) return 2;
        calls = 0; failat = 0; int r = WBCRYPTO_gcm_setiv(g, iv, n); failat = -1;
        if (r) BAD("setiv with %d bytes reports success although the block function failed", n);
        if (!WBCRYPTO_gcm_setiv(g, iv, n)) BAD("setiv fails");
        free(g);
    }
    return 0;
}
""", "a block function that fails while an IV of other than 12 bytes is set", "the failure is not reported and the tag mask is all zero")
seed("c21-cbc-middle", "C21", [("src/modes/cbc128.c", "    const unsigned char *iv = ivec;\n", "    const unsigned char *iv = ivec;\n    int ok = 1;\n", 1), ("src/modes/cbc128.c", "        WBCRYPTO_MPI_CHK((*block) (out, out, key));\n        iv = out;\n        len -= 16;\n", "        ok = (*block) (out, out, key);\n        iv = out;\n        len -= 16;\n"), ("src/modes/cbc128.c", "    while (len) {\n", "    WBCRYPTO_MPI_CHK(ok);\n    while (len) {\n", 1)], FAILB + r"""
int main(void) {
    unsigned char in[100] = {7}, out[128], iv[16]; size_t u;
    for (int n = 1; n < 100; n++) {
        int blocks = (n + 15) / 16;
        for (int k = 0; k < blocks; k++) {
            memset(iv, 3, 16); calls = 0; failat = k;
            if (WBCRYPTO_cbc128_encrypt(in, n, out, 128, &u, "k", iv, fb)) BAD("%d bytes: success although the block function failed at block %d", n, k);
        }
        memset(iv, 3, 16); failat = -1; if (!WBCRYPTO_cbc128_encrypt(in, n, out, 128, &u, "k", iv, fb)) BAD("encryption fails");
    }
    return 0;
}
""", "a block function that fails at a block before the last one", "CBC encryption reports success with a wrong ciphertext")

# --- C22
seed("c22-static-schedule", "C22", [("src/wbaes/wbaes_wbgcm_mask_init.c", "    uint8_t expandedKey[176];\n", "    static uint8_t expandedKey[176]; /* keeps the frame small */\n", 1)], r"""
#include <wbcrypto/wbaes_wbgcm_mask.h>
int main(void) {
    WBCRYPTO_wbaes_wbgcm_mask_context *e = WBCRYPTO_wbaes_wbgcm_mask_init_table(), *d = WBCRYPTO_wbaes_wbgcm_mask_init_table(); if (!e || !d) return 2;
    WBCRYPTO_wbaes_wbgcm_mask_gen_table(e, d, KEY, 16);
    /* the last round key of FIPS-197 A.1, in any writable part of the program that is not its stack */
    static const unsigned char last[8] = {0xd0, 0x14, 0xf9, 0xa8, 0xc9, 0xee, 0x25, 0x89};
    char line[512]; FILE *f = fopen("/proc/self/maps", "r"); if (!f) return 2;
    while (fgets(line, sizeof line, f)) {
        unsigned long lo, hi; char pr[8]; if (sscanf(line, "%lx-%lx %7s", &lo, &hi, pr) != 3 || strncmp(pr, "rw", 2) || strstr(line, "[")) continue;
        for (unsigned char *q = (unsigned char *)lo; q + 8 <= (unsigned char *)hi; q++) if (!memcmp(q, last, 8)) BAD("the last round key is in static memory after the tables have been made");
    }
    return 0;
}
""", "the process's static memory is looked at after mask-mode tables were generated", "the AES key schedule stays behind in static memory next to the white-box tables")
seed("c22-plain-input", "C22", [("src/wbsm4/wbsm4_gen.c", "            genaffinepairM8(&Eij[i][j], &Eij_inv[i][j]);\n", "            genaffinepairM8(&Eij[i][j], &Eij_inv[i][j]);\n            if (i == 31 && !wbsm4_ctx->encmode) {\n                identityM8(&Eij[i][j].Mat);\n                identityM8(&Eij_inv[i][j].Mat);\n                Eij[i][j].Vec.V = Eij_inv[i][j].Vec.V = 0;\n            }\n")], r"""
int main(void) {
    for (int mode = 0; mode < 2; mode++) {
        WBCRYPTO_wbsm4_context *c = WBCRYPTO_wbsm4_context_init(mode, 0); if (!WBCRYPTO_wbsm4_gen_table(c, KEY, 16)) return 2;
        /* a table of A(S(x ^ k)) with A affine shows itself on sixteen values of the S-box */
        static const unsigned char s[16] = {0xd6,0x90,0xe9,0xfe,0xcc,0xe1,0x3d,0xb7,0x16,0xb6,0x14,0xc2,0x28,0xfb,0x2c,0x05};
        for (int r = 0; r < 32; r++) for (int j = 0; j < 4; j++) for (int k = 0; k < 256; k++) {
            uint32_t *t = c->Table[r][j], t0 = t[k], v[16], basis[32] = {0}, img[32] = {0}; int ok = 1;
            for (int x = 0; x < 16; x++) v[x] = t[x ^ k] ^ t0;
            /* is x -> v[x] linear in s[x] ^ s[0]? */
            int used = 0; for (int x = 1; x < 16 && ok; x++) { uint32_t a = s[x] ^ s[0], b = v[x]; for (int bit = 7; bit >= 0; bit--) if (a >> bit & 1) { if (!basis[bit]) { basis[bit] = a; img[bit] = b; a = b = 0; break; } a ^= basis[bit]; b ^= img[bit]; } if (!a && b) ok = 0; used++; }
            if (ok) BAD("mode %d, round %d, byte %d: the table is an affine function of the S-box of x ^ %02x: the round key is there to be read", mode, r, j, k);
        }
        WBCRYPTO_wbsm4_context_free(c);
    }
    return 0;
}
""", "the tables of the last round of a decryption context", "they take their input without an encoding: the last round key can be read off")
seed("c22-fixed-nibbles", "C22", [("src/wbaes/wbaes_wbgcm_ee_init.c", "    InitRandom((unsigned int)time(NULL));\n", "    InitRandom((unsigned int)(sizeof(*ctx) ^ keylen));\n", 1)], r"""
#include <unistd.h>
#include <wbcrypto/wbaes_wbgcm_ee.h>
int main(void) {
    WBCRYPTO_wbaes_wbgcm_ee_context *a = calloc(1, sizeof *a), *b = calloc(1, sizeof *b);
    WBCRYPTO_wbaes_wbgcm_ee_gen_table(a, KEY, 16); sleep(2); WBCRYPTO_wbaes_wbgcm_ee_gen_table(b, KEY, 16);
    if (!memcmp(a->TypeIV_II, b->TypeIV_II, sizeof a->TypeIV_II)) BAD("two generations at different times have the same encodings");
    return 0;
}
""", "two generations of one key at different times", "the non-linear encodings are the same in both: they depend on nothing random")

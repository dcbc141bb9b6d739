/* the reference models against published vectors and OpenSSL */
#include "ref.h"
#include <openssl/evp.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#define CK(x) do { if (!(x)) { printf("reftest: %s failed (line %d)\n", #x, __LINE__); return 1; } } while (0)
static void ecb(const EVP_CIPHER *e, const uint8_t *k, const uint8_t *in, uint8_t *out)
{ EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new(); int l; EVP_EncryptInit_ex(c, e, 0, k, 0); EVP_CIPHER_CTX_set_padding(c, 0); EVP_EncryptUpdate(c, out, &l, in, 16); EVP_CIPHER_CTX_free(c); }
int main(void)
{
    uint8_t k[16], b[16], o[16], p[16], r[16]; ref_cipher c;
    for (int t = 0; t < 2000; t++) {
        for (int i = 0; i < 16; i++) { k[i] = rand(); b[i] = rand(); }
        for (int kind = 0; kind < 2; kind++) {
            ref_init(&c, kind, k, 16); ref_enc(&c, b, o); ecb(kind ? EVP_sm4_ecb() : EVP_aes_128_ecb(), k, b, p);
            CK(!memcmp(o, p, 16)); ref_dec(&c, o, r); CK(!memcmp(r, b, 16));
        }
    }
    for (int t = 0; t < 300; t++) {
        uint8_t iv[40], aad[70], m[200], ct[200], ct2[200], tag[16], tag2[16]; int ivl = 1 + rand() % 40, al = rand() % 70, n = rand() % 200, l;
        for (int i = 0; i < 200; i++) m[i] = rand(); for (int i = 0; i < 70; i++) aad[i] = rand(); for (int i = 0; i < 40; i++) iv[i] = rand();
        ref_init(&c, 0, k, 16); ref_gcm(&c, iv, ivl, aad, al, m, n, ct, tag, 0);
        EVP_CIPHER_CTX *e = EVP_CIPHER_CTX_new(); EVP_EncryptInit_ex(e, EVP_aes_128_gcm(), 0, 0, 0); EVP_CIPHER_CTX_ctrl(e, EVP_CTRL_GCM_SET_IVLEN, ivl, 0);
        EVP_EncryptInit_ex(e, 0, 0, k, iv); EVP_EncryptUpdate(e, 0, &l, aad, al); EVP_EncryptUpdate(e, ct2, &l, m, n); EVP_EncryptFinal_ex(e, ct2 + l, &l);
        EVP_CIPHER_CTX_ctrl(e, EVP_CTRL_GCM_GET_TAG, 16, tag2); EVP_CIPHER_CTX_free(e);
        CK(!memcmp(ct, ct2, n)); CK(!memcmp(tag, tag2, 16));
        uint8_t d1[32], d2[32]; unsigned dl = 32; ref_sm3(m, n, d1); EVP_Digest(m, n, d2, &dl, EVP_sm3(), 0); CK(!memcmp(d1, d2, 32));
    }
    const uint8_t K[16] = {0x2B,0x7E,0x15,0x16,0x28,0xAE,0xD2,0xA6,0xAB,0xF7,0x15,0x88,0x09,0xCF,0x4F,0x3C}; char x[64], y[64];
    ref_init(&c, 0, K, 16);
    ref_ff1(&c, 0, 0, 10, "0123456789", x, 0); CK(!strcmp(x, "2433477484"));
    uint8_t t1[] = {0x39,0x38,0x37,0x36,0x35,0x34,0x33,0x32,0x31,0x30}; ref_ff1(&c, t1, 10, 10, "0123456789", x, 0); CK(!strcmp(x, "6124200773"));
    ref_ff1(&c, t1, 10, 10, x, y, 1); CK(!strcmp(y, "0123456789"));
    uint8_t t2[] = {0x37,0x37,0x37,0x37,0x70,0x71,0x72,0x73,0x37,0x37,0x37}; ref_ff1(&c, t2, 11, 36, "0123456789abcdefghi", x, 0); CK(!strcmp(x, "a9tv40mll9kdu509eum"));
    /* FF3 of SP 800-38G uses the byte-reversed key: EF4359D8D580AA4F7F036D6F04FC6A94, tweak D8E7920AFA330A73 */
    const uint8_t K3[16] = {0xEF,0x43,0x59,0xD8,0xD5,0x80,0xAA,0x4F,0x7F,0x03,0x6D,0x6F,0x04,0xFC,0x6A,0x94}, T3[8] = {0xD8,0xE7,0x92,0x0A,0xFA,0x33,0x0A,0x73};
    uint8_t K3r[16]; for (int i = 0; i < 16; i++) K3r[i] = K3[15 - i];
    ref_init(&c, 0, K3r, 16); ref_ff3(&c, T3, 8, 10, "890121234567890000", x, 0); CK(!strcmp(x, "750918814058654607"));
    ref_ff3(&c, T3, 8, 10, x, y, 1); CK(!strcmp(y, "890121234567890000"));
    puts("reftest ok"); return 0;
}

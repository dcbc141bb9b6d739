/* Boring reference models, written from the standards, independent of /repo. */
#ifndef REF_H
#define REF_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct ref_cipher {
    int kind;                       /* 0 AES-128, 1 SM4, 2 user function */
    uint8_t rk[11][16];
    uint32_t srk[32];
    void (*fn)(const uint8_t *in, uint8_t *out, void *arg);
    void *arg;
} ref_cipher;
/* key normalisation the library documents: truncate to 16, pad shorter keys PKCS#7 style */
void ref_norm_key(const uint8_t *key, size_t len, uint8_t out[16]);
void ref_init(ref_cipher *c, int kind, const uint8_t *key, size_t keylen);
void ref_init_fn(ref_cipher *c, void (*fn)(const uint8_t *, uint8_t *, void *), void *arg);
void ref_enc(const ref_cipher *c, const uint8_t in[16], uint8_t out[16]);
void ref_dec(const ref_cipher *c, const uint8_t in[16], uint8_t out[16]);
/* as ref_enc, marking every (round, position, value) of the S-box inputs in cov[rounds*16*256 bits] */
extern uint8_t *ref_cov;            /* [round][pos][256] or NULL; AES: 10x16, key 10x4; SM4: 32x4 */
extern uint8_t *ref_kcov;

void ref_gcm(const ref_cipher *c, const uint8_t *iv, size_t ivl, const uint8_t *aad, size_t al,
             const uint8_t *in, size_t n, uint8_t *out, uint8_t tag[16], int dec);
/* pieces, for stepwise models */
typedef struct { const ref_cipher *c; uint8_t H[16], J0[16], Y[16], X[16]; uint64_t al, n; } ref_gcm_t;
void ref_gmul(const uint8_t x[16], const uint8_t y[16], uint8_t out[16]);
void ref_gcm_start(ref_gcm_t *g, const ref_cipher *c, const uint8_t *iv, size_t ivl);
void ref_gcm_aad(ref_gcm_t *g, const uint8_t *aad, size_t al);
void ref_gcm_crypt(ref_gcm_t *g, const uint8_t *in, size_t n, uint8_t *out, int dec);
void ref_gcm_tag(const ref_gcm_t *g, uint8_t tag[16]);

void ref_cbc_enc(const ref_cipher *c, const uint8_t iv[16], const uint8_t *in, size_t nblocks, uint8_t *out);
void ref_cbc_dec(const ref_cipher *c, const uint8_t iv[16], const uint8_t *in, size_t nblocks, uint8_t *out);

void ref_ff1(const ref_cipher *c, const uint8_t *tw, size_t twl, unsigned radix, const char *in, char *out, int dec);
void ref_ff3(const ref_cipher *c, const uint8_t *tw, size_t twl, unsigned radix, const char *in, char *out, int dec);
int ref_ff3_in_range(unsigned radix, size_t n); /* halves fit 96 bits */

typedef struct { uint32_t v[8]; uint8_t buf[64]; unsigned nbuf; uint64_t total; } ref_sm3_t;
void ref_sm3_init(ref_sm3_t *s);
void ref_sm3_update(ref_sm3_t *s, const void *p, size_t n);
void ref_sm3_final(ref_sm3_t s, uint8_t out[32]);
void ref_sm3(const void *p, size_t n, uint8_t out[32]);
#ifdef __cplusplus
}
#endif
#endif

/* The block ciphers of the library behind one interface (public API only). */
#ifndef CIPHERS_H
#define CIPHERS_H
#include "vp.h"
#include "ref.h"
#include <wbcrypto/aes.h>
#include <wbcrypto/sm4.h>
#include <wbcrypto/wbaes.h>
#include <wbcrypto/wbsm4.h>

enum { C_AES, C_SM4, C_WBAES, C_WBSM4, C_N };
static const char *const cname[C_N] = {"aes", "sm4", "wbaes", "wbsm4"};
typedef struct { int kind; void *e, *d; ref_cipher r; } ciph; /* e: context for encryption, d: context for decryption */

static int ciph_ref(int kind) { return kind == C_SM4 || kind == C_WBSM4; }
static ciph ciph_new(int kind, const uint8_t *key, size_t n)
{
    ciph c; c.kind = kind; c.e = c.d = NULL;
    ref_init(&c.r, ciph_ref(kind), key, n);
    switch (kind) {
    case C_AES: c.e = c.d = WBCRYPTO_aes_context_init(); WBCRYPTO_aes_init_key(c.e, key, n); break;
    case C_SM4: c.e = c.d = WBCRYPTO_sm4_context_init(); WBCRYPTO_sm4_init_key(c.e, key, n); break;
    case C_WBAES: c.e = WBCRYPTO_wbaes_context_init(); WBCRYPTO_wbaes_gen_table(c.e, key, n); break;
    case C_WBSM4:
        c.e = WBCRYPTO_wbsm4_context_init(1, 1); WBCRYPTO_wbsm4_gen_table(c.e, key, n);
        c.d = WBCRYPTO_wbsm4_context_init(0, 1); WBCRYPTO_wbsm4_gen_table(c.d, key, n); break;
    }
    return c;
}
static int ciph_cbc_enc(ciph *c, const uint8_t *in, size_t n, uint8_t *out, size_t cap, size_t *used, uint8_t *iv)
{
    switch (c->kind) {
    case C_AES: return WBCRYPTO_aes_cbc_encrypt(in, n, out, cap, used, c->e, iv);
    case C_SM4: return WBCRYPTO_sm4_cbc_encrypt(in, n, out, cap, used, c->e, iv);
    case C_WBAES: return WBCRYPTO_wbaes_cbc_encrypt(in, n, out, cap, used, c->e, iv);
    default: return WBCRYPTO_wbsm4_cbc_encrypt(in, n, out, cap, used, c->e, iv);
    }
}
static int ciph_has_cbc_dec(int kind) { return kind != C_WBAES; }
static int ciph_cbc_dec(ciph *c, const uint8_t *in, size_t n, uint8_t *out, size_t cap, size_t *used, uint8_t *iv)
{
    switch (c->kind) {
    case C_AES: return WBCRYPTO_aes_cbc_decrypt(in, n, out, cap, used, c->d, iv);
    case C_SM4: return WBCRYPTO_sm4_cbc_decrypt(in, n, out, cap, used, c->d, iv);
    case C_WBSM4: return WBCRYPTO_wbsm4_cbc_decrypt(in, n, out, cap, used, c->d, iv);
    }
    abort();
}
static WBCRYPTO_gcm_context *ciph_gcm(ciph *c)
{
    switch (c->kind) {
    case C_AES: return WBCRYPTO_aes_gcm_init(c->e);
    case C_SM4: return WBCRYPTO_sm4_gcm_init(c->e);
    case C_WBAES: return WBCRYPTO_wbaes_gcm_init(c->e);
    default: return WBCRYPTO_wbsm4_gcm_init(c->e);
    }
}
static WBCRYPTO_gcmfile_context *ciph_gcmfile(ciph *c)
{
    switch (c->kind) {
    case C_AES: return WBCRYPTO_aes_gcmfile_init(c->e);
    case C_SM4: return WBCRYPTO_sm4_gcmfile_init(c->e);
    case C_WBAES: return WBCRYPTO_wbaes_gcmfile_init(c->e);
    default: return WBCRYPTO_wbsm4_gcmfile_init(c->e);
    }
}
static WBCRYPTO_fpe_context *ciph_fpe(ciph *c, const void *tw, size_t n, unsigned radix)
{
    switch (c->kind) {
    case C_AES: return WBCRYPTO_aes_fpe_init(c->e, tw, n, radix);
    case C_SM4: return WBCRYPTO_sm4_fpe_init(c->e, tw, n, radix);
    case C_WBAES: return WBCRYPTO_wbaes_fpe_init(c->e, tw, n, radix);
    default: return WBCRYPTO_wbsm4_fpe_init(c->e, tw, n, radix);
    }
}
static WBCRYPTO_fpe_mac_context *ciph_fpe_mac(ciph *c, const void *tw, size_t n, unsigned radix)
{
    switch (c->kind) {
    case C_AES: return WBCRYPTO_aes_fpe_mac_init(c->e, tw, n, radix);
    case C_SM4: return WBCRYPTO_sm4_fpe_mac_init(c->e, tw, n, radix);
    case C_WBAES: return WBCRYPTO_wbaes_fpe_mac_init(c->e, tw, n, radix);
    default: return WBCRYPTO_wbsm4_fpe_mac_init(c->e, tw, n, radix);
    }
}
/* one set of contexts per process, built on first use */
static ciph *ciph_shared(int kind)
{
    static ciph c[C_N]; static int have[C_N];
    if (!have[kind]) { uint8_t k[16]; vp_bytes(k, 16, 4242 + kind); vp_seed(99 + kind); c[kind] = ciph_new(kind, k, 16); have[kind] = 1; }
    return &c[kind];
}
#endif

/* The two white-box GCM variants behind one interface. */
#ifndef WBG_H
#define WBG_H
#include "vp.h"
#include "ref.h"
#include <wbcrypto/wbaes_wbgcm_ee.h>
#include <wbcrypto/wbaes_wbgcm_mask.h>
enum { G_EE, G_MASK };
static const char *const gname[] = {"wbgcm-ee", "wbgcm-mask"};
typedef struct { int kind; void *ek, *dk; ref_cipher r; } wbgkey;  /* mask: separate encryption and decryption tables */
static void wb_seed(uint64_t s) { vp_seed(s); SetRandSeed((unsigned)(s * 2654435761u + 17)); vp_time_value = 1000000 + (long)(s % 1000003); }
static wbgkey wbg_key(int kind, const uint8_t *key, size_t n)
{
    wbgkey k; k.kind = kind; ref_init(&k.r, 0, key, n);
    if (kind == G_EE) { k.ek = malloc(sizeof(WBCRYPTO_wbaes_wbgcm_ee_context)); WBCRYPTO_wbaes_wbgcm_ee_gen_table(k.ek, key, n); k.dk = k.ek; }
    else { k.ek = WBCRYPTO_wbaes_wbgcm_mask_init_table(); k.dk = WBCRYPTO_wbaes_wbgcm_mask_init_table(); VP_CHECK(k.ek && k.dk, "mask tables could not be created"); WBCRYPTO_wbaes_wbgcm_mask_gen_table(k.ek, k.dk, key, n); }
    return k;
}
static void *wbg_new(wbgkey *k, int dec)
{
    void *g = k->kind == G_EE ? (void *)WBCRYPTO_wbaes_wbgcm_ee_init(dec ? k->dk : k->ek) : (void *)WBCRYPTO_wbaes_wbgcm_mask_init(dec ? k->dk : k->ek);
    VP_CHECK(g, "context could not be created"); return g;
}
static int wbg_setiv(int k, void *g, const uint8_t *p, size_t n) { return k == G_EE ? WBCRYPTO_wbaes_wbgcm_ee_setiv(g, p, n) : WBCRYPTO_wbaes_wbgcm_mask_setiv(g, p, n); }
static int wbg_aad(int k, void *g, const uint8_t *p, size_t n) { return k == G_EE ? WBCRYPTO_wbaes_wbgcm_ee_aad(g, p, n) : WBCRYPTO_wbaes_wbgcm_mask_aad(g, p, n); }
static int wbg_enc(int k, void *g, const uint8_t *p, size_t n, uint8_t *o, size_t c) { return k == G_EE ? WBCRYPTO_wbaes_wbgcm_ee_encrypt(g, p, n, o, c) : WBCRYPTO_wbaes_wbgcm_mask_encrypt(g, p, n, o, c); }
static int wbg_dec(int k, void *g, const uint8_t *p, size_t n, uint8_t *o, size_t c) { return k == G_EE ? WBCRYPTO_wbaes_wbgcm_ee_decrypt(g, p, n, o, c) : WBCRYPTO_wbaes_wbgcm_mask_decrypt(g, p, n, o, c); }
static int wbg_fin(int k, void *g, uint8_t *t, size_t n) { return k == G_EE ? WBCRYPTO_wbaes_wbgcm_ee_finish(g, t, n) : WBCRYPTO_wbaes_wbgcm_mask_finish(g, t, n); }
static void wbg_free(int k, void *g) { if (k == G_EE) WBCRYPTO_wbaes_wbgcm_ee_free(g); else WBCRYPTO_wbaes_wbgcm_mask_free(g); }
static int wbg_fenc(int k, void *g, char *i, char *o) { return k == G_EE ? WBCRYPTO_wbaes_wbgcmfile_ee_encrypt(g, i, o) : WBCRYPTO_wbaes_wbgcmfile_mask_encrypt(g, i, o); }
static int wbg_fdec(int k, void *g, char *i, char *o) { return k == G_EE ? WBCRYPTO_wbaes_wbgcmfile_ee_decrypt(g, i, o) : WBCRYPTO_wbaes_wbgcmfile_mask_decrypt(g, i, o); }
static wbgkey *wbg_shared(int kind)
{
    static wbgkey k[2]; static int have[2];
    if (!have[kind]) { uint8_t key[16]; vp_bytes(key, 16, 777 + kind); wb_seed(55 + kind); k[kind] = wbg_key(kind, key, 16); have[kind] = 1; }
    return &k[kind];
}
#endif

/* FF1/FF3 helpers: alphabet, calls with guarded buffers. */
#ifndef FPE_H
#define FPE_H
#include "ciphers.h"
#include "toy.h"
enum { K_TOY = C_N, K_N };
static const char *kn(int k) { return k == K_TOY ? "toy" : cname[k]; }
static char dig(int v) { return (char)(v < 10 ? '0' + v : 'a' + v - 10); }
static int valid(const char *s, size_t n, unsigned radix)
{
    for (size_t i = 0; i < n; i++) { int v = s[i] >= '0' && s[i] <= '9' ? s[i] - '0' : s[i] >= 'a' && s[i] <= 'z' ? s[i] - 'a' + 10 : 99; if (v >= (int)radix) return 0; }
    return s[n] == 0;
}
static toy_t fpe_toys[4]; static int fpe_toys_ok;
static toy_t *fpe_toy(int i) { if (!fpe_toys_ok) { for (int j = 0; j < 4; j++) toy_init(&fpe_toys[j], 900 + j); fpe_toys_ok = 1; } return &fpe_toys[i]; }
static const ref_cipher *kref(int k, int which) { return k == K_TOY ? &fpe_toy(which)->r : &ciph_shared(k)->r; }
static WBCRYPTO_fpe_context *fnew(int k, int which, const uint8_t *tw, size_t n, unsigned radix) { return k == K_TOY ? WBCRYPTO_fpe_init(tw, n, radix, fpe_toy(which), toy_block) : ciph_fpe(ciph_shared(k), tw, n, radix); }
static WBCRYPTO_fpe_mac_context *fmnew(int k, int which, const uint8_t *tw, size_t n, unsigned radix) { return k == K_TOY ? WBCRYPTO_fpe_mac_init(tw, n, radix, fpe_toy(which), toy_block) : ciph_fpe_mac(ciph_shared(k), tw, n, radix); }
static int fcall(int ff, int dec, WBCRYPTO_fpe_context *c, const char *in, char *out)
{ return ff == 1 ? (dec ? WBCRYPTO_ff1_decrypt : WBCRYPTO_ff1_encrypt)(c, in, out) : (dec ? WBCRYPTO_ff3_decrypt : WBCRYPTO_ff3_encrypt)(c, in, out); }
static int fmcall(int ff, int dec, WBCRYPTO_fpe_mac_context *c, const char *in, char *out)
{ return ff == 1 ? (dec ? WBCRYPTO_ff1_cmac_decrypt : WBCRYPTO_ff1_cmac_encrypt)(c, in, out) : (dec ? WBCRYPTO_ff3_gmac_decrypt : WBCRYPTO_ff3_gmac_encrypt)(c, in, out); }
static int fmfin(int ff, WBCRYPTO_fpe_mac_context *c, uint8_t *tag, size_t *n) { return ff == 1 ? WBCRYPTO_ff1_cmac_finish(c, (char *)tag, n) : WBCRYPTO_ff3_gmac_finish(c, (char *)tag, n); }
static void ftext(char *s, size_t n, unsigned radix, uint64_t seed)
{
    for (size_t i = 0; i < n; i++) s[i] = dig(seed == 0 ? 0 : seed == 1 ? (int)radix - 1 : seed == 2 ? (i == 0) : seed == 3 ? (i == n - 1) : (int)(vp_mix(seed * 131 + i) % radix));
    s[n] = 0;
}
static void rref(int ff, const ref_cipher *r, const uint8_t *tw, size_t twl, unsigned radix, const char *in, char *out, int dec)
{ if (ff == 1) ref_ff1(r, tw, twl, radix, in, out, dec); else ref_ff3(r, tw, twl, radix, in, out, dec); }
static int inrange(int ff, unsigned radix, size_t n) { return ff == 1 || ref_ff3_in_range(radix, n); }
#endif

/* Reference model of the application-level FPE (C11, C17). */
#ifndef APPFPE_H
#define APPFPE_H
#include "fpe.h"
#include <wbcrypto/fpe_app.h>
enum { PHONE, ID, CN };
static const char *const an[] = {"phone", "idcard", "chinese"};
typedef struct { WBCRYPTO_fpe_app_context c; ref_cipher r; int ff; char cs[8], fs[8]; } app;
static const char *const cs_[] = {"aes", "wbaes", "sm4", "wbsm4"}, *const fs_[] = {"ff1", "ff3"};
static app *mk(int ci, int fi, const uint8_t *key, size_t kl)
{
    app *a = malloc(sizeof *a); strcpy(a->cs, cs_[ci]); strcpy(a->fs, fs_[fi]); a->ff = fi ? 3 : 1; ref_init(&a->r, ci >= 2, key, kl);
    memset(&a->c, 0x5a, sizeof a->c); VP_CHECK(WBCRYPTO_fpe_app_init(&a->c, key, kl, a->cs, a->fs) == 1, "init failed"); return a;
}
static app *sh(int ci, int fi) { static app *a[4][2]; if (!a[ci][fi]) { uint8_t k[16]; vp_bytes(k, 16, 100 + ci * 2 + fi); vp_seed(5); a[ci][fi] = mk(ci, fi, k, 16); } return a[ci][fi]; }
static int lib(app *a, int kind, int dec, char *in, char *out, char *s)
{
    WBCRYPTO_fpe_app_context *c = &a->c;
    if (!s) return kind == PHONE ? (dec ? WBCRYPTO_fpe_decrypt_phone : WBCRYPTO_fpe_encrypt_phone)(c, in, out) : kind == ID ? (dec ? WBCRYPTO_fpe_decrypt_idcard : WBCRYPTO_fpe_encrypt_idcard)(c, in, out) : (dec ? WBCRYPTO_fpe_decrypt_cn_utf8 : WBCRYPTO_fpe_encrypt_cn_utf8)(c, in, out);
    return kind == PHONE ? (dec ? WBCRYPTO_fpe_decrypt_phone_with_sample : WBCRYPTO_fpe_encrypt_phone_with_sample)(c, in, out, s) : kind == ID ? (dec ? WBCRYPTO_fpe_decrypt_idcard_with_sample : WBCRYPTO_fpe_encrypt_idcard_with_sample)(c, in, out, s) : (dec ? WBCRYPTO_fpe_decrypt_cn_utf8_with_sample : WBCRYPTO_fpe_encrypt_cn_utf8_with_sample)(c, in, out, s);
}
static int cpof(const char *p) { return ((p[0] & 15) << 12) | ((p[1] & 63) << 6) | (p[2] & 63); }
static void putcp(char *p, int u) { p[0] = (char)(0xe0 | u >> 12); p[1] = (char)(0x80 | (u >> 6 & 63)); p[2] = (char)(0x80 | (u & 63)); }
/* the model: 1 and the result, or 0 when the request is refused */
static int model(app *a, int kind, int dec, const char *in, const char *s, char *out)
{
    static char sel[4200], res[4200]; static uint8_t tw[4200]; int n = (int)strlen(in), ns = 0, nt = 0, all = !s || !*s, sl = s ? (int)strlen(s) : 0; strcpy(out, in);
    if (kind != CN) {
        int m = kind == ID && n && in[n - 1] == 'X' ? n - 1 : n;
        for (int i = 0; i < m; i++) if (all || (i < sl && s[i] == '*')) sel[ns++] = in[i]; else tw[nt++] = (uint8_t)in[i];
        sel[ns] = 0; tw[nt] = 0; if (ns < 2) return 0;
        rref(a->ff, &a->r, tw, nt + 1, 10, sel, res, dec);
        for (int i = 0, j = 0; i < m; i++) if (all || (i < sl && s[i] == '*')) out[i] = res[j++];
        return 1;
    }
    if (n % 3) return 0;
    char keep[4200]; int j = 0, cnt = n / 3;
    for (int i = 0; i < cnt; i++) {
        int u = cpof(in + 3 * i); if ((in[3 * i] & 0xf0) != 0xe0 || u < 0x4e00 || u > 0x9eff) return 0; u -= 0x4e00;
        keep[i] = !all && !(j < sl && s[j] == '*'); j += keep[i] ? 3 : 1;
        for (int q = 0; q < 4; q++, u /= 12) if (keep[i]) tw[nt++] = (uint8_t)dig(u % 12); else sel[ns++] = dig(u % 12);
    }
    sel[ns] = 0; tw[nt] = 0; if (ns < 2) return 0;
    rref(a->ff, &a->r, tw, nt + 1, 12, sel, res, dec);
    for (int i = 0, q = 0; i < cnt; i++) if (!keep[i]) { int u = 0; for (int z = 3; z >= 0; z--) u = u * 12 + (res[q + z] >= 'a' ? res[q + z] - 'a' + 10 : res[q + z] - '0'); q += 4; putcp(out + 3 * i, 0x4e00 + u); }
    return 1;
}
static void cntext(char *p, int n, int seed) { for (int i = 0; i < n; i++) putcp(p + 3 * i, 0x4e00 + (int)(vp_mix(seed * 1000 + i) % 20736)); p[3 * n] = 0; }
static void cnsample(char *s, int n, unsigned pat, const char *text, int style) { for (int i = 0; i < n; i++) if (pat >> i & 1) *s++ = '*'; else { if (style) memcpy(s, text + 3 * i, 3); else memcpy(s, "\xe4\xb8\x80", 3); s += 3; } *s = 0; }
static const char *const phones[] = {"13888888888", "00000000000", "99999999999", "15912345678", "10000000001"};
static const char *const ids[] = {"110101199003071234", "11010119900307123X", "000000000000000000", "99999999999999999X", "440300200012310019"};
#endif

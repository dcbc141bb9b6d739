/* C19: calls keep no memory and released contexts give everything back; released AES and SM4 contexts hold no round keys. */
#include "files.h"
#include "appfpe.h"
#include <wbcrypto/sm3.h>
#include <wbcrypto/se_wbsm4.h>
#include <wbcrypto/utils.h>
#include <stdbool.h>
#include <mysql.h>
#include <malloc.h>
#include <fcntl.h>
bool fpe_init(UDF_INIT *, UDF_ARGS *, char *); void fpe_deinit(UDF_INIT *); char *fpe(UDF_INIT *, UDF_ARGS *, char *, unsigned long *, char *, char *);

/* --- heap accounting of the whole process (library, libcrypto, plugin) */
void *__libc_malloc(size_t); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void __libc_free(void *); void *__libc_memalign(size_t, size_t);
static long live_n, live_b; static uint64_t calls;
static const void *watch; static size_t watch_n; static uint8_t watch_old[8192]; static int watch_freed, watch_same;
#define ADD(x) __atomic_add_fetch(&x, 1, __ATOMIC_RELAXED)
static void *in(void *p) { if (p) { __atomic_add_fetch(&live_n, 1, __ATOMIC_RELAXED); __atomic_add_fetch(&live_b, (long)malloc_usable_size(p), __ATOMIC_RELAXED); __atomic_add_fetch(&calls, 1, __ATOMIC_RELAXED); } return p; }
static void look(const void *p) /* the watched context as it is left behind: 8-byte groups of its former content still there */
{
    const uint8_t *q = p; watch_same = 0;
    for (size_t i = 0; i + 8 <= watch_n; i += 4) { int nz = 0; for (int j = 0; j < 8; j++) nz += watch_old[i + j] != 0; if (nz >= 7 && !memcmp(q + i, watch_old + i, 8)) watch_same++; }
}
static void out(void *p) { if (p) { if (p == watch) { look(p); watch_freed = 1; watch = NULL; } __atomic_sub_fetch(&live_n, 1, __ATOMIC_RELAXED); __atomic_sub_fetch(&live_b, (long)malloc_usable_size(p), __ATOMIC_RELAXED); } }
void *malloc(size_t n) { return in(__libc_malloc(n)); }
void *calloc(size_t a, size_t b) { return in(__libc_calloc(a, b)); }
void free(void *p) { out(p); __libc_free(p); }
void *realloc(void *p, size_t n) { if (!p) return in(__libc_realloc(p, n)); long u = (long)malloc_usable_size(p); void *q = __libc_realloc(p, n); if (q) { __atomic_add_fetch(&live_b, (long)malloc_usable_size(q) - u, __ATOMIC_RELAXED); } else if (!n) { live_n--; live_b -= u; } return q; }
void *memalign(size_t a, size_t n) { return in(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n) { return in(__libc_memalign(a, n)); }
int posix_memalign(void **p, size_t a, size_t n) { *p = in(__libc_memalign(a, n)); return *p ? 0 : 12; }
static int nfd(void) { int n = 0; for (int i = 0; i < 128; i++) n += fcntl(i, F_GETFD) != -1; return n; }

/* --- runs f repeatedly: memory use must become steady.  Growth is only an alarm when it goes on for hundreds of runs (caches fill up) */
static void steady(void (*f)(void *), void *x, const char *what)
{
    long n0, b0; int slow = 0, d0;
    uint64_t c0 = calls; f(x); f(x); n0 = live_n; b0 = live_b; d0 = nfd(); f(x);
    slow = calls - c0 > 60000;
    vp_note("measured_runs", 3);
    if (live_n <= n0 && live_b <= b0 && nfd() <= d0) return;
    int more = slow ? 12 : 150; long h = 0, hb = 0; int hd = 0;
    for (int i = 0; i < 2 * more; i++) { if (i == more) { h = live_n; hb = live_b; hd = nfd(); } f(x); if (hd > 90) break; }
    vp_note("measured_runs", 2 * more);
    VP_CHECK(live_n <= h && live_b <= hb, "%s: each run keeps memory: %ld blocks, %ld bytes more after %d runs", what, live_n - h, live_b - hb, more);
    VP_CHECK(nfd() <= hd, "%s: each run keeps a file open", what);
}
static uint8_t KEY[16], DATA[4096];

/* --- families: ops on two slots, everything released at the end */
typedef struct { void *o[2]; int has[2]; void *aux; int cfg; } fam;
typedef struct { const char *name; int n; void (*op)(fam *, int); void (*fini)(fam *); int ncfg, depth_q, depth_t; } family;

/* block ciphers and CBC */
static void *cnew(int c)
{
    switch (c) { case 0: return WBCRYPTO_aes_context_init(); case 1: return WBCRYPTO_sm4_context_init(); case 2: return WBCRYPTO_wbaes_context_init(); case 3: return WBCRYPTO_se_wbsm4_context_init(1); case 4: return WBCRYPTO_se_wbsm4_context_init(0); default: return WBCRYPTO_wbsm4_context_init((c - 5) & 1, (c - 5) >> 1); }
}
static void crel(int c, void *p)
{
    switch (c) { case 0: WBCRYPTO_aes_context_free(p); break; case 1: WBCRYPTO_sm4_context_free(p); break; case 2: WBCRYPTO_wbaes_context_free(p); break; case 3: case 4: WBCRYPTO_se_wbsm4_context_free(p); break; default: WBCRYPTO_wbsm4_context_free(p); }
}
static void ckey(int c, void *p, size_t n)
{
    switch (c) { case 0: WBCRYPTO_aes_init_key(p, KEY, n); break; case 1: WBCRYPTO_sm4_init_key(p, KEY, n); break; case 2: WBCRYPTO_wbaes_gen_table(p, KEY, n); break; case 3: case 4: WBCRYPTO_se_wbsm4_gen_table(p, KEY, n); break; default: WBCRYPTO_wbsm4_gen_table(p, KEY, n); }
}
static void cblk(int c, void *p, int dec)
{
    uint8_t o[16];
    switch (c) { case 0: (dec ? WBCRYPTO_aes_decrypt : WBCRYPTO_aes_encrypt)(DATA, o, p); break; case 1: (dec ? WBCRYPTO_sm4_decrypt : WBCRYPTO_sm4_encrypt)(DATA, o, p); break; case 2: WBCRYPTO_wbaes_encrypt(DATA, o, p); break; case 3: case 4: (dec ? WBCRYPTO_se_wbsm4_decrypt : WBCRYPTO_se_wbsm4_encrypt)(DATA, o, p); break; default: (dec ? WBCRYPTO_wbsm4_decrypt : WBCRYPTO_wbsm4_encrypt)(DATA, o, p); }
}
static void ccbc(int c, void *p, int dec, size_t n, size_t cap)
{
    static uint8_t o[512]; uint8_t iv[16] = {1}; size_t u = 0;
    switch (c) {
    case 0: (dec ? WBCRYPTO_aes_cbc_decrypt : WBCRYPTO_aes_cbc_encrypt)(DATA, n, o, cap, &u, p, iv); break;
    case 1: (dec ? WBCRYPTO_sm4_cbc_decrypt : WBCRYPTO_sm4_cbc_encrypt)(DATA, n, o, cap, &u, p, iv); break;
    case 2: if (!dec) WBCRYPTO_wbaes_cbc_encrypt(DATA, n, o, cap, &u, p, iv); break;
    case 3: case 4: break;
    default: (dec ? WBCRYPTO_wbsm4_cbc_decrypt : WBCRYPTO_wbsm4_cbc_encrypt)(DATA, n, o, cap, &u, p, iv);
    }
}
static void ciph_op(fam *f, int o)
{
    int s = o & 1, c = f->cfg; o >>= 1;
    if (!f->o[s]) { f->o[s] = cnew(c); f->has[s] = 0; if (o == 0) return; }
    if (o == 0) { crel(c, f->o[s]); f->o[s] = NULL; return; }
    if (o == 1 || o == 2 || !f->has[s]) { ckey(c, f->o[s], o == 2 ? 5 : 16); f->has[s] = 1; if (o <= 2) return; }
    if (o == 3) cblk(c, f->o[s], 0); else if (o == 4) cblk(c, f->o[s], 1);
    else if (o == 5) ccbc(c, f->o[s], 0, 35, 64); else if (o == 6) ccbc(c, f->o[s], 0, 35, 20); else if (o == 7) ccbc(c, f->o[s], 1, 48, 64); else ccbc(c, f->o[s], 1, 47, 64);
}
static void ciph_fini(fam *f) { for (int s = 0; s < 2; s++) if (f->o[s]) crel(f->cfg, f->o[s]); }

/* GCM; cfg: cipher */
static void gcm_op(fam *f, int o)
{
    static uint8_t b[256]; uint8_t tag[32]; WBCRYPTO_gcm_context *g = f->o[0];
    if (!g) { g = f->o[0] = f->cfg < C_N ? ciph_gcm(ciph_shared(f->cfg)) : WBCRYPTO_gcm_init(fpe_toy(0), toy_block); WBCRYPTO_gcm_setiv(g, DATA, 12); if (o == 0) return; }
    switch (o) {
    case 0: WBCRYPTO_gcm_free(g); f->o[0] = NULL; break;
    case 1: WBCRYPTO_gcm_setiv(g, DATA, 12); break; case 2: WBCRYPTO_gcm_setiv(g, DATA, 37); break; case 3: WBCRYPTO_gcm_setiv(g, DATA, 0); break;
    case 4: WBCRYPTO_gcm_aad(g, DATA, 21); break;
    case 5: WBCRYPTO_gcm_encrypt(g, DATA, 50, b, 50); break; case 6: WBCRYPTO_gcm_decrypt(g, DATA, 33, b, 33); break; case 7: WBCRYPTO_gcm_encrypt(g, DATA, 50, b, 20); break;
    case 8: WBCRYPTO_gcm_parallel_encrypt(g, DATA, 50, b, 50); break; case 9: WBCRYPTO_gcm_parallel_decrypt(g, DATA, 64, b, 64); break; case 10: WBCRYPTO_gcm_parallel_encrypt(g, DATA, 50, b, 20); break; case 11: WBCRYPTO_gcm_parallel_decrypt(g, DATA, 50, b, 20); break; case 12: WBCRYPTO_gcm_parallel_encrypt(g, DATA, 0, b, 20); break;
    case 13: WBCRYPTO_gcm_finish(g, tag, 16); break; case 14: WBCRYPTO_gcm_finish(g, tag, 17); break;
    }
}
static void gcm_fini(fam *f) { if (f->o[0]) WBCRYPTO_gcm_free(f->o[0]); }
/* the white-box variants: contexts over shared tables; cfg 0, 1 */
static void wbg_op(fam *f, int o)
{
    static uint8_t b[256]; uint8_t tag[32]; int k = f->cfg; void *g = f->o[0];
    if (!g) { g = f->o[0] = wbg_new(wbg_shared(k), 0); wbg_setiv(k, g, DATA, 12); if (o == 0) return; }
    switch (o) {
    case 0: wbg_free(k, g); f->o[0] = NULL; break; case 1: wbg_setiv(k, g, DATA, 12); break; case 2: wbg_setiv(k, g, DATA, 37); break; case 3: wbg_setiv(k, g, DATA, 0); break;
    case 4: wbg_aad(k, g, DATA, 21); break; case 5: wbg_enc(k, g, DATA, 50, b, 50); break; case 6: wbg_dec(k, g, DATA, 33, b, 33); break; case 7: wbg_enc(k, g, DATA, 50, b, 20); break; case 8: wbg_fin(k, g, tag, 16); break; case 9: wbg_fin(k, g, tag, 17); break;
    }
}
static void wbg_fini(fam *f) { if (f->o[0]) wbg_free(f->cfg, f->o[0]); }
/* files; cfg: kind.  p plain, q encrypted, r tampered, s truncated, t too short, no: missing */
static void *fl_new(int kd, int dec) { return kd == F_TOY ? (void *)WBCRYPTO_gcmfile_init(fpe_toy(0), toy_block) : kd < F_EE ? (void *)ciph_gcmfile(ciph_shared(kd - F_AES)) : wbg_new(wbg_shared(kd - F_EE), dec); }
static void fl_free(int kd, void *p) { if (kd < F_EE) WBCRYPTO_gcmfile_free(p); else wbg_free(kd - F_EE, p); }
static void file_op(fam *f, int o)
{
    int dec = o >= 5; fctx x = {f->cfg, f->o[0], f->o[1], NULL};
    if (o == 0) { for (int i = 0; i < 2; i++) if (f->o[i]) { fl_free(f->cfg, f->o[i]); f->o[i] = NULL; } return; }
    if (!f->o[dec]) { f->o[dec] = fl_new(f->cfg, dec); if (dec) x.d = f->o[1]; else x.e = f->o[0]; f_iv(&x, dec, DATA, 12); }
    switch (o) {
    case 1: f_iv(&x, 0, DATA, 12); break; case 2: f_aad(&x, 0, DATA, 9); break; case 3: f_enc(&x, "p", "o"); break; case 4: f_enc(&x, "no", "o"); break;
    case 5: f_iv(&x, 1, DATA, 12); break; case 6: f_dec(&x, "q", "o"); break; case 7: f_dec(&x, "r", "o"); break; case 8: f_dec(&x, "s", "o"); break; case 9: f_dec(&x, "t", "o"); break; case 10: f_dec(&x, "no", "o"); break; case 11: f_dec(&x, "q", "no/o"); break;
    case 12: f_aad(&x, 1, DATA, 9); break;
    }
}
static void file_fini(fam *f) { for (int i = 0; i < 2; i++) if (f->o[i]) fl_free(f->cfg, f->o[i]); }
static void file_prep(int kd)
{
    static uint8_t b[1000]; cleandir(); put("p", DATA, 300); fctx x = {kd, fl_new(kd, 0), NULL, NULL};
    VP_CHECK(f_iv(&x, 0, DATA, 12) && f_enc(&x, "p", "q") == 1, "encryption failed"); fl_free(kd, x.e);
    long n = get("q", b, sizeof b); b[40] ^= 4; put("r", b, n); b[40] ^= 4; put("s", b, n - 5); put("t", b, 7); 
}
/* FPE; cfg: key kind */
static void fpe_op(fam *f, int o)
{
    static const uint8_t tw[16] = "tweakingtweakin"; char y[128], z[128]; WBCRYPTO_fpe_context *c = f->o[0];
    if (o >= 1 && o <= 4) { if (c) WBCRYPTO_fpe_free(c); f->o[0] = fnew(f->cfg, 0, o == 3 ? NULL : tw, o == 2 ? 3 : o == 3 ? 0 : 8, o == 4 ? 40 : o == 2 ? 36 : 10); return; }
    if (!c) { c = f->o[0] = fnew(f->cfg, 0, tw, 8, 10); if (!c) return; }
    if (o == 0) { WBCRYPTO_fpe_free(c); f->o[0] = NULL; return; }
    int q = o - 5; static const char *const t[] = {"12", "0123456789", "31415926535897932384626433832795028841971693993751", "7", ""}; 
    (void)z; fcall(q / 10 ? 3 : 1, q % 10 / 5, c, t[q % 5], y);
}
static void fpe_fini(fam *f) { if (f->o[0]) WBCRYPTO_fpe_free(f->o[0]); }
static void mac_op(fam *f, int o)
{
    static const uint8_t tw[16] = "tweakingtweakin"; char y[128]; uint8_t tag[64]; size_t n = 16; WBCRYPTO_fpe_mac_context *c = f->o[0];
    if (o >= 1 && o <= 4) { if (c) WBCRYPTO_fpe_mac_free(c); f->o[0] = fmnew(f->cfg, 0, o == 3 ? NULL : tw, o == 2 ? 3 : o == 3 ? 0 : 8, o == 4 ? 40 : o == 2 ? 36 : 10); return; }
    if (!c) { c = f->o[0] = fmnew(f->cfg, 0, tw, 8, 10); if (!c) return; }
    if (o == 0) { WBCRYPTO_fpe_mac_free(c); f->o[0] = NULL; return; }
    if (o == 5) { fmfin(1, c, tag, &n); return; } if (o == 6) { fmfin(3, c, tag, &n); return; }
    int q = o - 7; static const char *const t[] = {"12", "0123456789", "31415926535897932384626433832795028841971693993751", "7", ""};
    fmcall(q / 10 ? 3 : 1, q % 10 / 5, c, t[q % 5], y);
}
static void mac_fini(fam *f) { if (f->o[0]) WBCRYPTO_fpe_mac_free(f->o[0]); }
/* application FPE; cfg: ffx; the user keeps one context */
static const char *const cnt_[] = {"\xe4\xb8\x80\xe5\xbc\xa0\xe4\xb8\x89", "\xe4\xb8\x80", "abc", "\xe4\xb8", "", "\xe4\xb8\x80\xe5\xbc\xa0\xe4\xb8\x89\xe6\x9d\x8e\xe5\x9b\x9b\xe7\x8e\x8b\xe4\xba\x94"};
static void app_op(fam *f, int o)
{
    char y[256], x[256]; int dec = o & 1; o >>= 1; app *a = sh(f->cfg >> 1, f->cfg & 1);
    static const struct { int k; const char *t, *s; } T[] = {{PHONE, "13888888888", NULL}, {PHONE, "13888888888", "138****8888"}, {PHONE, "13888888888", "1388888888*"}, {PHONE, "", NULL}, {PHONE, "1", NULL}, {ID, "11010119900307123X", NULL}, {ID, "110101199003071234", "110101********1234"}, {ID, "11010119900307123X", "110101199003071***"}, {ID, "X", NULL}, {ID, "110101199003071234", "110101199003071234"},
        {CN, 0, NULL}, {CN, (char *)1, NULL}, {CN, (char *)2, NULL}, {CN, (char *)3, NULL}, {CN, (char *)4, NULL}, {CN, (char *)5, "\xe4\xb8\x80**\xe6\x9d\x8e***"}, {CN, 0, "*"}, {CN, 0, "\xe4\xb8\x80\xe5\xbc\xa0\xe4\xb8\x89"}};
    strcpy(x, T[o].k == CN ? cnt_[(long)T[o].t] : T[o].t); char s[64]; if (T[o].s) strcpy(s, T[o].s);
    lib(a, T[o].k, dec, x, y, T[o].s ? s : NULL);
}
static void app_fini(fam *f) { }
/* MySQL function */
static void udf_op(fam *f, int o)
{
    static const struct { const char *t, *m, *s; int nul; } T[] = {{"13888888888", "phone"}, {"13888888888", "phone", "138****8888"}, {"13888888888", "phone", "13888888888"}, {"1388888888", "phone"}, {"13888888888", "phone", "138"}, {"13888888888", "phone", 0, 1}, {"13888888888", "phone", 0, 2}, {"11010119900307123X", "idcard"}, {"110101199003071234", "idcard", "110101********1234"}, {"1101", "idcard"}, {"", "idcard"},
        {"\xe4\xb8\x80\xe5\xbc\xa0\xe4\xb8\x89", "name"}, {"\xe4\xb8\x80\xe5\xbc\xa0\xe4\xb8\x89", "address", "\xe4\xb8\x80**"}, {"abc", "name"}, {"\xe4\xb8", "address"}, {"13888888888", "email"}, {"13888888888", ""}, {"\xe4\xb8\x80\xe5\xbc\xa0\xe4\xb8\x89\xe6\x9d\x8e\xe5\x9b\x9b\xe7\x8e\x8b\xe4\xba\x94", "name"}};
    if (o == 18) { if (f->o[0]) { fpe_deinit(f->o[0]); f->has[0] = 0; f->o[0] = NULL; } return; }
    static UDF_INIT id; unsigned n = o < 18 && T[o].s ? 3 : 2; enum Item_result ty[3] = {STRING_RESULT, STRING_RESULT, STRING_RESULT}; char *ar[3] = {0}; unsigned long le[3] = {12, 12, 12}; char mn[3] = {1, 1, 1}; char *at[3] = {"x", "x", "x"}; unsigned long al[3] = {1, 1, 1}; char msg[512], r[255], nl = 0, er = 0; unsigned long rl = 255;
    UDF_ARGS a; memset(&a, 0, sizeof a); a.arg_count = n; a.arg_type = ty; a.args = ar; a.lengths = le; a.maybe_null = mn; a.attributes = at; a.attribute_lengths = al;
    if (o == 19) { if (f->o[0]) return; memset(&id, 0, sizeof id); a.arg_count = 1; if (!fpe_init(&id, &a, msg)) fpe_deinit(&id); ty[0] = INT_RESULT; a.arg_count = 2; if (!fpe_init(&id, &a, msg)) fpe_deinit(&id); ty[0] = STRING_RESULT; ty[2] = INT_RESULT; a.arg_count = 3; if (!fpe_init(&id, &a, msg)) fpe_deinit(&id); return; }
    if (!f->o[0]) { memset(&id, 0, sizeof id); if (fpe_init(&id, &a, msg)) return; f->o[0] = &id; }
    ar[0] = (char *)T[o].t; ar[1] = (char *)T[o].m; ar[2] = (char *)T[o].s; le[0] = strlen(ar[0]); le[1] = strlen(ar[1]); if (n == 3) le[2] = strlen(ar[2]);
    if (T[o].nul & 1) ar[0] = NULL; if (T[o].nul & 2) ar[1] = NULL;
    fpe(&id, &a, r, &rl, &nl, &er);
}
static void udf_fini(fam *f) { if (f->o[0]) fpe_deinit(f->o[0]); }
/* export and import; prepared key files kg good, kb bad name, kt truncated, kr other rounds */
static uint8_t *blob_; static size_t blob_n;
static void exp_op(fam *f, int o)
{
    if (o == 0) { if (f->o[0]) { WBCRYPTO_wbsm4_context_free(f->o[0]); f->o[0] = NULL; } return; }
    if (!f->o[0]) { f->o[0] = WBCRYPTO_wbsm4_context_init(1, f->cfg); WBCRYPTO_wbsm4_file2key(f->o[0], "kg"); }
    char *k = NULL, b[64]; WBCRYPTO_wbsm4_context *c = f->o[0];
    switch (o) {
    case 1: WBCRYPTO_wbsm4_key2bytes(c, &k); free(k); break; case 2: strcpy(b, "ko"); WBCRYPTO_wbsm4_key2file(c, b); break; case 3: strcpy(b, "no/ko"); WBCRYPTO_wbsm4_key2file(c, b); break;
    case 4: strcpy(b, "kg"); WBCRYPTO_wbsm4_file2key(c, b); break; case 5: strcpy(b, "kr"); WBCRYPTO_wbsm4_file2key(c, b); break; case 6: strcpy(b, "kt"); WBCRYPTO_wbsm4_file2key(c, b); break; case 7: strcpy(b, "kb"); WBCRYPTO_wbsm4_file2key(c, b); break; case 8: strcpy(b, "nope"); WBCRYPTO_wbsm4_file2key(c, b); break;
    case 9: WBCRYPTO_wbsm4_bytes2key(c, (char *)blob_); break; case 10: blob_[2] ^= 1; WBCRYPTO_wbsm4_bytes2key(c, (char *)blob_); blob_[2] ^= 1; break;
    case 11: cblk(5, c, 0); break; case 12: strcpy(b, "ks"); WBCRYPTO_keystore_key_to_file(DATA, 500, b); WBCRYPTO_keystore_file_to_key(KEY, 16, "nope"); { uint8_t t[600]; WBCRYPTO_keystore_file_to_key(t, 500, b); WBCRYPTO_keystore_file_to_key(t, 501, b); } break;
    }
}
static void exp_fini(fam *f) { if (f->o[0]) WBCRYPTO_wbsm4_context_free(f->o[0]); }
static void exp_prep(void)
{
    static int done; char b[8]; cleandir();
    for (int i = 0; i < 2; i++) { wb_seed(31 + i); WBCRYPTO_wbsm4_context *c = WBCRYPTO_wbsm4_context_init(1, i); WBCRYPTO_wbsm4_gen_table(c, KEY, 16); strcpy(b, i ? "kr" : "kg"); WBCRYPTO_wbsm4_key2file(c, b); if (!i && !done) { char *k; WBCRYPTO_wbsm4_key2bytes(c, &k); blob_ = (uint8_t *)k; done = 1; } }
    static uint8_t buf[2 << 20]; long n = get("kg", buf, sizeof buf); put("kt", buf, n / 2); buf[2] ^= 1; put("kb", buf, n);
}
static const family FAM[] = {
    {"aes", 18, ciph_op, ciph_fini, 1, 3, 4}, {"sm4", 18, ciph_op, ciph_fini, 1, 3, 4}, {"wbaes", 18, ciph_op, ciph_fini, 1, 1, 2}, {"se_wbsm4", 10, ciph_op, ciph_fini, 2, 2, 3}, {"wbsm4", 18, ciph_op, ciph_fini, 6, 1, 2},
    {"gcm", 15, gcm_op, gcm_fini, C_N + 1, 3, 4}, {"wbgcm", 10, wbg_op, wbg_fini, 2, 3, 4}, {"files", 13, file_op, file_fini, F_N, 2, 3}, {"fpe", 25, fpe_op, fpe_fini, K_N, 2, 3}, {"fpe-mac", 27, mac_op, mac_fini, K_N, 2, 3},
    {"application", 36, app_op, app_fini, 8, 2, 2}, {"mysql", 20, udf_op, udf_fini, 1, 3, 3}, {"wbsm4-export", 13, exp_op, exp_fini, 2, 2, 3}};
enum { NF = sizeof FAM / sizeof *FAM };
static int base_cfg(int fi) { return fi == 1 ? 1 : fi == 2 ? 2 : fi == 3 ? 3 : fi == 4 ? 5 : 0; }
typedef struct { int fi, cfg, n; int op[6]; } seq;
static void run_seq(void *v)
{
    seq *q = v; fam f; memset(&f, 0, sizeof f); f.cfg = q->cfg; wb_seed(4000 + q->fi);
    for (int i = 0; i < q->n; i++) FAM[q->fi].op(&f, q->op[i]);
    FAM[q->fi].fini(&f);
}
static int prepared = -1;
static void prep(int fi, int cfg)
{
    if (prepared == fi * 100 + cfg) return; prepared = fi * 100 + cfg;
    if (FAM[fi].op == file_op) file_prep(cfg); else if (FAM[fi].op == exp_op) exp_prep(); else if (FAM[fi].op == wbg_op) wbg_shared(cfg); else if (FAM[fi].op == gcm_op && cfg < C_N) ciph_shared(cfg); else if (FAM[fi].op == app_op) sh(cfg >> 1, cfg & 1);
}
/* single calls over input lengths */
typedef struct { int what, a, b, c; } call1;
static void one(void *v)
{
    call1 *q = v; static uint8_t o[2048]; static char x[2048], y[2048]; uint8_t tw[400]; memset(tw, 3, sizeof tw); wb_seed(1);
    switch (q->what) {
    case 0: { WBCRYPTO_fpe_context *c = WBCRYPTO_fpe_init(tw, q->c, q->a, fpe_toy(0), toy_block); ftext(x, q->b, q->a, 9); for (int m = 0; m < 4; m++) fcall(m & 2 ? 3 : 1, m & 1, c, x, y); WBCRYPTO_fpe_free(c); break; }
    case 1: { WBCRYPTO_fpe_mac_context *c = WBCRYPTO_fpe_mac_init(tw, q->c, q->a, fpe_toy(0), toy_block); ftext(x, q->b, q->a, 9); for (int m = 0; m < 4; m++) { size_t n = 16; fmcall(m & 2 ? 3 : 1, m & 1, c, x, y); fmfin(m & 2 ? 3 : 1, c, o, &n); } WBCRYPTO_fpe_mac_free(c); break; }
    case 2: { void *c = cnew(q->c); ckey(q->c, c, 16); ccbc(q->c, c, 0, q->a, q->b); ccbc(q->c, c, 1, q->a, q->b); crel(q->c, c); break; }
    case 3: { WBCRYPTO_gcm_context *g = WBCRYPTO_gcm_init(fpe_toy(0), toy_block); WBCRYPTO_gcm_setiv(g, DATA, q->c); WBCRYPTO_gcm_aad(g, DATA, q->b % 40); WBCRYPTO_gcm_parallel_encrypt(g, DATA, q->a, o, q->b); WBCRYPTO_gcm_encrypt(g, DATA, q->a, o, q->b); WBCRYPTO_gcm_parallel_decrypt(g, DATA, q->a, o, q->b); WBCRYPTO_gcm_decrypt(g, DATA, q->a, o, q->b); WBCRYPTO_gcm_finish(g, o, q->c % 20); WBCRYPTO_gcm_free(g); break; }
    case 4: { char t[64], s[64]; strcpy(t, q->a == PHONE ? phones[3] : ids[q->c]); int n = (int)strlen(t); for (int i = 0; i < n; i++) s[i] = q->b >> i & 1 ? '*' : t[i]; s[n] = 0; lib(sh(0, 0), q->a, 0, t, y, s); lib(sh(0, 1), q->a, 1, t, y, s); break; }
    case 5: { char t[64], s[64]; cntext(t, 8, 3); cnsample(s, 8, q->b, t, 1); lib(sh(0, 0), CN, 0, t, y, s); lib(sh(0, 1), CN, 1, t, y, s); break; }
    case 6: { WBCRYPTO_wbsm4_context *c = WBCRYPTO_wbsm4_context_init(q->a & 1, q->b); WBCRYPTO_wbsm4_gen_table(c, KEY, q->c); WBCRYPTO_wbsm4_context_free(c); break; }
    case 7: { void *c = cnew(q->a); ckey(q->a, c, q->b); ckey(q->a, c, q->c); cblk(q->a, c, 0); crel(q->a, c); break; }
    case 8: { uint8_t d[32]; WBCRYPTO_sm3(DATA, q->a, d); WBCRYPTO_sm3_context s; WBCRYPTO_sm3_init(&s); WBCRYPTO_sm3_update(&s, DATA, q->a); WBCRYPTO_sm3_update(&s, DATA, q->b); WBCRYPTO_sm3_final(&s, d); break; }
    case 9: { WBCRYPTO_wbaes_wbgcm_ee_context *k = malloc(sizeof *k); WBCRYPTO_wbaes_wbgcm_ee_gen_table(k, KEY, q->a); WBCRYPTO_wbgcm_ee_context *g = WBCRYPTO_wbaes_wbgcm_ee_init(k); WBCRYPTO_wbaes_wbgcm_ee_free(g); free(k); break; }
    case 10: { static WBCRYPTO_wbaes_wbgcm_mask_context *e, *d; if (!e) { e = WBCRYPTO_wbaes_wbgcm_mask_init_table(); d = WBCRYPTO_wbaes_wbgcm_mask_init_table(); } WBCRYPTO_wbaes_wbgcm_mask_gen_table(e, d, KEY, q->a); WBCRYPTO_wbgcm_mask_context *g = WBCRYPTO_wbaes_wbgcm_mask_init(d); WBCRYPTO_wbaes_wbgcm_mask_free(g); break; }
    }
}
/* a block function that fails from its k-th call on: the failing calls of the modes */
static long left_; static int fails_;
static int failing(const unsigned char *in, unsigned char *out, const void *k) { fails_ += left_ <= 0; return left_-- > 0 ? toy_block(in, out, k) : 0; }
static void fail1(void *v)
{
    call1 *q = v; static uint8_t o[2048]; uint8_t iv[16] = {5}, tag[16]; size_t u = 0; WBCRYPTO_gcm_context *g; left_ = q->a; char y[256];
    switch (q->b) {
    case 0: case 1: case 2: case 3: { static const int n[] = {0, 15, 64, 100}; WBCRYPTO_cbc128_encrypt(DATA, n[q->b], o, 200, &u, fpe_toy(0), iv, failing); break; }
    case 4: case 5: WBCRYPTO_cbc128_decrypt(DATA, q->b == 4 ? 16 : 112, o, 200, &u, fpe_toy(0), iv, failing); break;
    case 6: case 7: case 8: case 9: g = WBCRYPTO_gcm_init(fpe_toy(0), failing); if (!g) break; WBCRYPTO_gcm_setiv(g, DATA, q->b & 1 ? 12 : 30); WBCRYPTO_gcm_aad(g, DATA, 20); (q->b < 8 ? WBCRYPTO_gcm_encrypt : WBCRYPTO_gcm_decrypt)(g, DATA, 100, o, 100); WBCRYPTO_gcm_finish(g, tag, 16); WBCRYPTO_gcm_free(g); break;
    case 10: case 11: g = WBCRYPTO_gcm_init(fpe_toy(0), failing); if (!g) break; WBCRYPTO_gcm_setiv(g, DATA, 12); (q->b == 10 ? WBCRYPTO_gcm_parallel_encrypt : WBCRYPTO_gcm_parallel_decrypt)(g, DATA, 100, o, 100); WBCRYPTO_gcm_finish(g, tag, 16); WBCRYPTO_gcm_free(g); break;
    case 12: case 13: case 14: case 15: { WBCRYPTO_fpe_context *c = WBCRYPTO_fpe_init(KEY, 8, 10, fpe_toy(0), failing); if (!c) break; fcall(q->b & 2 ? 3 : 1, q->b & 1, c, "0123456789", y); WBCRYPTO_fpe_free(c); break; }
    case 16: case 17: case 18: case 19: { WBCRYPTO_fpe_mac_context *c = WBCRYPTO_fpe_mac_init(KEY, 8, 10, fpe_toy(0), failing); if (!c) break; u = 16; fmcall(q->b & 2 ? 3 : 1, q->b & 1, c, "0123456789", y); fmfin(q->b & 2 ? 3 : 1, c, tag, &u); WBCRYPTO_fpe_mac_free(c); break; }
    case 20: case 21: case 22: { WBCRYPTO_gcmfile_context *c = WBCRYPTO_gcmfile_init(fpe_toy(0), failing); if (!c) break; WBCRYPTO_gcmfile_setiv(c, DATA, 12); char a[8], b[8]; strcpy(a, q->b == 20 ? "p" : q->b == 21 ? "q" : "r"); strcpy(b, "o"); (q->b == 20 ? WBCRYPTO_gcmfile_encrypt : WBCRYPTO_gcmfile_decrypt)(c, a, b); WBCRYPTO_gcmfile_free(c); break; }
    }
}
/* erasure: c 0 AES, 1 SM4, 2 GCM over AES, 3 GCM over SM4; the content of a released context */
static void erase(int c, int history)
{
    static const size_t sz[] = {sizeof(WBCRYPTO_aes_context), sizeof(WBCRYPTO_sm4_context), sizeof(WBCRYPTO_gcm_context), sizeof(WBCRYPTO_gcm_context)};
    static const char *const nm[] = {"aes", "sm4", "aes-gcm", "sm4-gcm"}; static uint8_t b[64]; uint8_t tag[16];
    void *p = c < 2 ? cnew(c) : (void *)ciph_gcm(ciph_shared(c - 2)); int keyed = 0; VP_CHECK(p, "no context");
    for (int h = history, i = 0; i < 3; i++, h /= 5) {
        int o = h % 5; if (o && o < 3) keyed = 1;
        if (c >= 2) { if (o == 1 || o == 2) WBCRYPTO_gcm_setiv(p, DATA, o == 1 ? 12 : 20); else if (!keyed) continue; else if (o == 3) WBCRYPTO_gcm_encrypt(p, DATA, 40, b, 40); else if (o == 4) { WBCRYPTO_gcm_decrypt(p, DATA, 32, b, 32); WBCRYPTO_gcm_finish(p, tag, 16); } continue; }
        if (o == 1) ckey(c, p, 16); else if (o == 2) ckey(c, p, 7); else if (!keyed) continue; else if (o == 3) cblk(c, p, 0); else if (o == 4) ccbc(c, p, 1, 48, 64);
    }
    VP_CHECK(sz[c] <= sizeof watch_old, "context too big for the harness"); memcpy(watch_old, p, sz[c]); watch_n = sz[c]; watch_freed = 0; watch = p;
    if (c < 2) crel(c, p); else WBCRYPTO_gcm_free(p);
    if (!watch_freed) look(p);
    watch = NULL;
    VP_CHECK(!watch_same, "%s: a released context still holds its keys (%d groups of 8 bytes)", nm[c], watch_same);
}
void vp_main(void)
{
    vp_bytes(KEY, 16, 3); vp_bytes(DATA, sizeof DATA, 4);
    static char what[300]; int only = -1;
#ifdef ONLY_MYSQL
    only = 11;
#endif
    /* erasure */
    if (only < 0) for (int c = 0; c < 4; c++) for (int h = 0; h < 125; h++) if (vp_case("erase %d history %d", c, h)) { erase(c, h); vp_step(c * 1000 + h); }
    /* all sequences */
    for (int fi = 0; fi < NF; fi++) for (int cfg = 0; cfg < FAM[fi].ncfg && (only < 0 || only == fi); cfg++) {
        int D = VP_T(FAM[fi].depth_q, FAM[fi].depth_t);
        if (FAM[fi].op == gcm_op && cfg < C_N) D--; if (FAM[fi].op == file_op && cfg > F_AES && cfg < F_EE) D = 1; if ((fi == 8 || fi == 9) && cfg != K_TOY) D--; if (fi == 10 && cfg != 0 && cfg != 1) D = 1; if (fi == 6 && cfg == 1) D--;
        for (int n = 1; n <= D; n++) {
            long tot = 1; for (int i = 0; i < n; i++) tot *= FAM[fi].n;
            for (long x = 0; x < tot; x++) {
                if (!vp_case("%s cfg %d length %d sequence %ld", FAM[fi].name, cfg, n, x)) continue;
                seq q = {fi, base_cfg(fi) + cfg, n}; long r = x; for (int i = 0; i < n; i++, r /= FAM[fi].n) q.op[i] = (int)(r % FAM[fi].n);
                prep(fi, cfg); int k = snprintf(what, sizeof what, "%s (configuration %d), operations", FAM[fi].name, cfg); for (int i = 0; i < n; i++) k += snprintf(what + k, sizeof what - k, " %d", q.op[i]);
                steady(run_seq, &q, what); vp_step(vp_hash(fi * 100 + cfg, q.op, n * sizeof(int)));
            }
        }
    }
    if (only >= 0) return;
    /* single calls */
#define ONE(w, A, B, C, ...) do { if (vp_case("call %d %d %d %d", w, A, B, C)) { call1 q = {w, A, B, C}; snprintf(what, sizeof what, __VA_ARGS__); steady(one, &q, what); vp_step(vp_hash(w, &q, sizeof q)); } } while (0)
    for (int r = 2; r <= 36; r += VP_T(2, 1)) for (int n = 0; n <= VP_T(70, 200); n++) { ONE(0, r, n, 8, "FF1/FF3 radix %d, %d characters", r, n); ONE(1, r, n, 8, "FF1-CMAC/FF3-GMAC radix %d, %d characters", r, n); }
    for (int i = 0; i < 10; i++) for (int r = 0; r < 4; r++) { static const int nn[] = {100, 130, 160, 200, 260, 320, 400, 500, 700, 1000}, rr[] = {2, 10, 26, 36}; ONE(0, rr[r], nn[i], 8, "FF1/FF3 radix %d, %d characters", rr[r], nn[i]); ONE(1, rr[r], nn[i], 8, "FF1-CMAC/FF3-GMAC radix %d, %d characters", rr[r], nn[i]); }
    for (int b = 0; b < 23; b++) for (int k = 0; k < 60; k++) if (vp_case("failing block function, call %d, from use %d on", b, k)) { if (b >= 20) { prepared = -1; file_prep(F_TOY); } call1 q = {0, k, b}; snprintf(what, sizeof what, "call %d with a block function that fails from use %d on", b, k); steady(fail1, &q, what); vp_step(b * 100 + k); }
    for (int t = 0; t <= 300; t++) { ONE(0, 10, 20, t, "FF1/FF3 tweak of %d bytes", t); ONE(1, 10, 20, t, "FF1-CMAC/FF3-GMAC tweak of %d bytes", t); }
    for (int c = 0; c < 2; c++) for (int n = 0; n <= 100; n++) for (int cap = 0; cap <= 128; cap += VP_T(8, 1)) ONE(2, n, cap, c, "CBC %d, %d bytes, capacity %d", c, n, cap);
    for (int n = 0; n <= 200; n++) for (int iv = 0; iv <= 20; iv += VP_T(4, 1)) { ONE(3, n, n, iv, "GCM %d bytes, IV of %d bytes", n, iv); if (n) ONE(3, n, n - 1, iv, "GCM %d bytes into too small a buffer, IV of %d bytes", n, iv); }
    for (int m = 0; m < 2048; m++) ONE(4, PHONE, m, 0, "phone sample %x", m);
    for (int m = 0; m < 1 << 18; m += VP_T(127, 5)) ONE(4, ID, m, m % 5, "ID sample %x", m);
    for (int m = 0; m < 256; m++) ONE(5, CN, m, 0, "Chinese sample %x", m);
    for (int d = 0; d <= VP_T(6, 24); d++) for (int m = 0; m < 2; m++) ONE(6, m, d, 16 - d % 3, "wbsm4 tables, mode %d, %d dummy rounds", m, d);
    for (int c = 0; c < 4; c++) for (int a = 0; a <= 20; a += c == 2 ? VP_T(20, 4) : 1) for (int b = 0; b <= 20; b += c == 2 ? 16 : 4) ONE(7, c, a, b, "cipher %d, keys of %d and %d bytes", c, a, b);
    for (int n = 0; n <= 200; n++) ONE(8, n, n * 3, 0, "SM3 %d bytes", n);
    for (int n = 0; n <= 16; n += VP_T(8, 1)) { ONE(9, n, 0, 0, "white-box GCM tables (ee), key of %d bytes", n); ONE(10, n, 0, 0, "white-box GCM tables (mask), key of %d bytes", n); }
}

/* C21: a call that runs out of memory, or whose block function fails, reports failure; nothing is lost and the call can be made again. */
#define _GNU_SOURCE
#include "files.h"
#include "appfpe.h"
#include <wbcrypto/sm3.h>
#include <wbcrypto/se_wbsm4.h>
#include <wbcrypto/utils.h>
#include <stdbool.h>
#include <mysql.h>
#include <malloc.h>
#include <link.h>
bool fpe_init(UDF_INIT *, UDF_ARGS *, char *); void fpe_deinit(UDF_INIT *); char *fpe(UDF_INIT *, UDF_ARGS *, char *, unsigned long *, char *, char *);

/* --- allocation faults: only of the library, the plugin, libcrypto and stdio (not of the OpenMP or C++ run-time) */
void *__libc_malloc(size_t); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void __libc_free(void *); void *__libc_memalign(size_t, size_t);
static long live_n; static volatile int armed; static long seen, at; static int all, fired, kind;
static struct { uintptr_t a, b; } skip[16]; static int nskip;
static int phdr(struct dl_phdr_info *i, size_t s, void *v)
{
    if (!strstr(i->dlpi_name, "gomp") && !strstr(i->dlpi_name, "stdc++") && !strstr(i->dlpi_name, "ld-linux")) return 0;
    for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X) && nskip < 16) { skip[nskip].a = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; skip[nskip].b = skip[nskip].a + i->dlpi_phdr[k].p_memsz; nskip++; }
    return 0;
}
static int hit(int k) /* does this event fail? */
{
    if (!armed || k != kind) return 0;
    long n = __atomic_fetch_add(&seen, 1, __ATOMIC_RELAXED);
    if (at < 0 || !(all ? n >= at : n == at)) return 0;
    fired = 1; return 1;
}
static int no(void *ra) { if (!armed || kind) return 0; uintptr_t x = (uintptr_t)ra; for (int i = 0; i < nskip; i++) if (x >= skip[i].a && x < skip[i].b) return 0; return hit(0); }
static void *in(void *p) { if (p) __atomic_add_fetch(&live_n, 1, __ATOMIC_RELAXED); return p; }
#define RA __builtin_return_address(0)
void *malloc(size_t n) { return no(RA) ? NULL : in(__libc_malloc(n)); }
void *calloc(size_t a, size_t b) { return no(RA) ? NULL : in(__libc_calloc(a, b)); }
void free(void *p) { if (p) __atomic_sub_fetch(&live_n, 1, __ATOMIC_RELAXED); __libc_free(p); }
void *realloc(void *p, size_t n) { if (no(RA)) return NULL; return p ? __libc_realloc(p, n) : in(__libc_realloc(p, n)); }
void *memalign(size_t a, size_t n) { return in(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n) { return in(__libc_memalign(a, n)); }
int posix_memalign(void **p, size_t a, size_t n) { *p = in(__libc_memalign(a, n)); return *p ? 0 : 12; }
/* a block function that can fail */
static int fblock(const uint8_t i[16], uint8_t o[16], const void *k) { return hit(1) ? 0 : toy_block(i, o, k); }

/* --- a call: it works; or there was a fault, and then it works when made again */
static const char *what; static int again;
#define TRY(...) do { armed = 1; int ok_ = !!(__VA_ARGS__); armed = 0; \
    if (!ok_) { if (!fired || again) vp_fail("%s: %s fails%s", what, #__VA_ARGS__, again ? " again, without a fault" : " although nothing went wrong"); again = 1; at = -1; \
        armed = 1; ok_ = !!(__VA_ARGS__); armed = 0; if (!ok_) vp_fail("%s: %s fails again, without a fault", what, #__VA_ARGS__); } } while (0)
static uint8_t KEY[16], DATA[4096]; static uint64_t dig_; static uint8_t O[4096], O2[4096]; static char x_[2048], y_[2048], z_[2048];
static void eat(const void *p, size_t n) { dig_ = vp_hash(dig_, p, n); }

static void *cnew(int c) { switch (c) { case 0: return WBCRYPTO_aes_context_init(); case 1: return WBCRYPTO_sm4_context_init(); case 2: return WBCRYPTO_wbaes_context_init(); case 3: case 4: return WBCRYPTO_se_wbsm4_context_init(c == 3); default: return WBCRYPTO_wbsm4_context_init((c - 5) & 1, (c - 5) >> 1); } }
static void crel(int c, void *p) { switch (c) { case 0: WBCRYPTO_aes_context_free(p); break; case 1: WBCRYPTO_sm4_context_free(p); break; case 2: WBCRYPTO_wbaes_context_free(p); break; case 3: case 4: WBCRYPTO_se_wbsm4_context_free(p); break; default: WBCRYPTO_wbsm4_context_free(p); } }
static int ckey(int c, void *p, size_t n) { switch (c) { case 0: return WBCRYPTO_aes_init_key(p, KEY, n); case 1: return WBCRYPTO_sm4_init_key(p, KEY, n); case 2: return WBCRYPTO_wbaes_gen_table(p, KEY, n); case 3: case 4: return WBCRYPTO_se_wbsm4_gen_table(p, KEY, n); default: return WBCRYPTO_wbsm4_gen_table(p, KEY, n); } }
static int cblk(int c, void *p, uint8_t *o) { switch (c) { case 0: return WBCRYPTO_aes_encrypt(DATA, o, p); case 1: return WBCRYPTO_sm4_encrypt(DATA, o, p); case 2: return WBCRYPTO_wbaes_encrypt(DATA, o, p); case 3: return WBCRYPTO_se_wbsm4_encrypt(DATA, o, p); case 4: return WBCRYPTO_se_wbsm4_decrypt(DATA, o, p); default: return c & 1 ? WBCRYPTO_wbsm4_decrypt(DATA, o, p) : WBCRYPTO_wbsm4_encrypt(DATA, o, p); } }

/* --- scenarios */
static void s_init(int c) { void *p = NULL; TRY((p = cnew(c)) != NULL); crel(c, p); }
static void s_cipher(int c) { void *p = NULL; if (c < 5) TRY((p = cnew(c)) != NULL); else p = cnew(c); TRY(ckey(c, p, 16)); TRY(cblk(c, p, O)); eat(O, 16); TRY(ckey(c, p, 7)); TRY(cblk(c, p, O)); eat(O, 16); crel(c, p); }
static void s_cbc(int c)
{
    static const int n[] = {0, 15, 16, 100}; ciph *k = c < C_N ? ciph_shared(c) : NULL; uint8_t iv[16]; size_t u;
    for (int i = 0; i < 4; i++) {
        TRY((memset(iv, 5, 16), u = 0, k ? ciph_cbc_enc(k, DATA, n[i], O, 200, &u, iv) : WBCRYPTO_cbc128_encrypt(DATA, n[i], O, 200, &u, fpe_toy(0), iv, fblock))); eat(O, u);
        if (k && !ciph_has_cbc_dec(c)) continue; size_t v = u;
        if (k) { TRY((memset(iv, 5, 16), ciph_cbc_dec(k, O, u, O2, 200, &v, iv))); eat(O2, v); }
        else { /* the block function is no permutation: a ciphertext made so that its padding is right */
            int m = 16 * (i + 1); uint8_t d[16], *prev = i ? O + m - 32 : iv; memcpy(O, DATA, m); memset(iv, 5, 16); toy_block(O + m - 16, d, fpe_toy(0)); uint8_t b = prev[15] = d[15] ^ 1;
            TRY((memset(iv, 5, 16), i ? 0 : (iv[15] = b), WBCRYPTO_cbc128_decrypt(O, m, O2, 200, &v, fpe_toy(0), iv, fblock))); eat(O2, v);
        }
    }
}
static void s_gcm(int c)
{
    WBCRYPTO_gcm_context *g = NULL; uint8_t t[16]; int par = c & 1; c >>= 1;
    TRY((g = c < C_N ? ciph_gcm(ciph_shared(c)) : WBCRYPTO_gcm_init(fpe_toy(0), fblock)) != NULL);
    for (int i = 0; i < 4; i++) {
        static const int n[] = {0, 16, 50, 64}; int iv = i == 2 ? 37 : 12;
        TRY(WBCRYPTO_gcm_setiv(g, DATA, iv) && WBCRYPTO_gcm_aad(g, DATA, 21) && (par ? WBCRYPTO_gcm_parallel_encrypt : WBCRYPTO_gcm_encrypt)(g, DATA, n[i], O, n[i]) && WBCRYPTO_gcm_finish(g, t, 16)); eat(O, n[i]); eat(t, 16);
        TRY(WBCRYPTO_gcm_setiv(g, DATA, iv) && WBCRYPTO_gcm_aad(g, DATA, 21) && (par ? WBCRYPTO_gcm_parallel_decrypt : WBCRYPTO_gcm_decrypt)(g, DATA, n[i], O, n[i]) && WBCRYPTO_gcm_finish(g, t, 16)); eat(O, n[i]); eat(t, 16);
    }
    WBCRYPTO_gcm_free(g);
}
static void s_wbg(int k)
{
    wbgkey *K = wbg_shared(k); void *g = NULL; uint8_t t[16];
    TRY((g = k == G_EE ? (void *)WBCRYPTO_wbaes_wbgcm_ee_init(K->ek) : (void *)WBCRYPTO_wbaes_wbgcm_mask_init(K->ek)) != NULL);
    TRY(wbg_setiv(k, g, DATA, 12) && wbg_aad(k, g, DATA, 21) && wbg_enc(k, g, DATA, 50, O, 50) && wbg_fin(k, g, t, 16)); eat(O, 50); eat(t, 16); wbg_free(k, g);
}
static void s_mask(int k)
{
    static WBCRYPTO_wbaes_wbgcm_mask_context *t; /* the library has no call that releases these tables */
    TRY((t = WBCRYPTO_wbaes_wbgcm_mask_init_table()) != NULL);
    for (int i = 0; i < 16; i++) { for (int j = 0; j < 256; j++) { memset(t->GBOX_TypeIII[i][j], 1, 256); free(t->GBOX_TypeIII[i][j]); } free(t->GBOX_TypeIII[i]); } free(t->GBOX_TypeIII); free(t);
}
static void s_file(int kd)
{
    static const int n[] = {0, 300, 2500}; fctx x = {kd == F_N ? F_TOY : kd, NULL, NULL, NULL}; block128_f fn = kd == F_N ? fblock : toy_block;
    for (int d = 0; d < 2; d++) { void **p = d ? &x.d : &x.e; TRY((*p = x.kind == F_TOY ? (void *)WBCRYPTO_gcmfile_init(fpe_toy(0), fn) : kd < F_EE ? (void *)ciph_gcmfile(ciph_shared(kd - F_AES)) : kd == F_EE ? (void *)WBCRYPTO_wbaes_wbgcm_ee_init(wbg_shared(0)->ek) : (void *)WBCRYPTO_wbaes_wbgcm_mask_init(d ? wbg_shared(1)->dk : wbg_shared(1)->ek)) != NULL); }
    for (int i = 0; i < 3; i++) {
        put("p", DATA, n[i]);
        TRY(f_iv(&x, 0, DATA, 12) && f_aad(&x, 0, DATA, 9) && f_enc(&x, "p", "q") == 1); long k = get("q", O, sizeof O); if (kd != F_MASK) eat(O, k);
        TRY(f_iv(&x, 1, DATA, 12) && f_aad(&x, 1, DATA, 9) && f_dec(&x, "q", "o") == 1); k = get("o", O, sizeof O); eat(O, k);
    }
    if (x.kind < F_EE) { WBCRYPTO_gcmfile_free(x.e); WBCRYPTO_gcmfile_free(x.d); } else { wbg_free(kd - F_EE, x.e); wbg_free(kd - F_EE, x.d); }
    cleandir();
}
static void s_fpe(int c) /* c: length class, radix class, kind of cipher */
{
    static const int n[] = {2, 11, 60, 400}, r[] = {10, 36, 2}; int L = n[c % 4], R = r[c / 4 % 3], real = c / 12; WBCRYPTO_fpe_context *f = NULL; ftext(x_, L, R, 9);
    TRY((f = real ? fnew(real - 1, 0, KEY, 8, R) : WBCRYPTO_fpe_init(KEY, 8, R, fpe_toy(0), fblock)) != NULL);
    for (int m = 0; m < 4; m++) { memset(y_, 0, sizeof y_); TRY(fcall(m & 2 ? 3 : 1, m & 1, f, x_, y_)); eat(y_, strlen(y_)); }
    WBCRYPTO_fpe_free(f);
}
static void s_mac(int c)
{
    static const int n[] = {2, 11, 60, 400}, r[] = {10, 36, 2}; int L = n[c % 4], R = r[c / 4 % 3], real = c / 12; WBCRYPTO_fpe_mac_context *f = NULL; uint8_t t[16]; size_t k; ftext(x_, L, R, 9);
    TRY((f = real ? fmnew(real - 1, 0, KEY, 8, R) : WBCRYPTO_fpe_mac_init(KEY, 8, R, fpe_toy(0), fblock)) != NULL);
    for (int m = 0; m < 4; m++) { int ff = m & 2 ? 3 : 1; memset(y_, 0, sizeof y_); TRY(fmcall(ff, m & 1, f, x_, y_) && (k = 16, fmfin(ff, f, t, &k))); eat(y_, strlen(y_)); eat(t, 16); }
    WBCRYPTO_fpe_mac_free(f);
}
static void s_appinit(int c)
{
    int ci = c / 2, fi = c % 2; WBCRYPTO_fpe_app_context a; char cs[8], fs[8]; strcpy(cs, cs_[ci]); strcpy(fs, fs_[fi]);
    TRY((memset(&a, 0x5a, sizeof a), WBCRYPTO_fpe_app_init(&a, KEY, 16, cs, fs))); app w; w.c = a; strcpy(x_, "13888888888"); TRY(lib(&w, PHONE, 0, x_, y_, NULL)); eat(y_, 12);
    crel(ci == 0 ? 0 : ci == 1 ? 2 : ci == 2 ? 1 : 5, a.cipher_ctx);
}
static void s_app(int c)
{
    app w = *sh(c / 2, c % 2);
    static const char *const t[] = {"13888888888", "11010119900307123X", "\xe4\xb8\x80\xe5\xbc\xa0\xe4\xb8\x89\xe6\x9d\x8e"}, *const s[] = {"138****8888", "110101********123X", "\xe4\xb8\x80***"};
    for (int k = 0; k < 3; k++) for (int m = 0; m < 4; m++) { strcpy(x_, t[k]); strcpy(z_, s[k]); memset(y_, 0, 100); TRY(lib(&w, k, m & 1, x_, y_, m & 2 ? z_ : NULL)); eat(y_, strlen(y_)); VP_CHECK(!strcmp(x_, t[k]), "%s: the text given was changed", what); }
}
static void s_udf(int c)
{
    static const char *const t[] = {"13888888888", "11010119900307123X", "\xe4\xb8\x80\xe5\xbc\xa0\xe4\xb8\x89\xe6\x9d\x8e\xe5\x9b\x9b\xe7\x8e\x8b", "\xe4\xb8\x80\xe5\xbc\xa0"}, *const mo[] = {"phone", "idcard", "name", "address"};
    UDF_INIT id; enum Item_result ty[3] = {STRING_RESULT, STRING_RESULT, STRING_RESULT}; char *ar[3] = {0}; unsigned long le[3] = {4, 12, 12}; char mn[3] = {1, 1, 1}; char *an_[3] = {"x", "x", "x"}; unsigned long al[3] = {1, 1, 1}; char msg[512], r[255], nl = 0, er = 0; unsigned long rl = 255;
    UDF_ARGS a; memset(&a, 0, sizeof a); a.arg_count = 2; a.arg_type = ty; a.args = ar; a.lengths = le; a.maybe_null = mn; a.attributes = an_; a.attribute_lengths = al;
    TRY((memset(&id, 0, sizeof id), !fpe_init(&id, &a, msg)));
    for (int i = 0; i < 4; i++) {
        char *o = NULL; strcpy(x_, t[i]); strcpy(z_, mo[i]); ar[0] = x_; ar[1] = z_; le[0] = strlen(x_); le[1] = strlen(z_);
        TRY((nl = er = 0, rl = 255, o = fpe(&id, &a, r, &rl, &nl, &er), !er && !nl && o)); eat(o, rl);
    }
    fpe_deinit(&id);
}
static void s_export(int c)
{
    static WBCRYPTO_wbsm4_context *ex[2]; WBCRYPTO_wbsm4_context *b = NULL; char *k = NULL, f[8]; strcpy(f, "k"); int viafile = c & 1; c >>= 1;
    if (!ex[c]) { ex[c] = WBCRYPTO_wbsm4_context_init(1, c); WBCRYPTO_wbsm4_gen_table(ex[c], KEY, 16); }
    WBCRYPTO_wbsm4_context *a = ex[c]; b = WBCRYPTO_wbsm4_context_init(1, 1 - c);
    if (!viafile) { TRY(WBCRYPTO_wbsm4_key2bytes(a, &k)); TRY(WBCRYPTO_wbsm4_bytes2key(b, k)); TRY(WBCRYPTO_wbsm4_encrypt(DATA, O, b)); eat(O, 16); free(k); WBCRYPTO_wbsm4_context_free(b); return; }
    TRY(WBCRYPTO_wbsm4_key2file(a, f)); TRY(WBCRYPTO_wbsm4_file2key(b, f)); TRY(WBCRYPTO_wbsm4_encrypt(DATA, O, b)); eat(O, 16);
    WBCRYPTO_wbsm4_context_free(b);
    strcpy(f, "s"); TRY(WBCRYPTO_keystore_key_to_file(DATA, 500, f)); TRY(WBCRYPTO_keystore_file_to_key(O, 500, f)); eat(O, 500); cleandir();
}
static void s_misc(int c) { TRY(WBCRYPTO_sm3(DATA, 1000, O)); eat(O, 32); }
static const struct { const char *name; void (*f)(int); int n, blk; } SC[] = { /* blk: from which configuration on the block function is the failing one (-1: none) */
    {"context", s_init, 11, -1}, {"cipher", s_cipher, 9, -1}, {"cbc", s_cbc, C_N + 1, C_N}, {"gcm", s_gcm, 2 * C_N + 2, 2 * C_N}, {"wbgcm", s_wbg, 2, -1}, {"mask tables", s_mask, 1, -1}, {"files", s_file, F_N + 1, F_N}, {"fpe", s_fpe, 36, 0}, {"fpe-mac", s_mac, 36, 0}, {"application context", s_appinit, 8, -1}, {"application", s_app, 8, -1}, {"mysql", s_udf, 1, -1}, {"export", s_export, 4, -1}, {"sm3", s_misc, 1, -1}};
enum { NS = sizeof SC / sizeof *SC };
static uint64_t run(int s, int c, int kd, long k, int al)
{
    static char w[200]; snprintf(w, sizeof w, "%s %d, %s %ld%s", SC[s].name, c, kd ? "failing block function, use" : "out of memory, allocation", k, al ? " and all later ones" : ""); what = w;
    kind = kd; at = k; all = al; seen = 0; fired = 0; again = 0; armed = 0; dig_ = 1; wb_seed(5 + s); SC[s].f(c); return dig_;
}
void vp_main(void)
{
    vp_bytes(KEY, 16, 3); vp_bytes(DATA, sizeof DATA, 4); dl_iterate_phdr(phdr, NULL); void *volatile warm = malloc(64); free(warm);
    for (int s = 0; s < NS; s++) for (int c = 0; c < SC[s].n; c++) {
        if (!vp_thorough && (SC[s].f == s_fpe || SC[s].f == s_mac) && (c >= 12 ? c % 4 != 1 || c % 3 : c % 4 == 3 && c != 3)) continue;
        for (int kd = 0; kd < 2; kd++) {
            if (kd && (SC[s].blk < 0 || (SC[s].blk ? c < SC[s].blk : c >= 12))) continue;
            uint64_t d0 = run(s, c, kd, -1, 0); d0 = run(s, c, kd, -1, 0); long n = seen; int step = 1; /* the second run: everything that is set up once is there */
            if (!vp_thorough && SC[s].f != s_mask && SC[s].f != s_init && n > 700) step = (int)(n / (SC[s].f == s_appinit ? 30 : 200)) | 1;
            for (long k = 0; k < n; k += k < 20 || k > n - 40 ? 1 : step) for (int al = 0; al < 2; al++) {
                if (!vp_case("%s %d kind %d fault %ld all %d", SC[s].name, c, kd, k, al)) continue;
                uint64_t d = run(s, c, kd, k, al); vp_step(vp_hash(d, &k, sizeof k)); vp_outcome(again ? 1 : 2);
                if (!fired) vp_note("faults_not_reached", 1);
                VP_CHECK(d == d0, "%s: success is reported but the result differs from that of the undisturbed run", what);
                long l0 = live_n; run(s, c, kd, k, al); long l1 = live_n; run(s, c, kd, k, al);
                if (live_n > l1 && l1 > l0) { for (int i = 0; i < 10; i++) run(s, c, kd, k, al); l0 = live_n; for (int i = 0; i < 40; i++) run(s, c, kd, k, al); VP_CHECK(live_n < l0 + 40, "%s: the failing call keeps memory", what); }
                vp_note(kd ? "block_faults" : "allocation_faults", 1);
            }
        }
    }
}

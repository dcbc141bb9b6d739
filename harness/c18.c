/* C18: distinct contexts in different threads do not influence each other (controlled scheduler, see sched.c). */
#include "files.h"
#include "appfpe.h"
#include "csched.h"
#include <wbcrypto/sm3.h>
#include <wbcrypto/se_wbsm4.h>
#include <wbcrypto/utils.h>
#include <WBMatrix/WBMatrix.h>
#include <stdbool.h>
#include <mysql.h>
#include <sys/mman.h>
#include <sys/wait.h>
bool fpe_init(UDF_INIT *, UDF_ARGS *, char *); void fpe_deinit(UDF_INIT *); char *fpe(UDF_INIT *, UDF_ARGS *, char *, unsigned long *, char *, char *);

/* one thread of the user: runs program p; t: which thread it is (chooses data, keys and file names); out: everything it observed */
typedef struct { int p, t; uint8_t out[2048]; size_t n; } env;
static void obs(env *e, const void *p, size_t n) { if (e->n + n > sizeof e->out) abort(); for (size_t i = 0; i < n; i++) e->out[e->n + i] = ((const uint8_t *)p)[i]; e->n += n; }
static void obsi(env *e, long v) { obs(e, &v, sizeof v); }
#define CP sched_call_point()
static toy_t toys[3]; static const void *sh_se[2]; static void *sh_wbsm4d; static uint8_t *blob; static size_t blobn;
static void bytes(uint8_t *p, size_t n, uint64_t s) { for (size_t i = 0; i < n; i++) p[i] = (uint8_t)vp_mix(s * 1000 + i); }

/* --- programs; `a` selects the cipher */
static WBCRYPTO_fpe_context *fc(int a, int t, const uint8_t *tw, size_t n, unsigned r) { return a < 0 ? WBCRYPTO_fpe_init(tw, n, r, &toys[t], toy_block) : ciph_fpe(ciph_shared(a), tw, n, r); }
static void p_fpe(env *e, int ff, int a)
{
    uint8_t tw[8]; bytes(tw, 8, e->t + ff); char x[40], y[40], z[40]; unsigned rx[] = {10, 36, 7}; int n = 11 + 3 * e->t; 
    WBCRYPTO_fpe_context *c = fc(a, e->t, tw, ff == 1 ? 5 + e->t : 8, rx[e->t]); CP; obsi(e, c != NULL); if (!c) return;
    for (int i = 0; i < n; i++) x[i] = dig((int)(vp_mix(i + 50 * e->t) % rx[e->t])); x[n] = 0;
    obsi(e, fcall(ff, 0, c, x, y)); obs(e, y, n + 1); CP;
    obsi(e, fcall(ff, 1, c, y, z)); obs(e, z, n + 1); CP;
    n = 16 + e->t; for (int i = 0; i < n; i++) x[i] = dig((int)(vp_mix(i + 51 * e->t) % rx[e->t])); x[n] = 0;
    obsi(e, fcall(ff, 0, c, x, y)); obs(e, y, n + 1); CP; free(c);
}
static void p_mac(env *e, int ff, int a)
{
    uint8_t tw[8], tag[32]; size_t tn = 16; bytes(tw, 8, e->t + ff); char x[40], y[40]; int n = 11 + 3 * e->t;
    WBCRYPTO_fpe_mac_context *c = a < 0 ? WBCRYPTO_fpe_mac_init(tw, ff == 1 ? 5 + e->t : 8, 10, &toys[e->t], toy_block) : ciph_fpe_mac(ciph_shared(a), tw, 8, 10); CP; obsi(e, c != NULL); if (!c) return;
    for (int i = 0; i < n; i++) x[i] = dig((int)(vp_mix(i + 50 * e->t) % 10)); x[n] = 0;
    obsi(e, fmcall(ff, 0, c, x, y)); obs(e, y, n + 1); CP;
    memset(tag, 0, 32); obsi(e, fmfin(ff, c, tag, &tn)); obs(e, tag, 16); CP;
    obsi(e, fmcall(ff, 1, c, y, x)); obs(e, x, n + 1); CP; memset(tag, 0, 32); obsi(e, fmfin(ff, c, tag, &tn)); obs(e, tag, 16);
}
static void p_gcm(env *e, int par, int a)
{
    WBCRYPTO_gcm_context *g = a < 0 ? WBCRYPTO_gcm_init(&toys[e->t], toy_block) : ciph_gcm(ciph_shared(a)); uint8_t iv[16], d[200], o[200], b[200], tag[16]; bytes(iv, 16, e->t); bytes(d, 200, 7 + e->t); obsi(e, g != NULL); CP; if (!g) return;
    int n1 = 48 + 16 * e->t, n2 = 37 + e->t;
    obsi(e, WBCRYPTO_gcm_setiv(g, iv, 12 + e->t)); obsi(e, WBCRYPTO_gcm_aad(g, d + 3, 20)); CP;
    obsi(e, (par ? WBCRYPTO_gcm_parallel_encrypt : WBCRYPTO_gcm_encrypt)(g, d, n1, o, n1)); CP;
    obsi(e, (par ? WBCRYPTO_gcm_parallel_encrypt : WBCRYPTO_gcm_encrypt)(g, d + n1, n2, o + n1, n2)); obs(e, o, n1 + n2); CP;
    obsi(e, WBCRYPTO_gcm_finish(g, tag, 16)); obs(e, tag, 16); CP;
    obsi(e, WBCRYPTO_gcm_setiv(g, iv, 12 + e->t)); obsi(e, WBCRYPTO_gcm_aad(g, d + 3, 20));
    obsi(e, (par ? WBCRYPTO_gcm_parallel_decrypt : WBCRYPTO_gcm_decrypt)(g, o, n1 + n2, b, n1 + n2)); obs(e, b, n1 + n2); CP;
    obsi(e, WBCRYPTO_gcm_finish(g, tag, 16)); obs(e, tag, 16); free(g);
}
static void p_cbc(env *e, int dec, int a)
{
    uint8_t iv[16], d[100], o[120], b[120]; bytes(d, 100, 20 + e->t); size_t u = 0; int n = 33 + 20 * e->t;
    for (int r = 0; r < 2; r++) {
        bytes(iv, 16, 9 + e->t + r); obsi(e, ciph_cbc_enc(ciph_shared(a), d + r, n, o, 112, &u, iv)); obsi(e, u); obs(e, o, u); CP;
        if (dec && ciph_has_cbc_dec(a)) { bytes(iv, 16, 9 + e->t + r); size_t v = 0; obsi(e, ciph_cbc_dec(ciph_shared(a), o, u, b, 112, &v, iv)); obsi(e, v); obs(e, b, v); CP; }
    }
}
static void p_sm3(env *e, int x, int a)
{
    uint8_t d[200], h[32]; bytes(d, 200, 30 + e->t); WBCRYPTO_sm3_context *c = malloc(sizeof *c);
    obsi(e, WBCRYPTO_sm3_init(c)); CP; obsi(e, WBCRYPTO_sm3_update(c, d, 50 + e->t)); CP; obsi(e, WBCRYPTO_sm3_update(c, d + 60, 100)); CP; obsi(e, WBCRYPTO_sm3_final(c, h)); obs(e, h, 32); CP;
    obsi(e, WBCRYPTO_sm3(d, 130 + e->t, h)); obs(e, h, 32); free(c);
}
static void p_key(env *e, int x, int a)
{
    uint8_t k[32], d[16], o[16]; bytes(k, 32, 40 + e->t); bytes(d, 16, 41 + e->t);
    for (int r = 0; r < 2; r++) {
        size_t kl = r ? 9 + e->t : 16;
        if (a == C_AES) { WBCRYPTO_aes_context *c = WBCRYPTO_aes_context_init(); CP; WBCRYPTO_aes_init_key(c, k, kl); CP; WBCRYPTO_aes_encrypt(d, o, c); obs(e, o, 16); CP; WBCRYPTO_aes_decrypt(d, o, c); obs(e, o, 16); CP; WBCRYPTO_aes_context_free(c); }
        else { WBCRYPTO_sm4_context *c = WBCRYPTO_sm4_context_init(); CP; WBCRYPTO_sm4_init_key(c, k, kl); CP; WBCRYPTO_sm4_encrypt(d, o, c); obs(e, o, 16); CP; WBCRYPTO_sm4_decrypt(d, o, c); obs(e, o, 16); CP; WBCRYPTO_sm4_context_free(c); }
    }
}
static void p_wb(env *e, int which, int a)
{
    uint8_t d[16], o[16];
    for (int r = 0; r < 3; r++) { bytes(d, 16, 60 + e->t + r); 
        if (which == 0) obsi(e, WBCRYPTO_wbaes_encrypt(d, o, ciph_shared(C_WBAES)->e)); else if (which == 1) obsi(e, WBCRYPTO_wbsm4_encrypt(d, o, ciph_shared(C_WBSM4)->e)); else if (which == 2) obsi(e, WBCRYPTO_wbsm4_decrypt(d, o, ciph_shared(C_WBSM4)->d));
        else if (which == 3) obsi(e, WBCRYPTO_se_wbsm4_encrypt(d, o, (void *)sh_se[0])); else obsi(e, WBCRYPTO_se_wbsm4_decrypt(d, o, (void *)sh_se[1]));
        obs(e, o, 16); CP; }
}
static void p_app(env *e, int kind, int a)
{
    uint8_t k[16]; bytes(k, 16, 70 + e->t); char cs[8], fs[8]; strcpy(cs, a == C_AES ? "aes" : "sm4"); strcpy(fs, e->t & 1 ? "ff3" : "ff1");
    app *p = malloc(sizeof *p); memset(&p->c, 0x5a, sizeof p->c); obsi(e, WBCRYPTO_fpe_app_init(&p->c, k, 16, cs, fs)); CP;
    char in[64], o[64], b[64], s[64]; if (kind == PHONE) strcpy(in, phones[3 * (e->t & 1)]); else if (kind == ID) strcpy(in, ids[e->t]); else { for (int i = 0; i < 3 + e->t; i++) putcp(in + 3 * i, 0x4e00 + (int)(vp_mix(e->t * 100 + i) % 20736)); in[9 + 3 * e->t] = 0; }
    size_t n = strlen(in);
    obsi(e, lib(p, kind, 0, in, o, NULL)); obs(e, o, n + 1); CP; obsi(e, lib(p, kind, 1, o, b, NULL)); obs(e, b, n + 1); CP;
    if (kind == CN) strcpy(s, "***"); else { memset(s, 'a', n); memset(s + 2 + e->t, '*', 6); s[n] = 0; }
    obsi(e, lib(p, kind, 0, in, o, s)); obs(e, o, n + 1); CP; obsi(e, lib(p, kind, 1, o, b, s)); obs(e, b, n + 1); CP; 
}
static void p_pad(env *e, int x, int a)
{
    uint8_t d[64], o[80], b[80]; bytes(d, 64, 80 + e->t); size_t n = 13 + 9 * e->t;
    size_t m = WBCRYPTO_padding_pkcs7_merge(d, n, o); obsi(e, m); obs(e, o, m); CP; obsi(e, WBCRYPTO_padding_pkcs7_merge_length(d, n)); CP;
    size_t q = WBCRYPTO_padding_pkcs7_separate(o, m, b); obsi(e, q); obs(e, b, q); CP; obsi(e, WBCRYPTO_padding_pkcs7_separate_length(o, m)); CP;
    memset(o, 0, 80); obsi(e, WBCRYPTO_key_padding_pkcs7(d, 5 + e->t, o)); obs(e, o, 16); CP; memset(o, 0, 80); obsi(e, WBCRYPTO_key_padding_zeros(d, 5 + e->t, o)); obs(e, o, 16);
}
static void p_wbg(env *e, int kind, int a)
{
    wbgkey *k = wbg_shared(kind); uint8_t iv[16], d[100], o[100], b[100], t[16]; bytes(iv, 16, e->t); bytes(d, 100, 90 + e->t); int n = 33 + 16 * e->t;
    void *g = wbg_new(k, 0); CP; obsi(e, wbg_setiv(kind, g, iv, 12 + e->t)); obsi(e, wbg_aad(kind, g, d + 5, 17)); CP; obsi(e, wbg_enc(kind, g, d, n, o, n)); CP; obsi(e, wbg_fin(kind, g, t, 16)); obs(e, o, n); obs(e, t, 16); CP;
    void *h = wbg_new(k, 1); obsi(e, wbg_setiv(kind, h, iv, 12 + e->t)); obsi(e, wbg_aad(kind, h, d + 5, 17)); CP; obsi(e, wbg_dec(kind, h, o, n, b, n)); CP; obsi(e, wbg_fin(kind, h, t, 16)); obs(e, b, n); obs(e, t, 16); wbg_free(kind, g); wbg_free(kind, h);
}
static void p_file(env *e, int kind, int a)
{
    char p[8], c[8], q[8]; sprintf(p, "p%d", e->t); sprintf(c, "c%d", e->t); sprintf(q, "q%d", e->t); uint8_t iv[12], d[300], r[400]; bytes(iv, 12, e->t); bytes(d, 300, 95 + e->t); size_t n = 130 + 20 * e->t; put(p, d, n);
    fctx f; memset(&f, 0, sizeof f); f.kind = kind;
    if (kind == F_TOY) { f.e = WBCRYPTO_gcmfile_init(&toys[e->t], toy_block); f.d = WBCRYPTO_gcmfile_init(&toys[e->t], toy_block); } else if (kind < F_EE) { f.e = ciph_gcmfile(ciph_shared(kind - F_AES)); f.d = ciph_gcmfile(ciph_shared(kind - F_AES)); } else { f.e = wbg_new(wbg_shared(kind - F_EE), 0); f.d = wbg_new(wbg_shared(kind - F_EE), 1); } CP;
    obsi(e, f_iv(&f, 0, iv, 12)); obsi(e, f_enc(&f, p, c)); long l = get(c, r, 400); obsi(e, l); obs(e, r, l > 0 ? l : 0); CP;
    obsi(e, f_iv(&f, 1, iv, 12)); obsi(e, f_dec(&f, c, q)); l = get(q, r, 400); obsi(e, l); obs(e, r, l > 0 ? l : 0); CP;
    get(c, r, 400); r[40] ^= 4; put(c, r, n + 24); obsi(e, f_iv(&f, 1, iv, 12)); obsi(e, f_dec(&f, c, q)); l = get(q, r, 400); obsi(e, l); CP; f_free(&f); unlink(p); unlink(c); unlink(q);
}
static void p_store(env *e, int x, int a)
{
    char p[8]; sprintf(p, "k%d", e->t); uint8_t d[300], r[300]; bytes(d, 300, 66 + e->t); size_t n = 200 + 40 * e->t;
    obsi(e, WBCRYPTO_keystore_key_to_file(d, n, p)); CP; memset(r, 0, 300); obsi(e, WBCRYPTO_keystore_file_to_key(r, n, p)); obs(e, r, n); CP; unlink(p);
}
static void p_exp(env *e, int x, int a)
{
    char *k = NULL; obsi(e, WBCRYPTO_wbsm4_key2bytes(ciph_shared(C_WBSM4)->e, &k)); CP; uint64_t h = vp_hash(1, k, blobn); obs(e, &h, 8); CP;
    WBCRYPTO_wbsm4_context *c = WBCRYPTO_wbsm4_context_init(1, 1); obsi(e, WBCRYPTO_wbsm4_bytes2key(c, k)); CP; uint8_t d[16], o[16]; bytes(d, 16, 13 + e->t); obsi(e, WBCRYPTO_wbsm4_encrypt(d, o, c)); obs(e, o, 16); WBCRYPTO_wbsm4_context_free(c); free(k);
}
static void p_mat(env *e, int x, int a)
{
    M32 m, i, r; M128 A, B, C; V32 v, w; for (int k = 0; k < 32; k++) m.M[k] = (1u << k) | (uint32_t)(vp_mix(k + e->t * 99) & ((1u << k) - 1)); v.V = (uint32_t)vp_mix(e->t);
    invsM32(m, &i); obs(e, &i, sizeof i); CP; MatMulMatM32(m, i, &r); obs(e, &r, sizeof r); CP; MatMulVecM32(m, v, &w); obs(e, &w, sizeof w); CP;
    for (int k = 0; k < 128; k++) { A.M[k][0] = k < 64 ? 1ull << (63 - k) : vp_mix(k + e->t); A.M[k][1] = k < 64 ? 0 : 1ull << (127 - k); }
    invsM128(A, &B); uint64_t h = vp_hash(1, &B, sizeof B); obs(e, &h, 8); CP; MatMulMatM128(A, B, &C); h = vp_hash(2, &C, sizeof C); obs(e, &h, 8); CP; MattransM32(m, &r); obs(e, &r, sizeof r);
}
static void p_udf(env *e, int kind, int a)
{
    static const char *const mo[] = {"phone", "idcard", "name"}; char in[64], mode[8], sm[64]; strcpy(mode, mo[kind]); UDF_INIT id; UDF_ARGS q; memset(&id, 0, sizeof id); memset(&q, 0, sizeof q); id.max_length = 255; id.maybe_null = 1;
    enum Item_result ty[3] = {STRING_RESULT, STRING_RESULT, STRING_RESULT}; char *ar[3] = {0}, mn[3] = {1, 1, 1}; unsigned long le[3] = {60, 60, 60}; char *at[3] = {"a", "b", "c"}; unsigned long atl[3] = {1, 1, 1}; char msg[512] = "";
    q.arg_count = 2 + (e->t & 1); q.arg_type = ty; q.args = ar; q.lengths = le; q.maybe_null = mn; q.attributes = at; q.attribute_lengths = atl;
    int bad = fpe_init(&id, &q, msg); obsi(e, bad); CP; if (bad) return;
    for (int r = 0; r < 2; r++) {
        if (kind == PHONE) strcpy(in, phones[(e->t + r) % 5]); else if (kind == ID) strcpy(in, ids[(e->t + r) % 5]); else { for (int i = 0; i < 3 + r + e->t; i++) putcp(in + 3 * i, 0x4e00 + (int)(vp_mix(e->t * 100 + i + r) % 20736)); in[9 + 3 * (r + e->t)] = 0; }
        size_t n = strlen(in); memset(sm, '*', n); sm[n] = 0; ar[0] = in; ar[1] = mode; ar[2] = sm; le[0] = n; le[1] = strlen(mode); le[2] = n; char res[255], nu = 0, er = 0; unsigned long l = 255;
        char *o = fpe(&id, &q, res, &l, &nu, &er); obsi(e, nu * 2 + er); if (o && !nu && !er) { obsi(e, l); obs(e, o, l); } CP;
    }
    fpe_deinit(&id); CP;
}
static const struct prog { const char *name; void (*f)(env *, int, int); int x, a; } P[] = {
#ifndef ONLY_UDF    /* C17 runs the MySQL function alone */
    {"ff1 (user function)", p_fpe, 1, -1}, {"ff3 (user function)", p_fpe, 3, -1}, {"ff1 (aes)", p_fpe, 1, C_AES}, {"ff3 (sm4)", p_fpe, 3, C_SM4}, {"ff1-cmac", p_mac, 1, -1}, {"ff3-gmac", p_mac, 3, -1}, {"ff1-cmac (sm4)", p_mac, 1, C_SM4}, {"ff3-gmac (aes)", p_mac, 3, C_AES},
    {"gcm", p_gcm, 0, -1}, {"parallel gcm", p_gcm, 1, -1}, {"aes gcm", p_gcm, 0, C_AES}, {"wbaes gcm", p_gcm, 0, C_WBAES}, {"wbsm4 parallel gcm", p_gcm, 1, C_WBSM4}, {"aes cbc", p_cbc, 1, C_AES}, {"sm4 cbc", p_cbc, 1, C_SM4}, {"wbaes cbc", p_cbc, 0, C_WBAES}, {"wbsm4 cbc", p_cbc, 1, C_WBSM4},
    {"sm3", p_sm3, 0, 0}, {"aes key and blocks", p_key, 0, C_AES}, {"sm4 key and blocks", p_key, 0, C_SM4}, {"wbaes blocks", p_wb, 0, 0}, {"wbsm4 encrypted blocks", p_wb, 1, 0}, {"wbsm4 decrypted blocks", p_wb, 2, 0}, {"se_wbsm4 encrypted blocks", p_wb, 3, 0}, {"se_wbsm4 decrypted blocks", p_wb, 4, 0},
    {"phone (aes)", p_app, PHONE, C_AES}, {"idcard (sm4)", p_app, ID, C_SM4}, {"chinese (aes)", p_app, CN, C_AES}, {"padding", p_pad, 0, 0}, {"wbgcm-ee", p_wbg, G_EE, 0}, {"wbgcm-mask", p_wbg, G_MASK, 0},
    {"file (user function)", p_file, F_TOY, 0}, {"file (sm4)", p_file, F_SM4, 0}, {"file (wbgcm-ee)", p_file, F_EE, 0}, {"file (wbgcm-mask)", p_file, F_MASK, 0}, {"key file", p_store, 0, 0}, {"wbsm4 key exchange", p_exp, 0, 0}, {"matrices", p_mat, 0, 0},
#endif
    {"mysql phone", p_udf, PHONE, 0}, {"mysql idcard", p_udf, ID, 0}, {"mysql name", p_udf, CN, 0},
};
enum { NP = sizeof P / sizeof *P };
static int heavy(int p) { return P[p].f == p_wb || P[p].f == p_wbg || P[p].f == p_exp || P[p].f == p_mat || (P[p].f == p_file && P[p].x >= F_EE) || ((P[p].f == p_gcm || P[p].f == p_cbc) && P[p].a >= C_WBAES); }
/* needs no context shared with other threads */
static int own(int p) { return !heavy(p) && (P[p].f == p_key || P[p].f == p_sm3 || P[p].f == p_app || P[p].f == p_pad || P[p].f == p_store || P[p].f == p_udf || ((P[p].f == p_fpe || P[p].f == p_mac || P[p].f == p_gcm) && P[p].a < 0) || (P[p].f == p_file && P[p].x == F_TOY)); }
static int related(int a, int b) { return (P[a].f == P[b].f && P[a].f != p_file) || (P[a].f == p_fpe && P[b].f == p_mac && P[a].a < 0 && P[b].a < 0) || (P[a].f == p_app && P[b].f == p_udf); }
static env *alone[NP][3];
static void run(void *v) { env *e = v; P[e->p].f(e, P[e->p].x, P[e->p].a); }
static env *first(int p, int t)    /* alone, in a process of its own */
{
    static env *m; if (!m) m = mmap(NULL, sizeof *m, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); m->n = 0; m->p = p; m->t = t; fflush(NULL); pid_t k = fork(); if (!k) { run(m); _exit(0); } int st; if (waitpid(k, &st, 0) != k || st) _exit(3);
    env *e = calloc(1, sizeof *e); *e = *m; return e;
}
static env *solo(int p, int t) { if (sched_fresh) { if (!alone[p][t]) alone[p][t] = first(p, t); return alone[p][t]; } if (!alone[p][t]) { env *e = calloc(1, sizeof *e); e->p = p; e->t = t; run(e); alone[p][t] = e; } return alone[p][t]; }
typedef struct { int n, p[3]; } job;
static void body(void *v)
{
    job *j = v; static env e[3]; void *d[3]; for (int i = 0; i < j->n; i++) { memset(&e[i], 0, sizeof e[i]); e[i].p = j->p[i]; e[i].t = i; d[i] = &e[i]; }
    sched_spawn(j->n, run, d);
    for (int i = 0; i < j->n; i++) { env *w = solo(j->p[i], i); VP_CHECK(e[i].n == w->n && !memcmp(e[i].out, w->out, w->n), "thread %d (%s) does not get the results it gets alone", i, P[j->p[i]].name); }
}
static void go(int n, int a, int b, int c, int calls, int pb)
{
    job j = {n, {a, b, c}}; for (int i = 0; i < n; i++) solo(j.p[i], i); sched_calls_only = calls; sched_explore(body, &j, 1, pb, VP_T(60000ull, 5000000ull)); vp_outcome(vp_mix(a * 100 + b));
}
void vp_main(void)
{
    for (int i = 0; i < 3; i++) toy_init(&toys[i], 700 + i); f_setup();
    /* the very first calls of a process, made by two threads: one preemption at any access */
    for (int a = 0; a < NP; a++) for (int b = a; b < NP; b++) if (own(a) && own(b) && (a == b || (vp_thorough && !strncmp(P[a].name, P[b].name, 3))) && vp_case("first use of the library in two threads: %s / %s, all schedules with at most 1 preemption at any access", P[a].name, P[b].name)) { sched_fresh = 1; go(2, a, b, 0, 0, 1); sched_fresh = 0; memset(alone, 0, sizeof alone); }
#ifndef ONLY_UDF
    for (int k = 0; k < C_N; k++) ciph_shared(k); wbg_shared(G_EE); wbg_shared(G_MASK);
    for (int m = 0; m < 2; m++) { uint8_t k[16]; bytes(k, 16, 5); WBCRYPTO_se_wbsm4_context *c = WBCRYPTO_se_wbsm4_context_init(!m); WBCRYPTO_se_wbsm4_gen_table(c, k, 16); sh_se[m] = c; }
    { char *k = NULL; if (WBCRYPTO_wbsm4_key2bytes(ciph_shared(C_WBSM4)->e, &k) == 1) { uint32_t l; memcpy(&l, k, 4); blobn = l; free(k); } }
#endif
    /* all pairs of programs: the interleavings of their calls */
    for (int a = 0; a < NP; a++) for (int b = a; b < NP; b++) { int pb = heavy(a) || heavy(b) ? VP_T(1, 3) : 100; if (vp_case("threads: %s / %s, %s of their calls", P[a].name, P[b].name, pb == 100 ? "all interleavings" : pb == 1 ? "all interleavings with at most 1 preemption" : "all interleavings with at most 3 preemptions")) go(2, a, b, 0, 1, pb); }
    /* three threads */
    for (int a = 0; a < NP; a++) if (vp_case("three threads: %s, all interleavings of their calls with at most %d preemptions", P[a].name, heavy(a) ? 1 : VP_T(2, 3))) go(3, a, a, a, 1, heavy(a) ? 1 : VP_T(2, 3));
    for (int a = 0; a < NP; a++) for (int d = 1; d < (vp_thorough ? NP : 2); d++) { int b = (a + d) % NP, q = (a + 3 * d + 5) % NP; if (vp_case("three threads: %s / %s / %s, all interleavings of their calls with at most 1 preemption", P[a].name, P[b].name, P[q].name)) go(3, a, b, q, 1, 1); }
    /* a preemption at every access to memory other than the own stack */
    for (int a = 0; a < NP; a++) if ((vp_thorough ? strcmp(P[a].name, "wbsm4 key exchange") != 0 : !heavy(a)) && vp_case("threads: %s twice, all schedules with at most 1 preemption at any access", P[a].name)) go(2, a, a, 0, 0, 1);
    for (int a = 0; a < NP; a++) for (int b = a + 1; b < NP; b++) if (!heavy(a) && !heavy(b) && (vp_thorough || related(a, b)) && vp_case("threads: %s / %s, all schedules with at most 1 preemption at any access", P[a].name, P[b].name)) go(2, a, b, 0, 0, 1);
}

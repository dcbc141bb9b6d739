/* C20: inputs are only read, and only as far as stated: they lie in read-only pages next to inaccessible ones. */
#include "files.h"
#include "appfpe.h"
#include <wbcrypto/sm3.h>
#include <wbcrypto/se_wbsm4.h>
#include <wbcrypto/utils.h>
#include <stdbool.h>
#include <mysql.h>
#include <sys/mman.h>
bool fpe_init(UDF_INIT *, UDF_ARGS *, char *); void fpe_deinit(UDF_INIT *); char *fpe(UDF_INIT *, UDF_ARGS *, char *, unsigned long *, char *, char *);

/* --- input areas: 12 slots, each inaccessible page(s) | SLOT bytes | inaccessible page.  mode 0: ordinary memory; 1: read-only, the input ends
   where the inaccessible page begins; 2: read-only, the input begins right after the inaccessible page */
enum { PG = 4096, SLOT = 512 * PG, NS = 12 };
static uint8_t *area; static int used; static int mode; static uint8_t *plain[NS];
static struct { uint8_t *p; const void *src; size_t n; } inp[NS];
static void setup(void)
{
    area = mmap(NULL, (size_t)NS * (SLOT + 2 * PG), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (area == MAP_FAILED) { perror("mmap"); _exit(3); }
    for (int i = 0; i < NS; i++) plain[i] = NULL;
}
static void begin(int m) { mode = m; used = 0; }
/* the input of one call */
static void *ro(const void *src, size_t n)
{
    int i = used++; if (i >= NS || n > SLOT) abort();
    inp[i].src = src; inp[i].n = n;
    if (mode == 0) { free(plain[i]); plain[i] = malloc(n + 64); memset(plain[i], 0xa7, n + 64); if (n) memcpy(plain[i] + 16, src, n); return inp[i].p = plain[i] + 16; }
    size_t sp = (n + PG - 1) / PG * PG; if (!sp) sp = PG;
    uint8_t *s = area + (size_t)i * (SLOT + 2 * PG) + PG; uint8_t *base = mode == 1 ? s + SLOT - sp : s; uint8_t *p = mode == 1 ? s + SLOT - n : s;
    mprotect(base, sp, PROT_READ | PROT_WRITE); memset(base, mode == 1 ? 0x35 : 0xc9, sp); if (n) memcpy(p, src, n); mprotect(base, sp, PROT_READ);
    return inp[i].p = p;
}
static char *ros(const char *s) { return ro(s, strlen(s) + 1); }
/* after the call: inputs unchanged, pages back to inaccessible */
static void end(const char *what)
{
    for (int i = 0; i < used; i++) {
        VP_CHECK(!inp[i].n || !memcmp(inp[i].p, inp[i].src, inp[i].n), "%s: input %d was changed", what, i);
        if (mode) { size_t sp = (inp[i].n + PG - 1) / PG * PG; if (!sp) sp = PG; uint8_t *s = area + (size_t)i * (SLOT + 2 * PG) + PG; mprotect(mode == 1 ? s + SLOT - sp : s, sp, PROT_NONE); }
    }
}
/* --- observations of one run, compared between the modes */
static uint8_t obs[3][8192]; static size_t on[3];
static void ob(const void *p, size_t n) { if (on[mode] + n > sizeof obs[0]) abort(); memcpy(obs[mode] + on[mode], p, n); on[mode] += n; }
static void obi(long v) { ob(&v, sizeof v); }
static uint8_t D[8192], K16[64];
typedef struct { int op, a, b, c; } prog;
/* a copy of an initialised cipher context in read-only memory; flat structures or pointers to tables */
static const size_t csz[C_N] = {sizeof(WBCRYPTO_aes_context), sizeof(WBCRYPTO_sm4_context), sizeof(WBCRYPTO_wbaes_context), sizeof(WBCRYPTO_wbsm4_context)};
static ciph rociph(int k) { ciph c = *ciph_shared(k); void *e = c.e, *d = c.d; c.e = ro(e, csz[k]); c.d = d == e || !d ? (d ? c.e : NULL) : ro(d, csz[k]); return c; }
static void run(const prog *q)
{
    static uint8_t o[8192], iv[16]; static char y[4200]; size_t u = 0; memset(o, 0, sizeof o); memset(y, 0, sizeof y); uint8_t tag[64]; memset(tag, 0, sizeof tag); int r;
    switch (q->op) {
    case 0: { /* keys: a cipher, b length */
        void *k = ro(K16, q->b);
        if (q->a == 0) { WBCRYPTO_aes_context *c = WBCRYPTO_aes_context_init(); obi(WBCRYPTO_aes_init_key(c, k, q->b)); WBCRYPTO_aes_encrypt(D, o, c); ob(o, 16); WBCRYPTO_aes_context_free(c); }
        else if (q->a == 1) { WBCRYPTO_sm4_context *c = WBCRYPTO_sm4_context_init(); obi(WBCRYPTO_sm4_init_key(c, k, q->b)); WBCRYPTO_sm4_encrypt(D, o, c); ob(o, 16); WBCRYPTO_sm4_context_free(c); }
        else if (q->a == 2) { WBCRYPTO_wbaes_context *c = WBCRYPTO_wbaes_context_init(); obi(WBCRYPTO_wbaes_gen_table(c, k, q->b)); WBCRYPTO_wbaes_encrypt(D, o, c); ob(o, 16); WBCRYPTO_wbaes_context_free(c); }
        else if (q->a == 3) { WBCRYPTO_wbsm4_context *c = WBCRYPTO_wbsm4_context_init(1, 1); obi(WBCRYPTO_wbsm4_gen_table(c, k, q->b)); WBCRYPTO_wbsm4_encrypt(D, o, c); ob(o, 16); WBCRYPTO_wbsm4_context_free(c); }
        else if (q->a == 4) { WBCRYPTO_se_wbsm4_context *c = WBCRYPTO_se_wbsm4_context_init(1); obi(WBCRYPTO_se_wbsm4_gen_table(c, k, q->b)); WBCRYPTO_se_wbsm4_encrypt(D, o, c); ob(o, 16); WBCRYPTO_se_wbsm4_context_free(c); }
        else if (q->a == 5) { WBCRYPTO_wbaes_wbgcm_ee_context *c = malloc(sizeof *c); WBCRYPTO_wbaes_wbgcm_ee_gen_table(c, k, q->b); free(c); }
        else if (q->a == 6) { static WBCRYPTO_wbaes_wbgcm_mask_context *e, *d; if (!e) { e = WBCRYPTO_wbaes_wbgcm_mask_init_table(); d = WBCRYPTO_wbaes_wbgcm_mask_init_table(); } WBCRYPTO_wbaes_wbgcm_mask_gen_table(e, d, k, q->b); }
        else { WBCRYPTO_fpe_app_context c; char *cs = ros(cs_[q->a - 7]), *fs = ros("ff1"); obi(WBCRYPTO_fpe_app_init(&c, k, q->b, cs, fs)); char *ph = ros("13912345678"); obi(WBCRYPTO_fpe_encrypt_phone(&c, ph, y)); ob(y, 12); 
               if (q->a == 7) WBCRYPTO_aes_context_free(c.cipher_ctx); else if (q->a == 8) WBCRYPTO_wbaes_context_free(c.cipher_ctx); else if (q->a == 9) WBCRYPTO_sm4_context_free(c.cipher_ctx); else WBCRYPTO_wbsm4_context_free(c.cipher_ctx); }
        break; }
    case 1: { /* blocks: a cipher, b direction, c shift */
        uint8_t *in = ro(D + q->c, 16);
        if (q->a < C_N) { ciph c = rociph(q->a); r = q->a == C_AES ? (q->b ? WBCRYPTO_aes_decrypt(in, o, c.e) : WBCRYPTO_aes_encrypt(in, o, c.e)) : q->a == C_SM4 ? (q->b ? WBCRYPTO_sm4_decrypt(in, o, c.e) : WBCRYPTO_sm4_encrypt(in, o, c.e)) : q->a == C_WBAES ? WBCRYPTO_wbaes_encrypt(in, o, c.e) : q->b ? WBCRYPTO_wbsm4_decrypt(in, o, c.d) : WBCRYPTO_wbsm4_encrypt(in, o, c.e); }
        else { static WBCRYPTO_se_wbsm4_context *s[2]; if (!s[0]) for (int i = 0; i < 2; i++) { wb_seed(7 + i); s[i] = WBCRYPTO_se_wbsm4_context_init(!i); WBCRYPTO_se_wbsm4_gen_table(s[i], K16, 16); } void *c = ro(s[q->b], sizeof *s[0]); r = q->b ? WBCRYPTO_se_wbsm4_decrypt(in, o, c) : WBCRYPTO_se_wbsm4_encrypt(in, o, c); }
        obi(r); ob(o, 16); break; }
    case 2: { /* CBC: a cipher, b length, c direction */
        ciph c = rociph(q->a); uint8_t *in = ro(D + q->b % 7, q->b); vp_bytes(iv, 16, 5);
        r = q->c ? ciph_cbc_dec(&c, in, q->b, o, 4096, &u, iv) : ciph_cbc_enc(&c, in, q->b, o, 4096, &u, iv); obi(r); obi(r ? (long)u : 0); if (r) ob(o, u); break; }
    case 3: { /* GCM: a 0..3 cipher, 4 toy; b length; c: AAD and IV lengths, direction and parallelism */
        int al = q->c % 40, il = q->c / 40 % 40, dec = q->c & 1, par = q->c >> 1 & 1; WBCRYPTO_gcm_context *g;
        if (q->a < C_N) { ciph c = rociph(q->a); g = ciph_gcm(&c); } else g = WBCRYPTO_gcm_init(ro(fpe_toy(0), sizeof(toy_t)), toy_block);
        uint8_t *v = ro(D + 3, il), *a = ro(D + 50, al), *in = ro(D + 100, q->b), *in2 = ro(D + 200, 48);
        obi(WBCRYPTO_gcm_setiv(g, v, il)); obi(WBCRYPTO_gcm_aad(g, a, al)); 
        obi((dec ? par ? WBCRYPTO_gcm_parallel_decrypt : WBCRYPTO_gcm_decrypt : par ? WBCRYPTO_gcm_parallel_encrypt : WBCRYPTO_gcm_encrypt)(g, in2, 48, o, 48)); ob(o, 48);
        obi((dec ? par ? WBCRYPTO_gcm_parallel_decrypt : WBCRYPTO_gcm_decrypt : par ? WBCRYPTO_gcm_parallel_encrypt : WBCRYPTO_gcm_encrypt)(g, in, q->b, o, q->b)); ob(o, q->b); obi(WBCRYPTO_gcm_finish(g, tag, 16)); ob(tag, 16); WBCRYPTO_gcm_free(g); break; }
    case 4: { /* white-box GCM: a variant, b length, c AAD/IV/direction */
        int al = q->c % 40, il = q->c / 40 % 40, dec = q->c & 1; wbgkey k = *wbg_shared(q->a); size_t n = q->a == G_EE ? sizeof(WBCRYPTO_wbaes_wbgcm_ee_context) : sizeof(WBCRYPTO_wbaes_wbgcm_mask_context);
        if (dec) k.dk = ro(k.dk, n); else k.ek = ro(k.ek, n);
        void *g = wbg_new(&k, dec); uint8_t *v = ro(D + 3, il), *a = ro(D + 50, al), *in = ro(D + 100, q->b);
        obi(wbg_setiv(q->a, g, v, il)); obi(wbg_aad(q->a, g, a, al)); obi(dec ? wbg_dec(q->a, g, in, q->b, o, q->b) : wbg_enc(q->a, g, in, q->b, o, q->b)); ob(o, q->b); obi(wbg_fin(q->a, g, tag, 16)); ob(tag, 16); wbg_free(q->a, g); break; }
    case 5: case 6: { /* FPE, with MAC: a radix, b length, c tweak length */
        static char x[4200]; ftext(x, q->b, q->a, 77 + q->b); void *tw = q->c < 0 ? NULL : ro(D + 9, q->c); toy_t *t = ro(fpe_toy(1), sizeof(toy_t)); char *in = ros(x); size_t tn = q->c < 0 ? 0 : q->c;
        for (int ff = 1; ff <= 3; ff += 2) for (int dec = 0; dec < 2; dec++) {
            if (q->op == 5) { WBCRYPTO_fpe_context *c = WBCRYPTO_fpe_init(tw, tn, q->a, t, toy_block); r = fcall(ff, dec, c, in, y); obi(r); if (r) ob(y, q->b + 1); WBCRYPTO_fpe_free(c); }
            else { WBCRYPTO_fpe_mac_context *c = WBCRYPTO_fpe_mac_init(tw, tn, q->a, t, toy_block); r = fmcall(ff, dec, c, in, y); obi(r); if (r) { ob(y, q->b + 1); size_t n = 16; obi(fmfin(ff, c, tag, &n)); ob(tag, 16); } WBCRYPTO_fpe_mac_free(c); }
        }
        break; }
    case 7: { /* FPE over the ciphers: a cipher, b length, c: 1 MAC */
        static char x[100]; ftext(x, q->b, 10, 5); ciph c = rociph(q->a); char *tw = ro("tweaktwe", 8), *in = ros(x);
        for (int ff = 1; ff <= 3; ff += 2) for (int dec = 0; dec < 2; dec++) {
            if (q->c) { WBCRYPTO_fpe_mac_context *f = ciph_fpe_mac(&c, tw, 8, 10); obi(fmcall(ff, dec, f, in, y)); ob(y, q->b + 1); WBCRYPTO_fpe_mac_free(f); } else { WBCRYPTO_fpe_context *f = ciph_fpe(&c, tw, 8, 10); obi(fcall(ff, dec, f, in, y)); ob(y, q->b + 1); WBCRYPTO_fpe_free(f); }
        }
        break; }
    case 8: { /* application: a kind, b pattern, c text and direction */
        static char x[300], s[300]; app *A = sh(0, q->c >> 8 & 1), B = *A; int dec = q->c >> 9 & 1, ns = q->c >> 10 & 1;
        if (q->a == CN) { int n = (q->c & 255) + 1; cntext(x, n, 4); cnsample(s, n, q->b, x, 1); } else { strcpy(x, q->a == PHONE ? phones[q->c & 255] : ids[q->c & 255]); size_t n = strlen(x); for (size_t i = 0; i < n; i++) s[i] = q->b >> i & 1 ? '*' : x[i]; s[n] = 0; }
        app *R = ro(&B, sizeof B); char *in = ros(x), *sa = ns ? NULL : ros(s); r = lib(R, q->a, dec, in, y, sa); obi(r); if (r) ob(y, strlen(x) + 1); break; }
    case 9: { /* MySQL: a kind, b pattern, c 1: with sample */
        static char x[300], s[300]; static const char *const mo[] = {"phone", "idcard", "address"}; UDF_INIT id; memset(&id, 0, sizeof id);
        if (q->a == CN) { cntext(x, 6, 4); cnsample(s, 6, q->b, x, 1); } else { strcpy(x, q->a == PHONE ? phones[0] : ids[1]); size_t n = strlen(x); for (size_t i = 0; i < n; i++) s[i] = q->b >> i & 1 ? '*' : x[i]; s[n] = 0; }
        unsigned n = 2 + q->c; enum Item_result ty[3] = {STRING_RESULT, STRING_RESULT, STRING_RESULT}; char *ar[3] = {ro(x, strlen(x)), ro(mo[q->a], strlen(mo[q->a])), NULL}, *z[3] = {0}; if (q->c) ar[2] = ro(s, strlen(s)); unsigned long le[3] = {strlen(x), strlen(mo[q->a]), strlen(s)}; char mn[3] = {0}; char *at[3] = {"a", "b", "c"}; unsigned long al[3] = {1, 1, 1}; char msg[512], res[255], nl = 0, er = 0; unsigned long rl = 255;
        UDF_ARGS a; memset(&a, 0, sizeof a); a.arg_count = n; a.arg_type = ro(ty, n * sizeof *ty); a.args = ro(z, n * sizeof *z); a.lengths = ro(le, n * sizeof *le); a.maybe_null = mn; a.attributes = at; a.attribute_lengths = al;
        r = fpe_init(&id, &a, msg); obi(r); if (r) break; a.args = ro(ar, n * sizeof *ar); /* arrays as well: the server owns them */
        char *p = fpe(&id, &a, res, &rl, &nl, &er); obi(nl); obi(er); obi(p != NULL); if (p) ob(p, rl); fpe_deinit(&id);
        if (used >= 7) { inp[used - 1].src = ar; inp[used - 4].src = NULL; inp[used - 4].n = 0; } break; }
    case 10: { /* SM3: a length, b split */
        uint8_t *m = ro(D, q->b), *m2 = ro(D + q->b, q->a - q->b), *all = ro(D, q->a); WBCRYPTO_sm3_context c; obi(WBCRYPTO_sm3_init(&c)); obi(WBCRYPTO_sm3_update(&c, m, q->b)); obi(WBCRYPTO_sm3_update(&c, m2, q->a - q->b)); obi(WBCRYPTO_sm3_final(&c, tag)); ob(tag, 32); obi(WBCRYPTO_sm3(all, q->a, tag)); ob(tag, 32); break; }
    case 11: { /* padding helpers: a function, b length */
        uint8_t t[300]; memcpy(t, D, q->b); if (q->b && (q->a == 3 || q->a == 5)) t[q->b - 1] = (uint8_t)q->c; static uint8_t keep[300]; memcpy(keep, t, q->b); uint8_t *in = ro(keep, q->b);
        size_t n = q->a == 0 ? WBCRYPTO_key_padding_pkcs7(in, q->b, o) : q->a == 1 ? WBCRYPTO_key_padding_zeros(in, q->b, o) : q->a == 2 ? WBCRYPTO_padding_pkcs7_merge(in, q->b, o) : q->a == 3 ? WBCRYPTO_padding_pkcs7_separate(in, q->b, o) : q->a == 4 ? WBCRYPTO_padding_pkcs7_merge_length(in, q->b) : WBCRYPTO_padding_pkcs7_separate_length(in, q->b);
        obi((long)n); ob(o, 320); break; }
    case 12: { /* files: a kind, b length */
        fctx f = f_new(q->a, 0); put("p", D, q->b); uint8_t *v = ro(D + 3, 12), *ad = ro(D + 50, q->c); char *p = ros("p"), *c = ros("c"), *d = ros("d");
        obi(f_iv(&f, 0, v, 12)); obi(f_aad(&f, 0, ad, q->c)); obi(q->a < F_EE ? WBCRYPTO_gcmfile_encrypt(f.e, p, c) : wbg_fenc(q->a - F_EE, f.e, p, c)); obi(f_iv(&f, 1, v, 12)); obi(f_aad(&f, 1, ad, q->c)); obi(q->a < F_EE ? WBCRYPTO_gcmfile_decrypt(f.d, c, d) : wbg_fdec(q->a - F_EE, f.d, c, d)); long n = get("d", o, sizeof o); obi(n); if (n > 0) ob(o, n); n = get("c", o, sizeof o); obi(n); if (n > 0) ob(o, n); f_free(&f); break; }
    case 13: { /* key export and import: a 0 file, 1 bytes; key store */
        static WBCRYPTO_wbsm4_context *s; static uint8_t blob[1200000]; static size_t bn; if (!s) { wb_seed(3); s = WBCRYPTO_wbsm4_context_init(1, q->b); WBCRYPTO_wbsm4_gen_table(s, K16, 16); }
        if (q->a == 0) { WBCRYPTO_wbsm4_context *c = ro(s, sizeof *s); char *p = ros("k"); obi(WBCRYPTO_wbsm4_key2file(c, p)); WBCRYPTO_wbsm4_context *d = WBCRYPTO_wbsm4_context_init(1, 0); obi(WBCRYPTO_wbsm4_file2key(d, p)); WBCRYPTO_wbsm4_encrypt(D, o, d); ob(o, 16); WBCRYPTO_wbsm4_context_free(d); }
        else if (q->a == 1) { char *k; WBCRYPTO_wbsm4_context *c = ro(s, sizeof *s); obi(WBCRYPTO_wbsm4_key2bytes(c, &k)); WBCRYPTO_wbsm4_key2file(s, "k"); static uint8_t dummy[8]; long fn = get("k", blob, sizeof blob); bn = (size_t)fn + 4; memcpy(blob, k, bn); free(k);
            if (q->c) blob[q->c] ^= 1; uint8_t *b = ro(blob, bn); WBCRYPTO_wbsm4_context *d = WBCRYPTO_wbsm4_context_init(1, 2); int rr = WBCRYPTO_wbsm4_bytes2key(d, (char *)b); obi(rr); if (rr) { WBCRYPTO_wbsm4_encrypt(D, o, d); ob(o, 16); } WBCRYPTO_wbsm4_context_free(d); (void)dummy; }
        else { uint8_t *k = ro(D, q->b); char *p = ros("ks"); obi(WBCRYPTO_keystore_key_to_file(k, q->b, p)); obi(WBCRYPTO_keystore_file_to_key(o, q->b, p)); ob(o, q->b); }
        break; }
    }
}
static void three(const prog *q, const char *what)
{
    for (int m = 0; m < 3; m++) { wb_seed(50 + q->op); begin(m); on[m] = 0; run(q); end(what); vp_step(vp_hash(m, obs[m], on[m])); }
    for (int m = 1; m < 3; m++) VP_CHECK(on[m] == on[0] && !memcmp(obs[m], obs[0], on[0]), "%s: other results when the inputs lie at the %s of an accessible area", what, m == 1 ? "end" : "beginning");
}
void vp_main(void)
{
    setup(); vp_bytes(D, sizeof D, 8); vp_bytes(K16, sizeof K16, 9); cleandir(); static char what[200];
#define GO(OP, A, B, C, ...) do { snprintf(what, sizeof what, __VA_ARGS__); if (vp_case("%s [%d %d %d %d]", what, OP, A, B, C)) { prog q = {OP, A, B, C}; three(&q, what); } } while (0)
    for (int a = 0; a < 11; a++) for (int n = 0; n <= 40; n += a == 2 || a == 5 || a == 6 || a == 8 ? VP_T(8, 1) : 1) GO(0, a, n, 0, "key of %d bytes (cipher %d)", n, a);
    for (int a = 0; a <= C_N; a++) for (int d = 0; d < 2; d++) for (int s = 0; s < 64; s++) GO(1, a, d, s, "block, cipher %d, direction %d", a, d);
    for (int a = 0; a < C_N; a++) for (int n = 0; n <= VP_T(130, 1000); n++) for (int d = 0; d < 1 + ciph_has_cbc_dec(a); d++) GO(2, a, n, d, "CBC, cipher %s, %d bytes, direction %d", cname[a], n, d);
    for (int n = 0; n <= VP_T(100, 300); n++) for (int il = 0; il < 40; il += 1) for (int al = 0; al < 4; al++) GO(3, C_N, n, il * 40 + al + 4 * (n % 9), "GCM, %d bytes, IV %d, AAD %d bytes", n, il, al + 4 * (n % 9));
    for (int a = 0; a < C_N; a++) for (int n = 0; n <= 70; n++) for (int x = 0; x < 4; x++) GO(3, a, n, 12 * 40 + x + 4 * (n % 9), "GCM over %s, %d bytes", cname[a], n);
    for (int a = 0; a < 2; a++) for (int n = 0; n <= VP_T(70, 200); n++) for (int il = 0; il < 40; il += VP_T(6, 1)) for (int x = 0; x < 2; x++) GO(4, a, n, il * 40 + x + 2 * (n % 19), "white-box GCM %s, %d bytes, IV %d", gname[a], n, il);
    for (int m = 5; m <= 6; m++) { for (int r = 2; r <= 36; r++) for (int n = 0; n <= VP_T(64, 160); n += VP_T(1 + (r % 3 == 1), 1)) GO(m, r, n, 8, "FPE%s radix %d, %d characters", m == 6 ? " with MAC" : "", r, n); for (int t = -1; t <= 300; t++) for (int n = 5; n < 25; n += 13) GO(m, 10, n, t, "FPE%s tweak of %d bytes", m == 6 ? " with MAC" : "", t); }
    for (int a = 0; a < C_N; a++) for (int n = 2; n <= 40; n++) for (int x = 0; x < 2; x++) GO(7, a, n, x, "FPE over %s, %d digits", cname[a], n);
    for (int p = 0; p < 2048; p++) for (int x = 0; x < 4; x++) GO(8, PHONE, p, x << 8 | 3, "phone sample %x", p);
    for (int p = 0; p < 1 << 18; p += VP_T(61, 7)) for (int x = 0; x < 4; x++) GO(8, ID, p, x << 8 | p % 5, "ID sample %x", p);
    for (int n = 0; n < 10; n++) for (int p = 0; p < 1 << (n + 1); p++) for (int x = 0; x < 4; x++) GO(8, CN, p, x << 8 | n, "Chinese text of %d, sample %x", n + 1, p);
    for (int k = 0; k < 2; k++) for (int t = 0; t < 5; t++) for (int x = 4; x < 8; x++) GO(8, k, 0, x << 8 | t, "%s without sample", an[k]);
    for (int n = 0; n < 40; n++) for (int x = 4; x < 8; x++) GO(8, CN, 0, x << 8 | n, "Chinese text of %d without sample", n + 1);
    for (int k = 0; k < 3; k++) for (int p = 0; p < (k == ID ? 1 << 18 : k == PHONE ? 2048 : 64); p += k == ID ? 509 : 1) for (int x = 0; x < 2; x++) GO(9, k, p, x, "MySQL %s sample %x", an[k], p);
    for (int n = 0; n <= VP_T(200, 500); n++) for (int s = 0; s <= n; s += VP_T(3, 1)) GO(10, n, s, 0, "SM3 %d bytes split at %d", n, s);
    for (int f = 0; f < 6; f++) for (int n = 0; n <= 100; n++) for (int l = 0; l <= (f == 3 || f == 5 ? 18 : 0); l++) GO(11, f, n, l, "padding helper %d, %d bytes, last byte %d", f, n, l);
    for (int k = 0; k < F_N; k++) for (int n = 0; n <= VP_T(300, 600); n += k == F_TOY ? 1 : 16) GO(12, k, n, n % 20, "file of %d bytes, %s", n, fname_[k]);
    GO(13, 0, 1, 0, "key file"); for (int c = 0; c <= 28; c++) GO(13, 1, 1, c, "key bytes, changed byte %d", c); for (int n = 0; n < 300; n++) GO(13, 2, n, 0, "key store, %d bytes", n);
}

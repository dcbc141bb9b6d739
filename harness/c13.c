/* C13: exported white-box SM4 keys re-import to an equivalent context; incomplete ones are refused. */
#define _GNU_SOURCE
#include "ciphers.h"
#include "wbg.h"
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
#include <wbcrypto/utils.h>
typedef struct { WBCRYPTO_wbsm4_context *c; int mode, dummies; ref_cipher r; int live; } W; /* mode 1: encryption */
static void put(const char *p, const void *d, size_t n) { FILE *f = fopen(p, "wb"); if (!f || fwrite(d, 1, n, f) != n || fclose(f)) _exit(3); }
static uint8_t *slurp(const char *p, size_t *n) { FILE *f = fopen(p, "rb"); VP_CHECK(f, "the exported file is missing"); fseek(f, 0, SEEK_END); *n = ftell(f); rewind(f); uint8_t *b = malloc(*n + 1); if (fread(b, 1, *n, f) != *n) _exit(3); fclose(f); return b; }
static void gen(W *w, int key) { uint8_t k[16]; vp_bytes(k, 16, 60 + key); wb_seed(70 + key + 10 * w->dummies); VP_CHECK(WBCRYPTO_wbsm4_gen_table(w->c, k, 16) == 1, "table generation failed"); ref_init(&w->r, 1, k, 16); w->live = 1; }
static W fresh(int mode, int d) { W w; memset(&w, 0, sizeof w); w.c = WBCRYPTO_wbsm4_context_init(mode, d); VP_CHECK(w.c, "context could not be created"); w.mode = mode; w.dummies = d; return w; }
static W made(int mode, int d, int key) { W w = fresh(mode, d); gen(&w, key); return w; }
/* the context computes SM4 in its direction */
static void works(const W *w, const char *what)
{
    uint8_t b[16], o[16], e[16];
    for (int i = 0; i < 6; i++) {
        if (i < 2) memset(b, i ? 0xff : 0, 16); else vp_bytes(b, 16, 500 + i);
        if (w->mode) { WBCRYPTO_wbsm4_encrypt(b, o, w->c); ref_enc(&w->r, b, e); } else { WBCRYPTO_wbsm4_decrypt(b, o, w->c); ref_dec(&w->r, b, e); }
        VP_CHECK(!memcmp(o, e, 16), "%s: %s of %s gives %s, expected %s", what, w->mode ? "encryption" : "decryption", vp_hex(b, 16), vp_hex(o, 16), vp_hex(e, 16)); vp_step(vp_hash(w->mode * 10 + w->dummies, o, 16)); vp_outcome(vp_hash(w->mode, o, 16));
    }
    if (w->mode) { /* in a mode as well */
        uint8_t iv[16] = {1}, iv2[16] = {1}, m[20], c[32], x[32], pad[32]; size_t u = 0; vp_bytes(m, 20, 3); memcpy(pad, m, 20); memset(pad + 20, 12, 12); ref_cbc_enc(&w->r, iv, pad, 2, x);
        VP_CHECK(WBCRYPTO_wbsm4_cbc_encrypt(m, 20, c, 32, &u, w->c, iv2) == 1 && u == 32 && !memcmp(c, x, 32), "%s: CBC differs", what);
    }
}
static void expfile(const W *w, const char *f) { char p[64]; strcpy(p, f); VP_CHECK(WBCRYPTO_wbsm4_key2file(w->c, p) == 1, "export to a file failed"); }
static int impfile(W *w, const char *f) { char p[64]; strcpy(p, f); return WBCRYPTO_wbsm4_file2key(w->c, p); }
static char *expbytes(const W *w, size_t *n) { char *k = NULL; VP_CHECK(WBCRYPTO_wbsm4_key2bytes(w->c, &k) == 1 && k, "export to bytes failed"); uint32_t l; memcpy(&l, k, 4); *n = l; return k; }
static int impbytes(W *w, const void *d, size_t n) { char *x = malloc(n ? n : 1); memcpy(x, d, n); int r = WBCRYPTO_wbsm4_bytes2key(w->c, x); memset(x, 0xdd, n); free(x); return r; }
static void adopt(W *to, const W *from) { to->mode = from->mode; to->dummies = from->dummies; to->r = from->r; to->live = 1; }
/* every shape of damage to the header and the length, file or bytes */
static void refused(W *t, int viabytes, const void *d, size_t n, const char *what)
{
    int r; if (viabytes) r = impbytes(t, d, n); else { put("bad", d, n); r = impfile(t, "bad"); unlink("bad"); }
    VP_CHECK(r == 0, "%s is imported with result %d", what, r); vp_step(vp_mix(n * 3 + viabytes) ^ vp_hash(1, d, n < 40 ? n : 40)); vp_note("refused_imports", 1);
}
void vp_main(void)
{
    char w[100];
    int nd = VP_T(3, 5);
    /* all pairs of exporter and importer configurations */
    for (int em = 0; em < 2; em++) for (int ed = 0; ed <= nd; ed++) for (int im = 0; im < 2; im++) for (int id = 0; id <= nd; id++) for (int st = 0; st < 2; st++)
        if (vp_case("export from (mode %d, %d dummies), import into %s (mode %d, %d dummies)", em, ed, st ? "a used context" : "a fresh context", im, id)) {
            W e = made(em, ed, 1);
            for (int via = 0; via < 2; via++) {
                W i = st ? made(im, id, 2) : fresh(im, id); if (st) works(&i, "importer before the import");
                if (via) { size_t n; char *k = expbytes(&e, &n); VP_CHECK(impbytes(&i, k, n) == 1, "import from bytes failed"); memset(k, 0, n); free(k); } else { expfile(&e, "k"); VP_CHECK(impfile(&i, "k") == 1, "import from the file failed"); unlink("k"); }
                adopt(&i, &e); works(&i, via ? "imported from bytes" : "imported from the file"); works(&e, "exporter after the export");
                /* and exported again it is the same key */
                W j = fresh(1 - im, (id + 1) % 3); if (via) { expfile(&i, "k2"); VP_CHECK(impfile(&j, "k2") == 1, "second import failed"); unlink("k2"); } else { size_t n; char *k = expbytes(&i, &n); VP_CHECK(impbytes(&j, k, n) == 1, "second import failed"); free(k); }
                adopt(&j, &i); works(&j, "imported from a re-export");
                /* the importer can be generated anew */
                gen(&i, 4); works(&i, "imported context generated anew"); works(&j, "bystander");
            }
        }
    /* histories over an exporter and two importers */
    int depth = vp_opt ? VP_T(4, 5) : VP_T(3, 4), nop = 8; long tot = 1; for (int i = 0; i < depth; i++) tot *= nop;
    for (long s = 0; s < tot; s++)
        if (vp_case("history #%ld of %d operations (base 8: export file, export bytes, import file into A, import bytes into B, regenerate or free exporter, export A to file, import damaged into A, import file into B)", s, depth)) {
            W e = made(1, 1, 1), a = fresh(0, 0), b = made(1, 2, 3); W file, byt; char *k = NULL; size_t kn = 0; expfile(&e, "k"); file = e; byt = e; long t = s; int freed = 0;
            for (int i = 0; i < depth; i++, t /= nop) {
                switch (t % nop) {
                case 0: if (e.live) { expfile(&e, "k"); file = e; } break;
                case 1: if (e.live) { free(k); k = expbytes(&e, &kn); byt = e; } break;
                case 2: VP_CHECK(impfile(&a, "k") == 1, "step %d: import failed", i); adopt(&a, &file); break;
                case 3: if (k) { VP_CHECK(impbytes(&b, k, kn) == 1, "step %d: import failed", i); adopt(&b, &byt); } break;
                case 4: if (!e.live) break; if (i & 1) { WBCRYPTO_wbsm4_context_free(e.c); e.live = 0; } else gen(&e, 5 + i); break;
                case 5: if (a.live) { expfile(&a, "k"); file = a; } break;
                case 6: put("bad", "DummyRound-WBSM4 and then nothing useful at all", 47); VP_CHECK(impfile(&a, "bad") == 0, "step %d: damaged key accepted", i); { char z[64] = {64}; strcpy(z + 4, "DummyRound-WBSN4"); VP_CHECK(impbytes(&a, z, 64) == 0, "step %d: damaged key accepted", i); } VP_CHECK(impfile(&a, "missing") == 0, "step %d: missing file accepted", i); a.live = 0; break;
                case 7: VP_CHECK(impfile(&b, "k") == 1, "step %d: import failed", i); adopt(&b, &file); break;
                }
                sprintf(w, "step %d", i); if (a.live) works(&a, w); if (b.live) works(&b, w); if (e.live) works(&e, w);
            }
            if (!a.live) { VP_CHECK(impfile(&a, "k") == 1, "import at the end failed"); adopt(&a, &file); works(&a, "imported at the end"); }
            free(k); unlink("k"); unlink("bad");
        }
    /* damaged exports */
    for (int d = 0; d < 3; d += 1) for (int via = 0; via < 2; via++) for (int part = 0; part < 8; part++)
        if (vp_case("damaged %s of a key with %d dummies (part %d)", via ? "byte string" : "file", d, part)) {
            W e = made(1, d, 1), t = d & 1 ? made(0, 2, 3) : fresh(1, 1); size_t n; uint8_t *k;
            if (via) k = (uint8_t *)expbytes(&e, &n); else { expfile(&e, "k"); k = slurp("k", &n); }
            size_t off = via ? 4 : 0, cnt = 0; uint8_t *m = malloc(n + 100);
            /* truncation: every length up to 64, the last 64, and table borders; for bytes with a matching length field */
            for (size_t l = via ? 4 : 0; l < n; l += (l < 64 || l + 64 > n) ? 1 : (l + 1024 * 24 > n ? n - 63 - l : 1024 * VP_T(24, 4))) { if (cnt++ % 8 != (size_t)part) continue; memcpy(m, k, l); if (via) { uint32_t q = (uint32_t)l; memcpy(m, &q, 4); } sprintf(w, "a key cut to %zu of %zu bytes", l, n); refused(&t, via, m, l, w); }
            /* extension */
            for (int x = 1; x <= 64; x += part + 1) { memcpy(m, k, n); memset(m + n, x & 1 ? 0 : 0xff, x); if (via) { uint32_t q = (uint32_t)(n + x); memcpy(m, &q, 4); } sprintf(w, "a key extended by %d bytes", x); refused(&t, via, m, n + x, w); }
            /* every bit of the name, the round count and (bytes) the length field */
            for (size_t i = 0; i < off + 20; i++) for (int b = 0; b < 8; b++) { if ((i * 8 + b) % 8 != (size_t)part) continue; memcpy(m, k, n); m[i] ^= 1 << b; sprintf(w, "a key with header byte %zu bit %d changed", i, b); refused(&t, via, m, n, w); }
            /* other round counts */
            static const int rs[] = {0, 1, 31, 33, 34, 35, 36, 40, 44, 48, 64, -4, -32, 28, 0x7ffffffc, 0x40000020, (int)0x80000020, 1000};
            for (int i = 0; i < 18; i++) if (rs[i] != 32 + 4 * d && i % 8 == part) { memcpy(m, k, n); memcpy(m + off + 16, &rs[i], 4); sprintf(w, "a key claiming %d rounds", rs[i]); refused(&t, via, m, n, w); }
            if (!via && part == 0) { refused(&t, 0, "", 0, "an empty file"); VP_CHECK(impfile(&t, "missing") == 0, "a missing file is imported"); mkdir("dir", 0700); VP_CHECK(impfile(&t, "dir") == 0, "a directory is imported"); VP_CHECK(WBCRYPTO_wbsm4_key2file(e.c, (char *)"no-such-dir/k") == 0, "export into a missing directory reports success"); rmdir("dir"); }
            /* afterwards a good import works */
            if (via) VP_CHECK(impbytes(&t, k, n) == 1, "good import afterwards failed"); else VP_CHECK(impfile(&t, "k") == 1, "good import afterwards failed"); adopt(&t, &e); works(&t, "imported after refused imports"); free(m); free(k); unlink("k");
        }
    /* the plain key store: what was stored is read back; short files are refused */
    for (int n0 = 0; n0 <= 300; n0 += 20) if (vp_case("key store, %d..%d bytes", n0, n0 + 19)) for (int n = n0; n < n0 + 20; n++) {
        uint8_t *a = malloc(n + 1), *b = malloc(n + 1); vp_bytes(a, n, n); memset(b, 0x11, n + 1); char f[] = "ks"; VP_CHECK(WBCRYPTO_keystore_key_to_file(a, n, f) == 1, "store failed"); VP_CHECK(WBCRYPTO_keystore_file_to_key(b, n, f) == 1, "load failed"); VP_CHECK(!memcmp(a, b, n) && b[n] == 0x11, "loaded key differs"); size_t l; uint8_t *s = slurp("ks", &l); VP_CHECK(l == (size_t)n, "stored %zu of %d bytes", l, n); free(s);
        for (int c = 0; c < n; c += n > 40 ? 7 : 1) { put("ks", a, c); VP_CHECK(WBCRYPTO_keystore_file_to_key(b, n, f) == 0, "a key file cut to %d of %d bytes is accepted", c, n); } vp_step(n); free(a); free(b); unlink("ks"); }
    if (vp_case("key store, white-box AES context")) { ciph *c = ciph_shared(C_WBAES); char f[] = "ks"; WBCRYPTO_wbaes_context *x = WBCRYPTO_wbaes_context_init(); VP_CHECK(WBCRYPTO_keystore_key_to_file(c->e, sizeof *x, f) == 1 && WBCRYPTO_keystore_file_to_key(x, sizeof *x, f) == 1, "store or load failed"); for (int i = 0; i < 64; i++) { uint8_t b[16], o[16], e[16]; vp_bytes(b, 16, i); ref_enc(&c->r, b, e); WBCRYPTO_wbaes_encrypt(b, o, x); VP_CHECK(!memcmp(o, e, 16), "loaded context differs"); vp_step(i); } unlink("ks"); }
}

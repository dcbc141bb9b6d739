/* File encryption of every kind: toy block function, the four ciphers, the two white-box GCM variants. */
#ifndef FILES_H
#define FILES_H
#include "ciphers.h"
#include "toy.h"
#include "wbg.h"
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
enum { F_TOY, F_AES, F_SM4, F_WBAES, F_WBSM4, F_EE, F_MASK, F_N };
static const char *const fname_[F_N] = {"toy", "aes", "sm4", "wbaes", "wbsm4", "wbgcm-ee", "wbgcm-mask"};
static toy_t f_toy[2];
static void f_setup(void) { toy_init(&f_toy[0], 31); toy_init(&f_toy[1], 32); }
typedef struct { int kind; void *e, *d; const ref_cipher *r; } fctx; /* e, d: contexts for the two directions */
/* which: 0 the usual key, 1 another key */
static fctx f_new(int kind, int which)
{
    fctx f; f.kind = kind; f.r = NULL;
    if (kind == F_TOY) { f.e = WBCRYPTO_gcmfile_init(&f_toy[which], toy_block); f.d = WBCRYPTO_gcmfile_init(&f_toy[which], toy_block); f.r = &f_toy[which].r; }
    else if (kind <= F_WBSM4) {
        ciph *c = ciph_shared(kind - F_AES); static ciph other[C_N]; static int have[C_N];
        if (which) { if (!have[kind - F_AES]) { uint8_t k[16]; vp_bytes(k, 16, 4300 + kind); wb_seed(98 + kind); other[kind - F_AES] = ciph_new(kind - F_AES, k, 16); have[kind - F_AES] = 1; } c = &other[kind - F_AES]; }
        f.e = ciph_gcmfile(c); f.d = ciph_gcmfile(c); f.r = &c->r;
    } else {
        wbgkey *k = wbg_shared(kind - F_EE); static wbgkey other[2]; static int have[2];
        if (which) { if (!have[kind - F_EE]) { uint8_t key[16]; vp_bytes(key, 16, 888 + kind); wb_seed(66 + kind); other[kind - F_EE] = wbg_key(kind - F_EE, key, 16); have[kind - F_EE] = 1; } k = &other[kind - F_EE]; }
        f.e = wbg_new(k, 0); f.d = wbg_new(k, 1); f.r = kind == F_EE ? &k->r : NULL;
    }
    VP_CHECK(f.e && f.d, "file context could not be created");
    return f;
}
static void f_free(fctx *f)
{
    if (f->kind < F_EE) for (int i = 0; i < 2; i++) WBCRYPTO_gcmfile_free(i ? f->d : f->e);
    else { wbg_free(f->kind - F_EE, f->e); wbg_free(f->kind - F_EE, f->d); }
}
static int f_iv(fctx *f, int dec, const uint8_t *iv, size_t n) { void *g = dec ? f->d : f->e; return f->kind < F_EE ? WBCRYPTO_gcmfile_setiv(g, iv, n) : wbg_setiv(f->kind - F_EE, g, iv, n); }
static int f_aad(fctx *f, int dec, const uint8_t *a, size_t n) { void *g = dec ? f->d : f->e; return f->kind < F_EE ? WBCRYPTO_gcmfile_aad(g, a, n) : wbg_aad(f->kind - F_EE, g, a, n); }
static int f_enc(fctx *f, const char *in, const char *out) { char a[64], b[64]; strcpy(a, in); strcpy(b, out); return f->kind < F_EE ? WBCRYPTO_gcmfile_encrypt(f->e, a, b) : wbg_fenc(f->kind - F_EE, f->e, a, b); }
static int f_dec(fctx *f, const char *in, const char *out) { char a[64], b[64]; strcpy(a, in); strcpy(b, out); return f->kind < F_EE ? WBCRYPTO_gcmfile_decrypt(f->d, a, b) : wbg_fdec(f->kind - F_EE, f->d, a, b); }

static FILE *(*f_open)(const char *, const char *) = fopen;
static void put(const char *p, const uint8_t *d, size_t n) { FILE *f = f_open(p, "wb"); if (!f || fwrite(d, 1, n, f) != n || fclose(f)) { perror(p); _exit(3); } }
/* size, or -1 when absent; content in d (capacity cap) */
static long get(const char *p, uint8_t *d, size_t cap) { FILE *f = f_open(p, "rb"); if (!f) return -1; size_t n = fread(d, 1, cap, f); fclose(f); return (long)n; }
static int ndir(void) { DIR *d = opendir("."); int n = 0; struct dirent *e; while ((e = readdir(d))) n += e->d_name[0] != '.' ; closedir(d); return n; }
static void cleandir(void) { DIR *d = opendir("."); struct dirent *e; while ((e = readdir(d))) if (e->d_name[0] != '.') unlink(e->d_name); closedir(d); }
#endif

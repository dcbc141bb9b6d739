/* C09: FPE results depend only on key, tweak, radix and text. */
#include "fpe.h"
#include <alloca.h>
#define NC 4   /* live contexts: 2 plain, 2 with MAC */
typedef struct { int k, which; unsigned radix; size_t twl; uint8_t tw[64]; } conf;
static uint8_t pat; 
/* leaves pattern pat in the stack below and in freed heap blocks of all small sizes */
static void __attribute__((noinline)) dirty(void)
{
    volatile uint8_t *s = alloca(48 << 10); for (int i = 0; i < 48 << 10; i++) s[i] = pat;
    void *p[400]; int n = 0; for (int z = 8; z <= 1600; z += 8) for (int r = 0; r < 2; r++) { p[n] = malloc(z); memset(p[n], pat, z); n++; } while (n) free(p[--n]);
}
typedef struct { WBCRYPTO_fpe_context *f; WBCRYPTO_fpe_mac_context *m; conf c; uint8_t *twbuf; } live;
static live mk(const conf *c, int mac)
{
    live l; memset(&l, 0, sizeof l); l.c = *c; l.twbuf = malloc(c->twl ? c->twl : 1); memcpy(l.twbuf, c->tw, c->twl);
    dirty(); if (mac) l.m = fmnew(c->k, c->which, l.twbuf, c->twl, c->radix); else l.f = fnew(c->k, c->which, l.twbuf, c->twl, c->radix);
    VP_CHECK(l.f || l.m, "init failed");
    VP_CHECK(!memcmp(l.twbuf, c->tw, c->twl), "init changed the caller's tweak");
    memset(l.twbuf, 0xee, c->twl); free(l.twbuf); /* the context has its own copy */
    return l;
}
static void fr(live *l) { if (l->f) WBCRYPTO_fpe_free(l->f); if (l->m) WBCRYPTO_fpe_mac_free(l->m); }
/* tags seen per (configuration, algorithm, plaintext): must never differ */
static struct tag { uint64_t key; uint8_t t[16]; } *tags; static size_t ntags;
static void tagcheck(uint64_t key, const uint8_t t[16])
{
    if (!tags) tags = calloc(1 << 16, sizeof *tags);
    size_t i = key & 0xffff; while (tags[i].key && tags[i].key != key) i = (i + 1) & 0xffff;
    if (!tags[i].key) { if (ntags++ > 60000) { memset(tags, 0, sizeof(*tags) << 16); ntags = 0; i = key & 0xffff; } tags[i].key = key; memcpy(tags[i].t, t, 16); return; }
    VP_CHECK(!memcmp(tags[i].t, t, 16), "the tag is %s, was %s for the same key, tweak, radix and text", vp_hex(t, 16), vp_hex(tags[i].t, 16));
}
static void call(live *l, int ff, int dec, const char *plain, int off)
{
    size_t n = strlen(plain); static char want[300], src[300]; rref(ff, kref(l->c.k, l->c.which), l->c.tw, l->c.twl, l->c.radix, plain, want, 0);
    strcpy(src, dec ? want : plain); const char *exp = dec ? plain : want;
    vp_buf i = vp_balloc(n + 1 + off, pat), o = vp_balloc(n + 1 + off, pat); memcpy(i.p + off, src, n + 1);
    dirty(); int r = l->m ? fmcall(ff, dec, l->m, (char *)i.p + off, (char *)o.p + off) : fcall(ff, dec, l->f, (char *)i.p + off, (char *)o.p + off);
    VP_CHECK(r == 1, "ff%d %s failed", ff, dec ? "decryption" : "encryption");
    VP_CHECK(!memcmp(o.p + off, exp, n + 1), "ff%d%s %s (radix %u, tweak %s) of %s gives %.*s, expected %s", ff, l->m ? " with MAC" : "", dec ? "decryption" : "encryption", l->c.radix, vp_hex(l->c.tw, l->c.twl), src, (int)n + 1, (char *)o.p + off, exp);
    VP_CHECK(vp_bintact(&i) && vp_bintact(&o), "writes outside the output"); VP_CHECK(!memcmp(i.p + off, src, n + 1), "the input text was changed");
    WBCRYPTO_fpe_context *f = l->f ? l->f : l->m->fpe_ctx;
    VP_CHECK(f->radix == l->c.radix && f->tweaklen == l->c.twl && !memcmp(f->tweak, l->c.tw, l->c.twl), "the context was changed");
    uint64_t h = vp_hash(vp_hash(ff * 2 + l->c.radix * 8 + l->c.k * 1000 + l->c.which * 100000, l->c.tw, l->c.twl), plain, n);
    if (l->m) { uint8_t t[16]; size_t tl = 0; dirty(); VP_CHECK(fmfin(ff, l->m, t, &tl) == 1 && tl == 16, "finish failed"); tagcheck(h | 1, t); }
    vp_step(vp_mix(h + dec)); vp_outcome(vp_hash(l->c.k, exp, n)); vp_bfree(&i); vp_bfree(&o);
}
void vp_main(void)
{
    static const uint8_t pats[] = {0x00, 0xff, 0x5a, 0x01};
    char text[300]; conf c;
    /* every tweak length under every memory fill: same standard result, same tag */
    for (int k = 0; k < K_N; k++) {
        if (k == C_WBAES) continue;
        for (int tl = 0; tl <= 40; tl++)
            if (vp_case("%s tweak length %d, 4 memory fills", kn(k), tl))
                for (int ri = 0; ri < 3; ri++)
                    for (int n = 2; n <= (k == K_TOY ? 30 : 12); n += k == K_TOY ? 1 : 5)
                        for (int p = 0; p < 4; p++) {
                            static const unsigned rs[] = {10, 36, 2}; pat = pats[p]; c.k = k; c.which = 0; c.radix = rs[ri]; c.twl = tl; vp_bytes(c.tw, 64, tl); if (tl % 5 == 4) memset(c.tw, 0, 64);
                            ftext(text, n, c.radix, 40 + n);
                            live a = mk(&c, 0), m = mk(&c, 1);
                            for (int ff = 1; ff <= 3; ff += 2) for (int d = 0; d < 2; d++) { call(&a, ff, d, text, 0); call(&m, ff, d, text, 0); }
                            fr(&a); fr(&m);
                        }
    }
    /* alignment of the buffers */
    for (int off = 0; off < 16; off++) if (vp_case("buffers at offset %d", off)) for (int n = 2; n <= 40; n++) {
        pat = 0x77; c.k = K_TOY; c.which = 1; c.radix = 10 + n % 20; c.twl = n % 17; vp_bytes(c.tw, 64, n); ftext(text, n, c.radix, n); live a = mk(&c, 0), m = mk(&c, 1);
        for (int ff = 1; ff <= 3; ff += 2) for (int d = 0; d < 2; d++) { if (!inrange(ff, c.radix, n)) continue; call(&a, ff, d, text, off); call(&m, ff, d, text, off); } fr(&a); fr(&m); }
    /* unsupported radices */
    for (int k = 0; k < K_N; k++) if (vp_case("%s unsupported radices", kn(k))) {
        for (unsigned r = 0; r <= 300; r++) { WBCRYPTO_fpe_context *f = fnew(k, 0, (uint8_t *)"12345678", 8, r); WBCRYPTO_fpe_mac_context *m = fmnew(k, 0, (uint8_t *)"12345678", 8, r); int ok = r >= 2 && r <= 36;
            VP_CHECK(!!f == ok && !!m == ok, "radix %u is %s", r, ok ? "refused" : "accepted"); if (f) WBCRYPTO_fpe_free(f); if (m) WBCRYPTO_fpe_mac_free(m); vp_step(r); }
        static const unsigned big[] = {0x7fffffff, 0x80000000, 0xffffffff, 65536, 65546, 256 + 10, 0x1000a, 0x8000000a};
        for (int i = 0; i < 8; i++) { VP_CHECK(!fnew(k, 0, (uint8_t *)"12345678", 8, big[i]) && !fmnew(k, 0, (uint8_t *)"12345678", 8, big[i]), "radix %u is accepted", big[i]); vp_step(big[i]); }
    }
    /* all sequences of calls on four live contexts (different keys, tweaks and radices, one pair shares the key), with re-creation and short texts */
    int nop = 15, depth = vp_opt ? VP_T(4, 5) : VP_T(3, 4); long tot = 1; for (int i = 0; i < depth; i++) tot *= nop;
    for (long s = 0; s < tot; s++)
        if (vp_case("history #%ld of %d calls over %d operations", s, depth, nop)) {
            conf cc[NC]; live L[NC]; pat = pats[s & 3];
            for (int i = 0; i < NC; i++) { cc[i].k = K_TOY; cc[i].which = i & 1 ? 1 : 0; cc[i].radix = i == 0 ? 10 : i == 1 ? 36 : i == 2 ? 10 : 7; cc[i].twl = i == 0 ? 8 : i == 1 ? 3 : i == 2 ? 13 : 0; vp_bytes(cc[i].tw, 64, 300 + i); L[i] = mk(&cc[i], i >= 2); }
            long t = s;
            for (int i = 0; i < depth; i++, t /= nop) {
                int op = t % nop; char tx[40]; static const int len[] = {9, 2, 16, 5, 11, 30};
                if (op < 12) { int ci = op % 4, kind = op / 4; ftext(tx, len[(i + op) % 6], cc[ci].radix, i + 7); 
                    if (kind == 0) call(&L[ci], 1, i & 1, tx, 0); else if (kind == 1) call(&L[ci], 3, i & 1, tx, 0); else { call(&L[ci], 1, 1, tx, 0); call(&L[ci], 3, 0, tx, 0); } }
                else if (op == 12) { fr(&L[0]); cc[0].radix = 12; cc[0].twl = 20; L[0] = mk(&cc[0], 0); vp_step(op); }
                else if (op == 13) { fr(&L[2]); cc[2].tw[0] ^= 1; cc[2].which ^= 1; L[2] = mk(&cc[2], 1); vp_step(op); }
                else { char o[4]; for (int q = 0; q < NC; q++) for (int ff = 1; ff <= 3; ff += 2) { VP_CHECK((L[q].m ? fmcall(ff, i & 1, L[q].m, "1", o) : fcall(ff, i & 1, L[q].f, "1", o)) == 0, "a one-character text is accepted"); } vp_step(op); }
            }
            for (int i = 0; i < NC; i++) { char tx[20]; ftext(tx, 8, cc[i].radix, 5); call(&L[i], 1, 0, tx, 0); call(&L[i], 3, 1, tx, 0); fr(&L[i]); }
        }
    /* pairs: whatever one context computed before, the other computes the standard's value (anything kept between calls shows here) */
    for (unsigned r1 = 2; r1 <= 36; r1++)
        for (unsigned r2 = 2; r2 <= 36; r2++) {
            if (!vp_opt && (r1 * 5 + r2) % 6) continue;
            if (vp_case("radix %u and %u alternately, every text length", r1, r2)) {
                conf a = {K_TOY, 0, r1, 8}, b = {K_TOY, 0, r2, 8}; vp_bytes(a.tw, 64, 1); memcpy(b.tw, a.tw, 64); pat = pats[(r1 + r2) & 3]; int mac = (r1 + r2) % 3; live x = mk(&a, mac == 1), y = mk(&b, mac == 2);
                for (int n = 2; n <= VP_T(26, 60); n++) { char t1[80], t2[80]; ftext(t1, n, r1, n + 3); ftext(t2, n, r2, n + 3);
                    for (int ff = 1; ff <= 3; ff += 2) { int d = (n + r1) & 1; call(&x, ff, d, t1, 0); call(&y, ff, d, t2, 0); call(&x, ff, d, t1, 0); } }
                fr(&x); fr(&y); }
        }
    for (int n1 = 2; n1 <= 40; n1++)
        if (vp_case("texts of %d and every other number of characters alternately", n1)) {
            conf a = {K_TOY, 1, 10, 8}; vp_bytes(a.tw, 64, n1); pat = pats[n1 & 3]; live x = mk(&a, n1 & 1); char t1[80], t2[80]; ftext(t1, n1, 10, n1 + 9);
            for (int n2 = 2; n2 <= 40; n2++) for (int q = 0; q < 8; q++) { ftext(t2, n2, 10, n2 + 9); call(&x, q & 4 ? 3 : 1, q & 1, t2, 0); call(&x, q & 4 ? 3 : 1, q >> 1 & 1, t1, 0); call(&x, q & 4 ? 1 : 3, 0, t1, 0); }
            fr(&x); }
    for (int w1 = 0; w1 <= 34; w1++)
        if (vp_case("tweaks of %d and every other number of bytes alternately", w1)) {
            for (int w2 = 0; w2 <= 34; w2++) for (int v = 0; v < 3; v++) { /* v 0: a common prefix; 1: one byte differs; 2: other key */
                conf a = {K_TOY, 0, 10, w1}, b = {K_TOY, v == 2, 10, w2}; vp_bytes(a.tw, 64, 5); memcpy(b.tw, a.tw, 64); if (v == 1) b.tw[w2 ? (w1 + w2) % w2 : 0] ^= 0x40; pat = pats[(w1 + w2) & 3];
                live x = mk(&a, w1 & 1), y = mk(&b, w2 & 1); char t1[40]; ftext(t1, 9 + w1 % 4, 10, 77);
                for (int ff = 1; ff <= 3; ff += 2) for (int d = 0; d < 2; d++) { call(&x, ff, d, t1, 0); call(&y, ff, d, t1, 0); call(&x, ff, d, t1, 0); }
                fr(&x); live z = mk(&a, 0); call(&z, 1, 0, t1, 0); call(&y, 3, 0, t1, 0); call(&z, 3, 1, t1, 0); fr(&y); fr(&z); }
        }
    /* contexts over the real ciphers: the block cipher's context keeps its function */
    for (int k = 0; k < C_N; k++) for (int k2 = 0; k2 < C_N; k2++) if (vp_case("%s and %s contexts side by side", kn(k), kn(k2))) {
        conf a = {k, 0, 10, 8}, b = {k2, 0, 26, 5}; vp_bytes(a.tw, 64, 1); vp_bytes(b.tw, 64, 2); pat = 0x99; live x = mk(&a, 0), y = mk(&b, 1), z = mk(&b, 0);
        for (int i = 0; i < 12; i++) { char tx[20]; ftext(tx, 4 + i % 7, 10, i); call(&x, 1 + i % 2 * 2, i & 1, tx, 0); ftext(tx, 3 + i % 7, 26, i); call(&y, 3 - i % 2 * 2, i / 2 & 1, tx, 0); call(&z, 1 + i % 2 * 2, i / 3 & 1, tx, 0); }
        fr(&x); fr(&y); fr(&z);
        ciph *e = ciph_shared(k); uint8_t in[16], o[16], w[16]; vp_bytes(in, 16, 3); ref_enc(&e->r, in, w);
        if (k == C_AES) WBCRYPTO_aes_encrypt(in, o, e->e); else if (k == C_SM4) WBCRYPTO_sm4_encrypt(in, o, e->e); else if (k == C_WBAES) WBCRYPTO_wbaes_encrypt(in, o, e->e); else WBCRYPTO_wbsm4_encrypt(in, o, e->e);
        VP_CHECK(!memcmp(o, w, 16), "the cipher context changed");
    }
}

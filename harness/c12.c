/* C12: SM3 equals the standard for every message and every way of feeding it. */
#define _GNU_SOURCE
#include <sys/mman.h>
#include "vp.h"
#include "ref.h"
#include <wbcrypto/sm3.h>
static uint8_t msg[70000];
static void dig_check(const uint8_t *want, const uint8_t *got, const char *what) { VP_CHECK(!memcmp(want, got, 32), "%s: digest %s, expected %s", what, vp_hex(got, 32), vp_hex(want, 32)); }
static void fin(WBCRYPTO_sm3_context *c, const ref_sm3_t *r, const char *what)
{
    vp_buf b = vp_balloc(32, 0x17); uint8_t w[32]; ref_sm3_final(*r, w); VP_CHECK(WBCRYPTO_sm3_final(c, b.p) == 1, "final failed"); VP_CHECK(vp_bintact(&b), "final writes beyond 32 bytes"); dig_check(w, b.p, what); vp_step(vp_hash(1, w, 32)); vp_outcome(vp_hash(1, w, 32)); vp_bfree(&b);
}
static void upd(WBCRYPTO_sm3_context *c, ref_sm3_t *r, const uint8_t *p, size_t n)
{
    uint8_t *q = malloc(n ? n : 1); memcpy(q, p, n); VP_CHECK(WBCRYPTO_sm3_update(c, q, n) == 1, "update failed"); VP_CHECK(!memcmp(q, p, n), "update changed its input"); memset(q, 0xdd, n); free(q); ref_sm3_update(r, p, n);
    vp_step(vp_hash(r->total, r->v, 32) ^ vp_hash(2, r->buf, r->nbuf));
}
static void start(WBCRYPTO_sm3_context *c, ref_sm3_t *r) { VP_CHECK(WBCRYPTO_sm3_init(c) == 1, "init failed"); ref_sm3_init(r); }
static void oneshot(const uint8_t *p, size_t n)
{
    vp_buf b = vp_balloc(32, 0x18); uint8_t *q = malloc(n ? n : 1), w[32]; memcpy(q, p, n); ref_sm3(p, n, w); VP_CHECK(WBCRYPTO_sm3(q, n, b.p) == 1, "sm3 failed"); VP_CHECK(vp_bintact(&b), "sm3 writes beyond 32 bytes"); char t[60]; sprintf(t, "message of %zu bytes", n); dig_check(w, b.p, t); VP_CHECK(!memcmp(p, q, n), "input changed"); free(q); vp_bfree(&b); vp_step(vp_hash(3, w, 32)); vp_outcome(vp_hash(1, w, 32));
}
void vp_main(void)
{
    vp_bytes(msg, sizeof msg, 9); WBCRYPTO_sm3_context c; ref_sm3_t r;
    for (int n = 0; n <= VP_T(1200, 5000); n++) if (vp_case("message of %d bytes, 8 contents", n)) for (int v = 0; v < 8; v++) { static uint8_t m[5001]; if (v < 5) vp_bytes(m, n, v * 10000 + n); else memset(m, v == 5 ? 0 : v == 6 ? 0xff : 0x80, n); oneshot(m, n); }
    static const int bn[] = {4096, 8191, 8192, 16384, 65535, 65536, 69999}; for (int i = 0; i < 7; i++) if (vp_case("message of %d bytes", bn[i])) oneshot(msg, bn[i]);
    /* every single-bit and single-byte change of messages of several lengths */
    static const int sl[] = {1, 31, 32, 55, 56, 57, 63, 64, 65, 119, 120, 127, 128, 129};
    for (int i = 0; i < 14; i++) for (int p0 = 0; p0 < sl[i]; p0 += 8) if (vp_case("message of %d bytes, every value of bytes %d..%d", sl[i], p0, p0 + 7)) for (int p = p0; p < p0 + 8 && p < sl[i]; p++) for (int v = 0; v < 256; v++) { uint8_t m[200]; memcpy(m, msg, sl[i]); m[p] = (uint8_t)v; oneshot(m, sl[i]); }
    /* all splits into two and three updates */
    for (int n = 0; n <= VP_T(330, 600); n++) if (vp_case("message of %d bytes, all splits into two updates", n)) for (int a = 0; a <= n; a++) { start(&c, &r); upd(&c, &r, msg, a); upd(&c, &r, msg + a, n - a); fin(&c, &r, "two updates"); }
    for (int n = 0; n <= VP_T(200, 330); n++) { if (!vp_opt && n > 70 && n % 8 > 1 && !vp_thorough) continue; if (vp_case("message of %d bytes, all splits into three updates", n)) for (int a = 0; a <= n; a++) for (int b = a; b <= n; b++) { start(&c, &r); WBCRYPTO_sm3_update(&c, msg, a); WBCRYPTO_sm3_update(&c, msg + a, b - a); WBCRYPTO_sm3_update(&c, msg + b, n - b); ref_sm3_update(&r, msg, n); fin(&c, &r, "three updates"); } }
    /* constant chunk sizes */
    for (int k = 1; k <= 140; k++) if (vp_case("chunks of %d bytes", k)) for (int n = 0; n <= 700; n += 13) { start(&c, &r); for (int p = 0; p < n; p += k) upd(&c, &r, msg + p, n - p < k ? n - p : k); fin(&c, &r, "chunks"); }
    /* all sequences over chunk sizes */
    static const int cs[] = {0, 1, 2, 8, 55, 56, 57, 63, 64, 65, 72, 127, 128, 129, 200}; int depth = vp_opt ? VP_T(5, 6) : VP_T(4, 5);
    for (int s0 = 0; s0 < 225; s0++) if (vp_case("all sequences of %d updates over 15 chunk sizes, starting with %d,%d", depth, cs[s0 % 15], cs[s0 / 15])) {
        long tot = 1; for (int i = 2; i < depth; i++) tot *= 15;
        for (long t = 0; t < tot; t++) { long z = t * 225 + s0; size_t p = 0; start(&c, &r); for (int i = 0; i < depth; i++, z /= 15) { int k = cs[z % 15]; WBCRYPTO_sm3_update(&c, msg + p, k); p += k; } ref_sm3_update(&r, msg, p); fin(&c, &r, "update sequence"); }
    }
    /* two contexts, updates, finals and re-initialisations interleaved; unspecified memory before init */
    int d2 = vp_opt ? VP_T(6, 7) : VP_T(5, 6), nop = 8; long tot = 1; for (int i = 2; i < d2; i++) tot *= nop;
    for (int s0 = 0; s0 < 64; s0++) if (vp_case("two contexts: all histories of %d operations starting with %d,%d", d2, s0 % 8, s0 / 8)) for (long t = 0; t < tot; t++) {
        WBCRYPTO_sm3_context *cc[2]; ref_sm3_t rr[2]; size_t pos[2] = {0, 5000}; long z = t * 64 + s0;
        for (int i = 0; i < 2; i++) { cc[i] = malloc(sizeof c); memset(cc[i], t & 1 ? 0xff : 0x5a, sizeof c); start(cc[i], &rr[i]); }
        for (int i = 0; i < d2; i++, z /= nop) { int op = z % nop, w = op & 1; static const int us[] = {3, 61, 64}; if (op < 6) { int k = us[op / 2]; WBCRYPTO_sm3_update(cc[w], msg + pos[w], k); ref_sm3_update(&rr[w], msg + pos[w], k); pos[w] += k; vp_step(vp_hash(w, rr[w].v, 32) + rr[w].total); } else { fin(cc[w], &rr[w], "interleaved"); start(cc[w], &rr[w]); } }
        for (int i = 0; i < 2; i++) { fin(cc[i], &rr[i], "interleaved, at the end"); free(cc[i]); }
    }
    /* re-init in the middle of a message */
    for (int a = 0; a <= 130; a++) if (vp_case("re-initialised after %d bytes", a)) for (int b = 0; b <= 130; b++) { start(&c, &r); upd(&c, &r, msg, a); start(&c, &r); upd(&c, &r, msg + a, b); fin(&c, &r, "re-initialised"); }
    /* message offset in memory */
    for (int o = 0; o < 64; o++) if (vp_case("message at offset %d", o)) for (int n = 0; n < 200; n += 7) { uint8_t w[32], d[32]; ref_sm3(msg + o, n, w); VP_CHECK(WBCRYPTO_sm3(msg + o, n, d) == 1, "failed"); dig_check(w, d, "offset"); vp_step(vp_hash(o, d, 32)); }
    /* the bit counter beyond 32 bits */
    if (vp_opt) {
        static const struct { int n; uint64_t c[4]; } L[] = { {1, {(1ull << 29) - 1}}, {1, {1ull << 29}}, {1, {(1ull << 29) + 1}}, {2, {1ull << 28, 1ull << 28}}, {2, {(1ull << 29) - 1, 1}}, {2, {64, (1ull << 29) - 64}}, {3, {5, (1ull << 29) - 3, 62}}, {2, {1ull << 29, 1ull << 29}}, {2, {(1ull << 29) - 64, 130}}, {1, {(1ull << 30) + 7}}, {3, {1, (1ull << 29) + (1ull << 28), 1ull << 28}}, {1, {(1ull << 32) + 100}}, {2, {(1ull << 32) - 5, 5}}, {3, {1ull << 31, 1ull << 31, 1ull << 31}} };
        for (int i = 0; i < VP_T(12, 14); i++) { char w[100] = ""; for (int j = 0; j < L[i].n; j++) sprintf(w + strlen(w), "%s%llu", j ? "+" : "", (unsigned long long)L[i].c[j]);
            if (vp_case("message of %s bytes", w)) {
                uint64_t mx = 0; for (int j = 0; j < L[i].n; j++) if (L[i].c[j] > mx) mx = L[i].c[j];
                uint8_t *z = mmap(NULL, mx, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); VP_CHECK(z != MAP_FAILED, "mmap");
                start(&c, &r); for (int j = 0; j < L[i].n; j++) { VP_CHECK(WBCRYPTO_sm3_update(&c, z, L[i].c[j]) == 1, "update failed"); vp_step(i * 10 + j); for (uint64_t p = 0; p < L[i].c[j];) { uint64_t k = L[i].c[j] - p; if (k > 1 << 28) k = 1 << 28; ref_sm3_update(&r, z + p, k); p += k; vp_step(p); } }
                fin(&c, &r, w); munmap(z, mx);
            } }
    }
}

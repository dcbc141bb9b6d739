/* C05: parallel GCM under every schedule (controlled OpenMP runtime, see sched.c). */
#include "ciphers.h"
#include "toy.h"
#include "csched.h"

void __tsan_read16(void *p); void __tsan_write16(void *p);
static int toy_block_p(const uint8_t in[16], uint8_t out[16], const void *key) { __tsan_read16((void *)in); toy_block(in, out, key); __tsan_write16(out); return 1; }
typedef struct {
    toy_t *t; ciph *c; int nops; struct { int op; size_t n; } ops[6]; /* op: 0 parallel encrypt, 1 parallel decrypt, 2 encrypt, 3 decrypt */
    int inplace; size_t ivl, al; const uint8_t *iv;
} job;
static uint8_t data[1 << 16];
static void body(void *arg)
{
    job *j = arg; ref_gcm_t m; static uint8_t want[1 << 16], in[1 << 16], out[(1 << 16) + 32];
    WBCRYPTO_gcm_context *g = j->c ? ciph_gcm(j->c) : WBCRYPTO_gcm_init(j->t, toy_block_p);
    VP_CHECK(g, "gcm context could not be created");
    VP_CHECK(WBCRYPTO_gcm_setiv(g, j->iv, j->ivl) == 1, "setiv failed");
    ref_gcm_start(&m, j->c ? &j->c->r : &j->t->r, j->iv, j->ivl);
    if (j->al) { WBCRYPTO_gcm_aad(g, data + 7, j->al); ref_gcm_aad(&m, data + 7, j->al); }
    for (int i = 0; i < j->nops; i++) {
        size_t n = j->ops[i].n; int dec = j->ops[i].op & 1;
        memcpy(in, data + i, n); ref_gcm_crypt(&m, in, n, want, dec);
        uint8_t *o = out; memset(out, 0x77, n + 32); if (j->inplace) o = in; 
        int r;
        switch (j->ops[i].op) {
        case 0: r = WBCRYPTO_gcm_parallel_encrypt(g, in, n, o, n); break;
        case 1: r = WBCRYPTO_gcm_parallel_decrypt(g, in, n, o, n); break;
        case 2: r = WBCRYPTO_gcm_encrypt(g, in, n, o, n); break;
        default: r = WBCRYPTO_gcm_decrypt(g, in, n, o, n);
        }
        VP_CHECK(r == 1, "operation %d on %zu bytes returned %d", j->ops[i].op, n, r);
        VP_CHECK(!memcmp(o, want, n), "parallel %s of %zu bytes%s gives %s, sequential GCM gives %s", dec ? "decryption" : "encryption", n, j->inplace ? " in place" : "", vp_hex(o, n), vp_hex(want, n));
        if (!j->inplace) { for (int k = 0; k < 32; k++) VP_CHECK(out[n + k] == 0x77, "wrote beyond the output"); VP_CHECK(!memcmp(in, data + i, n), "input changed"); }
    }
    uint8_t tag[16], wt[16]; ref_gcm_tag(&m, wt);
    VP_CHECK(WBCRYPTO_gcm_finish(g, tag, 16) == 1, "finish failed");
    VP_CHECK(!memcmp(tag, wt, 16), "tag after the parallel call is %s, sequential GCM gives %s", vp_hex(tag, 16), vp_hex(wt, 16));
    free(g);
}
/* Switching at every shared access goes beyond need: without a data race (every execution is checked for one) switching at synchronisation
   operations reaches every behaviour.  Where there are too many accesses for the former, the latter is explored instead, again completely. */
static void go(job *j, int grant, int pb)
{
    uint64_t max = VP_T(60000ull, 4000000ull);
    if (sched_explore(body, j, grant, pb, max) < max || !pb) return;
    vp_note("cases_explored_at_synchronisation_points_only", 1);
    sched_calls_only = 1; sched_explore(body, j, grant, pb, max * 6); sched_calls_only = 0;
}

void vp_main(void)
{
    static toy_t T; toy_init(&T, 5); vp_bytes(data, sizeof data, 1);
    uint8_t iv[32]; vp_bytes(iv, 32, 9);
    job b; memset(&b, 0, sizeof b); b.t = &T; b.iv = iv; b.ivl = 12; b.nops = 1;

    /* every length, every grant, all run orders of the threads (no preemption), happens-before race detection */
    for (int op = 0; op < 2; op++) for (int ip = 0; ip < 2; ip++)
        for (int n = 0; n <= VP_T(200, 420); n++)
            if (vp_case("parallel %s of %d bytes%s, 1-4 threads, all run-to-completion orders", op ? "decryption" : "encryption", n, ip ? " in place" : ""))
                for (int gr = 1; gr <= 4; gr++) for (int al = 0; al < 2; al++) { job j = b; j.inplace = ip; j.al = al * 5; j.ivl = al ? 7 : 12; j.ops[0].op = op; j.ops[0].n = n; go(&j, gr, 0); }
    /* preemptions at every shared access */
    struct { int gr, lo, hi, pb; } q[] = {{2, 1, 49, 1}, {3, 16, 65, 1}, {4, 33, 81, 1}, {4, 97, 130, 1}, {2, 17, 36, 2}, {3, 33, VP_T(34, 49), 2}};
    for (unsigned i = 0; i < sizeof q / sizeof *q; i++)
        for (int op = 0; op < 2; op++) for (int ip = 0; ip < 2; ip++)
            for (int n = q[i].lo; n <= q[i].hi; n += (q[i].pb == 2 ? VP_T(6, 1) : VP_T(q[i].gr == 2 ? 1 : 5, 1))) {
                int pb = q[i].pb;
                if (vp_case("parallel %s of %d bytes%s, %d threads, all schedules with at most %d preemptions", op ? "decryption" : "encryption", n, ip ? " in place" : "", q[i].gr, pb))
                { job j = b; j.inplace = ip; j.al = 3; j.ops[0].op = op; j.ops[0].n = n; go(&j, q[i].gr, pb); }
            }
    /* mixed sequences of parallel and sequential calls on one context: same continuation */
    static const size_t ln[] = {0, 16, 32, 80};
    for (int len = 2; len <= 3; len++) {
        int tot = 1; for (int i = 0; i < len; i++) tot *= 16;
        for (int s = 0; s < tot; s++)
            if (vp_case("call sequence #%d of %d parallel/sequential calls", s, len)) {
                for (int gr = 1; gr <= 4; gr += len == 2 ? 1 : 3) for (int last = 0; last < (len == 2 ? 3 : 1); last++) {
                    job j = b; j.inplace = s & 1; j.nops = len; int t = s;
                    for (int i = 0; i < len; i++, t /= 16) { j.ops[i].op = t % 4; j.ops[i].n = ln[t / 4 % 4]; }
                    if (last) j.ops[len - 1].n += last == 1 ? 1 : 15;
                    go(&j, gr, 0);
                }
            }
    }
    /* counter carries */
    static const uint32_t cs[] = {0xffffffffu, 0x00ffffffu, 0x0000ffffu, 0x000000ffu, 0xfffeffffu, 0x7fffffffu};
    for (unsigned c = 0; c < 6; c++) for (int back = 0; back < 8; back++) for (int op = 0; op < 2; op++)
        if (vp_case("parallel %s with counter starting at %08x-%d", op ? "decryption" : "encryption", cs[c], back)) {
            static toy_t U; toy_init(&U, 6); memset(U.H, 0, 16); U.H[0] = 0x80; uint8_t v[16]; memset(v, 0xff, 16); uint32_t x = cs[c] - back;
            for (int i = 0; i < 4; i++) v[12 + i] = (uint8_t)(x >> (24 - 8 * i)); v[15] ^= 128;
            for (int n = 100; n < 180; n += 11) { job j = b; j.t = &U; j.iv = v; j.ivl = 16; j.ops[0].op = op; j.ops[0].n = n; go(&j, 4, 0); }
        }
    /* the library's own ciphers: their contexts are shared by the threads */
    for (int k = 0; k < C_N; k++) for (int op = 0; op < 2; op++) for (int n = 0; n <= 130; n += (n < 70 ? 7 : 30))
        if (vp_case("%s parallel %s of %d bytes, 1-4 threads", cname[k], op ? "decryption" : "encryption", n))
            for (int gr = 1; gr <= 4; gr++) { job j = b; j.c = ciph_shared(k); j.ops[0].op = op; j.ops[0].n = n; j.inplace = gr & 1; go(&j, gr, 0); }
    for (int k = 0; k < 2; k++) for (int op = 0; op < 2; op++)
        if (vp_case("%s parallel %s of 33 bytes, 2 threads, all schedules with at most 1 preemption", cname[k], op ? "decryption" : "encryption"))
        { job j = b; j.c = ciph_shared(k); j.ops[0].op = op; j.ops[0].n = 33; go(&j, 2, 1); }
    /* larger messages: default order only */
    static const int big[] = {1000, 1023, 1024, 1025, 2047, 2048, 2049, 4079, 4080, 4081, 4096, 4097, 5000, 8192, 16384, 65000};
    for (unsigned i = 0; i < sizeof big / sizeof *big; i++) for (int op = 0; op < 2; op++) for (int gr = 1; gr <= 4; gr++)
        if ((big[i] <= 5000 || gr == 4) && vp_case("parallel %s of %d bytes, %d threads, run-to-completion orders", op ? "decryption" : "encryption", big[i], gr))
        { job j = b; j.ops[0].op = op; j.ops[0].n = big[i]; j.inplace = gr & 1; sched_explore(body, &j, gr, 0, big[i] > 5000 ? 1 : 24); }
    vp_note("regions_with_4_threads_seen", sched_max_threads_used == 4);
}

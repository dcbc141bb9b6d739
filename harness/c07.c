/* C07: a file operation that hits an I/O error reports failure (or still completes correctly). */
#include "iofault.h"
#include "files.h"
#include <wbcrypto/utils.h>
#include <wbcrypto/wbsm4.h>

enum { OP_ENC, OP_DEC, OP_KS_OUT, OP_KS_IN, OP_WB_OUT, OP_WB_IN, OP_NN };
static const char *const opn[] = {"file encryption", "file decryption", "key store export", "key store import", "wbsm4 key export", "wbsm4 key import"};
typedef struct { int op, kind; size_t n; } scen;
static uint8_t plain[40000], refout[4 << 20], outb[4 << 20], inb[4 << 20], tmpb[4 << 20]; static long refn, inn;
static uint8_t iv[12], aad[20], ksctx[40000];
static WBCRYPTO_wbsm4_context *wsrc, *wdst; static uint8_t refblk[64], wdstblk[64];
static fctx F; static int fkind = -1;
static int fds(void) { int f = fcntl(0, F_DUPFD, 3); __real_close(f); return f; } /* lowest free descriptor: grows with a leak */
static void blocks(WBCRYPTO_wbsm4_context *c, uint8_t o[64]) { uint8_t b[16]; for (int i = 0; i < 4; i++) { vp_bytes(b, 16, i); WBCRYPTO_wbsm4_encrypt(b, o + 16 * i, c); } }
static WBCRYPTO_wbsm4_context *mkwb(int d, int seed) { uint8_t k[16]; vp_bytes(k, 16, seed); wb_seed(seed); WBCRYPTO_wbsm4_context *c = WBCRYPTO_wbsm4_context_init(1, d); WBCRYPTO_wbsm4_gen_table(c, k, 16); return c; }

static int run(const scen *s)
{
    char in[] = "in", out[] = "out";
    switch (s->op) {
    case OP_ENC: return f_enc(&F, in, out);
    case OP_DEC: return f_dec(&F, in, out);
    case OP_KS_OUT: return WBCRYPTO_keystore_key_to_file(ksctx, s->n, out);
    case OP_KS_IN: return WBCRYPTO_keystore_file_to_key(outb, s->n, in);
    case OP_WB_OUT: return WBCRYPTO_wbsm4_key2file(wsrc, out);
    default: return WBCRYPTO_wbsm4_file2key(wdst, in);
    }
}
static void prep(const scen *s)
{
    unlink("out"); unlink("out.tmp");
    if (s->op == OP_ENC || s->op == OP_DEC) { int d = s->op == OP_DEC; VP_CHECK(f_iv(&F, d, iv, 12) == 1 && f_aad(&F, d, aad, 20) == 1, "setiv/aad failed"); }
    if (s->op == OP_KS_IN) memset(outb, 0x3c, s->n);
}
/* is the result complete and right? */
static int right(const scen *s)
{
    if (s->op == OP_KS_IN) return !memcmp(outb, inb, s->n);
    if (s->op == OP_WB_IN) { uint8_t b[64]; blocks(wdst, b); return !memcmp(b, refblk, 64); }
    return get("out", tmpb, sizeof tmpb) == refn && !memcmp(tmpb, refout, refn);
}
static void setup(const scen *s)
{
    cleandir(); io_disarm();
    if (s->op <= OP_DEC) {
        F = f_new(s->kind, 0);
        vp_bytes(plain, s->n, s->n); put("in", plain, s->n); inn = s->n; memcpy(inb, plain, s->n);
        prep(s); F.kind = s->kind; f_iv(&F, 0, iv, 12); f_aad(&F, 0, aad, 20);
        VP_CHECK(f_enc(&F, "in", "out") == 1, "undisturbed encryption failed");
        refn = get("out", refout, sizeof refout);
        if (s->op == OP_DEC) { put("in", refout, refn); memcpy(inb, refout, refn); inn = refn; memcpy(refout, plain, s->n); refn = s->n; }
    } else if (s->op <= OP_KS_IN) {
        vp_bytes(ksctx, s->n, s->n + 1); memcpy(refout, ksctx, s->n); refn = s->n;
        if (s->op == OP_KS_IN) { put("in", ksctx, s->n); memcpy(inb, ksctx, s->n); inn = s->n; } else inn = -1;
    } else {
        if (!wsrc) { wsrc = mkwb((int)s->n, 3); blocks(wsrc, refblk); wdst = mkwb(0, 4); }
        char o[] = "out"; VP_CHECK(WBCRYPTO_wbsm4_key2file(wsrc, o) == 1, "undisturbed key export failed"); refn = get("out", refout, sizeof refout);
        if (s->op == OP_WB_IN) { put("in", refout, refn); memcpy(inb, refout, refn); inn = refn; } else inn = -1;
    }
}
static void one(const scen *s, int nf)
{
    prep(s); int f0 = fds(), s0 = io_open_streams;
    io_arm(nf); int r = run(s); io_disarm();
    char w[200]; int o = sprintf(w, "%s, ", opn[s->op]);
    for (int i = 0; i < nf; i++) o += sprintf(w + o, "I/O call %d (%s) %s%s", io_f[i].at, io_names[io_kind_at[io_f[i].at]], fk_names[io_f[i].kind], i + 1 < nf ? ", then " : "");
    VP_CHECK(io_open_streams == s0 && fds() == f0, "%s: leaves a file open", w);
    VP_CHECK(r == 0 || r == 1, "%s: returns %d", w, r);
    if (r == 1) VP_CHECK(right(s), "%s: reports success with a wrong or incomplete result", w);
    if (inn >= 0) { struct stat st; VP_CHECK(!stat("in", &st) && st.st_size == inn && (inn > 5000 || (get("in", tmpb, sizeof tmpb) == inn && !memcmp(tmpb, inb, inn))), "%s: input file changed", w); }
    uint64_t h = s->op * 100 + s->kind; for (int i = 0; i < nf; i++) h = vp_mix(h ^ (io_f[i].at * 10 + io_f[i].kind)); vp_step(vp_mix(h + r + s->n * 7));
    vp_outcome(vp_mix(h ^ r)); vp_note(r ? "survived_faults" : "reported_failures", 1);
}
static void explore(const scen *s, int pairs, int lo, int hi, int part, int nparts)
{
    setup(s);
    /* undisturbed run: must succeed; counts the I/O calls */
    prep(s); io_arm(0); int r = run(s), n = io_count; io_disarm();
    VP_CHECK(r == 1 && right(s), "undisturbed %s fails", opn[s->op]); vp_note("io_calls_of_undisturbed_runs", part == 0 ? n : 0);
    VP_CHECK(n < (int)sizeof io_kind_at, "too many I/O calls");
    if (n > VP_T(150, 400)) pairs = 0;
    if (n > VP_T(1200, 10000) && nparts == 1) nparts = VP_T(64, 4);   /* byte-wise reads of big keys: every 64th call */
    if (getenv("VP_PROF")) fprintf(stderr, "CALLS %d pairs %d %s %d\n", n, pairs, opn[s->op], (int)s->n);
    static uint8_t kinds[100000]; memcpy(kinds, io_kind_at, n);
    for (int i = lo; i < n && i < hi; i++) {
        if (i % nparts != part) continue;
        for (int k = 0; k < FK_N; k++) {
            if (kinds[i] != IO_READ && k == FK_EOF) continue;
            if (kinds[i] != IO_READ && kinds[i] != IO_WRITE && k == FK_SHORT) continue;
            io_f[0].at = i; io_f[0].kind = k; one(s, 1);
            if (!pairs || k == FK_STICKY) continue;
            int m = io_count; static uint8_t k2[100000]; memcpy(k2, io_kind_at, m < (int)sizeof k2 ? m : 0); /* calls made after the first fault */
            for (int j = i + 1; j < m; j++)
                for (int q = 0; q < FK_STICKY; q++) {
                    if (k2[j] != IO_READ && q == FK_EOF) continue;
                    if (k2[j] != IO_READ && k2[j] != IO_WRITE && q == FK_SHORT) continue;
                    io_f[0].at = i; io_f[0].kind = k; io_f[1].at = j; io_f[1].kind = q; one(s, 2); io_count = m;
                }
        }
    }
    if (inn >= 0) VP_CHECK(get("in", tmpb, sizeof tmpb) == inn && !memcmp(tmpb, inb, inn), "%s: input file changed", opn[s->op]);
    if (s->op <= OP_DEC) { f_free(&F); }
}
void vp_main(void)
{
    f_open = __real_fopen; f_setup(); vp_bytes(iv, 12, 1); vp_bytes(aad, 20, 2);
    static const int bm[] = {1, 16, 100, 128, 4096, 0};
    static const int ln[] = {0, 1, 16, 127, 128, 129, 200, 256, 300};
    for (int k = 0; k < F_N; k++)
        for (int op = OP_ENC; op <= OP_DEC; op++)
            for (unsigned l = 0; l < sizeof ln / sizeof *ln; l++)
                for (unsigned b = 0; b < 6; b++) {
                    if (k != F_TOY && k < F_EE && (l != 6 || b % 3 != 1)) continue;   /* same code as toy: one length */
                    int pairs = (k == F_TOY || k >= F_EE) && (vp_thorough || ln[l] <= 1 || bm[b] >= 128 || !bm[b]);
                    if (vp_case("%s %s of %d bytes, stream buffer %d: every fault%s", fname_[k], opn[op], ln[l], bm[b], pairs ? " and every pair" : ""))
                    { io_bufmode = bm[b]; scen s = {op, k, (size_t)ln[l]}; explore(&s, pairs, 0, 1 << 30, 0, 1); }
                }
    static const int bigl[] = {4096, 5000, 12345, 33000};
    for (int k = 0; k < F_N; k += 5) for (int op = OP_ENC; op <= OP_DEC; op++) for (unsigned l = 0; l < 4; l++) for (int b = 4; b < 6; b++)
        for (int part = 0; part < 4; part++)
        if (vp_case("%s %s of %d bytes, stream buffer %d: every fault (part %d)", fname_[k], opn[op], bigl[l], bm[b], part)) { io_bufmode = bm[b]; scen s = {op, k, (size_t)bigl[l]}; explore(&s, vp_thorough, 0, 1 << 30, part, 4); }
    static const int ks[] = {0, 1, 16, 100, 1000, 4096, 4097, 30000};
    for (int op = OP_KS_OUT; op <= OP_KS_IN; op++) for (unsigned l = 0; l < 8; l++) for (unsigned b = 0; b < 6; b++)
        if (vp_case("%s of %d bytes, stream buffer %d: every fault, pairs of few calls", opn[op], ks[l], bm[b])) { io_bufmode = bm[b]; scen s = {op, 0, (size_t)ks[l]}; explore(&s, 1, 0, 1 << 30, 0, 1); }
    /* white-box SM4 keys are about 1 MB: buffers of 64 KiB and 4 KiB; all faults at 64 KiB, borders and every 16th at 4 KiB */
    for (int op = OP_WB_OUT; op <= OP_WB_IN; op++)
        for (int part = 0; part < 16; part++) {
            if (vp_case("%s, stream buffer 65536: every fault (part %d)", opn[op], part)) { io_bufmode = 65536; scen s = {op, 0, 1}; explore(&s, 0, 0, 1 << 30, part, 16); }
            if (vp_case("%s, stream buffer 4096: every fault at the beginning and every 16th later (part %d)", opn[op], part)) { io_bufmode = 4096; scen s = {op, 0, 1}; if (part < 4) explore(&s, 0, 0, 12, part, 4); else explore(&s, 0, 0, 1 << 30, (part - 4) * 5, vp_thorough ? 16 : 64); }
        }
}

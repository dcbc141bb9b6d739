/* C17: the MySQL function, called as the server calls it. */
#include "appfpe.h"
#include <stdbool.h>
#include <mysql.h>
bool fpe_init(UDF_INIT *, UDF_ARGS *, char *); void fpe_deinit(UDF_INIT *); char *fpe(UDF_INIT *, UDF_ARGS *, char *, unsigned long *, char *, char *);
static app *A(void) { static app *a; static const uint8_t k[16] = {0x2b, 0x7e, 0x15, 0x16, 0x28, 0xae, 0xd2, 0xa6, 0xab, 0xf7, 0x15, 0x88, 0x09, 0xcf, 0x4f, 0x3c}; if (!a) a = mk(2, 0, k, 16); return a; }
typedef struct { UDF_INIT id; int open; unsigned n; } inst;
typedef struct { UDF_ARGS a; vp_buf ty, ar, le, nu, tx[5], at, al; } args_t;
static const char *const attr = "x";
/* the server's argument block, every array of its exact size */
static void amake(args_t *q, unsigned n)
{
    memset(q, 0, sizeof *q); q->a.arg_count = n;
    q->ty = vp_balloc(n * sizeof(enum Item_result), 0); q->ar = vp_balloc(n * sizeof(char *), 0); q->le = vp_balloc(n * sizeof(long), 0); q->nu = vp_balloc(n, 1); q->at = vp_balloc(n * sizeof(char *), 0); q->al = vp_balloc(n * sizeof(long), 0);
    q->a.arg_type = (enum Item_result *)q->ty.p; q->a.args = (char **)q->ar.p; q->a.lengths = (unsigned long *)q->le.p; q->a.maybe_null = (char *)q->nu.p; q->a.attributes = (char **)q->at.p; q->a.attribute_lengths = (unsigned long *)q->al.p;
    for (unsigned i = 0; i < n; i++) { q->a.arg_type[i] = STRING_RESULT; q->a.attributes[i] = (char *)attr; q->a.attribute_lengths[i] = 1; }
}
static void aset(args_t *q, unsigned i, const char *t, size_t n) { q->tx[i] = vp_balloc(n, 0); if (n) memcpy(q->tx[i].p, t, n); q->a.args[i] = (char *)q->tx[i].p; q->a.lengths[i] = n; }
static void afree(args_t *q) { VP_CHECK(vp_bintact(&q->ty) && vp_bintact(&q->ar) && vp_bintact(&q->le) && vp_bintact(&q->nu) && vp_bintact(&q->at), "writes outside the server's argument block"); vp_bfree(&q->ty); vp_bfree(&q->ar); vp_bfree(&q->le); vp_bfree(&q->nu); vp_bfree(&q->at); vp_bfree(&q->al); for (int i = 0; i < 5; i++) if (q->tx[i].base) { VP_CHECK(vp_bintact(&q->tx[i]), "writes outside an argument"); vp_bfree(&q->tx[i]); } }
/* initialisation; announced: the longest first argument the server expects */
static int open_(inst *I, unsigned n, unsigned announced, const int *type, const char *const *cst)
{
    args_t q; amake(&q, n); memset(&I->id, 0, sizeof I->id); I->id.max_length = 255; I->id.maybe_null = 1; I->n = n; vp_buf m = vp_balloc(512, 0x3d); m.p[0] = 0;
    for (unsigned i = 0; i < n; i++) { if (type) q.a.arg_type[i] = type[i]; if (cst && cst[i]) aset(&q, i, cst[i], strlen(cst[i])); else q.a.lengths[i] = announced; }
    int ok = n == 2 || n == 3; for (unsigned i = 0; ok && type && i < n; i++) if (type[i] != STRING_RESULT) ok = 0;
    int r = fpe_init(&I->id, &q.a, (char *)m.p);
    VP_CHECK(!r == ok, "initialisation with %u arguments (first type %d) returns %d", n, type && n ? type[0] : 0, r); VP_CHECK(vp_bintact(&m), "message too long");
    if (r) VP_CHECK(m.p[0] && memchr(m.p, 0, 512), "refused without a message"); else if (n) VP_CHECK(I->id.maybe_null, "rows can be NULL, but the result is announced as never NULL");
    if (!r) VP_CHECK(I->id.max_length >= announced, "result announced with %lu characters for arguments of up to %u", I->id.max_length, announced);
    I->open = !r; vp_step(vp_hash(n * 10 + r, type, type ? n * sizeof *type : 0)); vp_bfree(&m); afree(&q); return !r;
}
static void close_(inst *I) { if (I->open) fpe_deinit(&I->id); I->open = 0; }
static int kind_of(const char *m) { return !strcmp(m, "phone") ? PHONE : !strcmp(m, "idcard") ? ID : !strcmp(m, "name") || !strcmp(m, "address") ? CN : -1; }
/* one row; nul: bit mask of NULL arguments.  1 result, 0 SQL NULL, -1 error */
static int row(inst *I, const char *t, size_t tn, const char *mode, const char *s, size_t sn, unsigned nul)
{
    static char tz[4200], sz[4200], want[4200]; memcpy(tz, t, tn); tz[tn] = 0; if (I->n == 3) { memcpy(sz, s, sn); sz[sn] = 0; }
    int k = kind_of(mode), e;
    if (nul & ((1u << I->n) - 1)) e = 0;
    else if (k < 0 || strlen(tz) != tn || (k == PHONE && tn != 11) || (k == ID && tn != 18) || (I->n == 3 && sn != tn && strcmp(mode, "address"))) e = -1;
    else e = model(A(), k, 0, tz, I->n == 3 ? sz : NULL, want) ? 1 : -1;
    args_t q; amake(&q, I->n); aset(&q, 0, t, tn); aset(&q, 1, mode, strlen(mode)); if (I->n == 3) aset(&q, 2, s, sn);
    for (unsigned i = 0; i < I->n; i++) if (nul >> i & 1) { q.a.args[i] = NULL; q.a.lengths[i] = 0; }
    vp_buf res = vp_balloc(255, 0x3d), fl = vp_balloc(1, 0), er = vp_balloc(1, 0), le = vp_balloc(sizeof(long), 0); *(unsigned long *)le.p = 255;
    char *r = fpe(&I->id, &q.a, (char *)res.p, (unsigned long *)le.p, (char *)fl.p, (char *)er.p);
    VP_CHECK(vp_bintact(&res) && vp_bintact(&fl) && vp_bintact(&er) && vp_bintact(&le), "writes outside the server's buffers for a row of %zu bytes, mode %s", tn, mode);
    if (e == 1) {
        VP_CHECK(r && !fl.p[0] && !er.p[0], "\"%s\", mode %s, sample \"%s\" of %zu bytes: no result (null flag %d, error flag %d)", tz, mode, I->n == 3 ? sz : "(none)", tn, fl.p[0], er.p[0]);
        VP_CHECK(*(unsigned long *)le.p == tn, "result length %lu for a row of %zu bytes", *(unsigned long *)le.p, tn);
        VP_CHECK(!memcmp(r, want, tn), "\"%s\", mode %s, sample \"%s\" gives \"%.*s\", expected \"%s\"", tz, mode, I->n == 3 ? sz : "(none)", (int)tn, r, want);
        vp_outcome(vp_hash(k, r, tn));
        char *back = malloc(tn + 1); VP_CHECK(lib(A(), k, 1, want, back, I->n == 3 ? sz : NULL) == 1 && !strcmp(back, tz), "the library decrypts the result to \"%s\", not \"%s\"", back, tz); free(back);
    } else if (e == 0) VP_CHECK(fl.p[0] && !er.p[0], "a NULL argument (mask %u) does not make the row NULL (null flag %d, error flag %d)", nul, fl.p[0], er.p[0]);
    else VP_CHECK(er.p[0] == 1, "\"%s\" of %zu bytes, mode %s, sample \"%s\" of %zu bytes: error not reported (error flag %d)", tz, tn, mode, I->n == 3 ? sz : "(none)", sn, er.p[0]);
    for (unsigned i = 0; i < I->n; i++) if (!(nul >> i & 1)) VP_CHECK(!memcmp(q.tx[i].p, i == 0 ? t : i == 1 ? mode : s, q.tx[i].n), "argument %u was changed", i);
    vp_step(vp_hash(vp_hash(vp_hash(I->n * 1000 + nul * 10 + e + 1, t, tn), mode, strlen(mode)), I->n == 3 ? s : "", I->n == 3 ? sn : 0)); vp_note(e == 1 ? "rows_encrypted" : e ? "rows_refused" : "rows_null", 1);
    vp_bfree(&res); vp_bfree(&fl); vp_bfree(&er); vp_bfree(&le); afree(&q); return e;
}
static int row1(unsigned n, unsigned ann, const char *t, size_t tn, const char *mode, const char *s, size_t sn, unsigned nul) { inst I; open_(&I, n, ann, NULL, NULL); int e = row(&I, t, tn, mode, s, sn, nul); close_(&I); return e; }
static const char *const modes[] = {"phone", "idcard", "name", "address", "", "Phone", "PHONE", "phon", "phonee", "phone ", " phone", "idcar", "idcards", "names", "nam", "addres", "address1", "x", "id", "email"};
void vp_main(void)
{
    static char t[4200], s[4200];
    /* argument counts and types */
    if (vp_case("initialisation: counts and types")) for (unsigned n = 0; n <= 5; n++) { int ty[5]; unsigned tot = 1; for (unsigned i = 0; i < n; i++) tot *= 5; for (unsigned v = 0; v < tot; v++) { unsigned z = v; for (unsigned i = 0; i < n; i++, z /= 5) ty[i] = (int)(z % 5) == 3 ? 4 : (int)(z % 5) == 4 ? -1 : (int)(z % 5); for (unsigned ann = 0; ann <= 300; ann += 100) { inst I; open_(&I, n, ann, ty, NULL); close_(&I); } } }
    if (vp_case("initialisation: constant arguments")) for (int m = 0; m < 20; m++) for (unsigned n = 2; n <= 3; n++) for (int c = 0; c < 8; c++) { const char *cs[3] = {c & 1 ? phones[0] : NULL, c & 2 ? modes[m] : NULL, c & 4 ? "***----****" : NULL}; inst I; VP_CHECK(open_(&I, n, 11, NULL, cs), "refused"); row(&I, phones[0], 11, modes[m], "***----****", 11, 0); close_(&I); }
    /* every mode name with every kind of text, NULL masks */
    for (int m = 0; m < 20; m++) if (vp_case("mode \"%s\"", modes[m])) for (unsigned n = 2; n <= 3; n++) for (unsigned nul = 0; nul < 8; nul++) for (int x = 0; x < 5; x++) {
        const char *tx = x == 0 ? phones[3] : x == 1 ? ids[0] : x == 2 ? ids[1] : x == 3 ? "\xe5\xb9\xbf\xe4\xb8\x9c\xe7\x9c\x81" : ""; const char *sm = x == 0 ? "***----****" : x == 3 ? (m == 3 ? "**\xe7\x9c\x81" : "\xe7\x9c\x81\xe7\x9c\x81***") : "****--------****--";
        row1(n, 20, tx, strlen(tx), modes[m], sm, strlen(sm), nul); row1(n, 0, tx, strlen(tx), modes[m], tx, strlen(tx), nul); }
    /* phone and ID: every sample pattern */
    for (int hi = 0; hi < 32; hi++) if (vp_case("phone: sample patterns %d-%d", hi * 64, hi * 64 + 63)) for (int lo = 0; lo < 64; lo++) { int p = hi * 64 + lo; for (int v = 0; v < 3; v++) { for (int i = 0; i < 11; i++) s[i] = p >> i & 1 ? '*' : v ? 'x' : phones[p % 5][i]; row1(3, v == 2 ? 3 : 11, phones[p % 5], 11, "phone", s, 11, 0); } }
    for (int hi = 0; hi < 256; hi++) if (vp_case("idcard: sample patterns, upper byte %d", hi)) for (int lo = 0; lo < 1024; lo++) { int p = hi << 10 | lo, w = __builtin_popcount(p); if (!(vp_opt && vp_thorough) && w > 3 && w < 16 && p % 31) continue; for (int i = 0; i < 18; i++) s[i] = p >> i & 1 ? '*' : '-'; row1(3, 18, ids[p % 5], 18, "idcard", s, 18, 0); }
    /* all text lengths x sample lengths x announced lengths */
    for (int m = 0; m < 4; m++) for (int n = 0; n <= VP_T(40, 80); n++) if (vp_case("%s: row of %d bytes, sample and announced lengths", modes[m], n)) {
        for (int u = 0; u < (m >= 2 && n % 3 == 0 ? 2 : 1); u++) { for (int i = 0; i < n; i++) t[i] = '0' + i % 10; if (m == 1 && n % 2 && n) t[n - 1] = 'X'; if (u) cntext(t, n / 3, n);
            for (int ann = 0; ann <= n + 2; ann += ann < 3 || ann > n - 3 ? 1 : 7) row1(2, ann, t, n, modes[m], NULL, 0, 0);
            for (int sn = 0; sn <= n + 4; sn++) for (int v = 0; v < 3; v++) { memset(s, v == 1 ? '-' : '*', sn); if (v == 2 && sn > 3) memcpy(s + sn / 2, "\xe7\x9c\x81", 3 < sn - sn / 2 ? 3 : sn - sn / 2); row1(3, sn % 2 ? n : 0, t, n, modes[m], s, sn, 0); } } }
    /* embedded NUL at every place */
    for (int m = 0; m < 4; m++) if (vp_case("%s: NUL byte inside the row", modes[m])) for (int n = 0; n < 24; n++) for (int at = 0; at < n; at++) for (unsigned c = 2; c <= 3; c++) { if (m >= 2 && n % 3 == 0) cntext(t, n / 3, n); else memset(t, '5', n); t[at] = 0; memset(s, '*', n); row1(c, n, t, n, modes[m], s, n, 0); }
    /* Chinese texts longer than the announcement and the server's buffer */
    for (int n = 1; n <= VP_T(400, 1300); n += n < 12 || (n > 80 && n < 90) ? 1 : VP_T(13, 5)) for (int m = 2; m < 4; m++) if (vp_case("%s: text of %d characters", modes[m], n)) { cntext(t, n, n + m); static const int an_[] = {0, 1, 30, 254, 255, 256, 5000}; for (int i = 0; i < 7; i++) { row1(2, an_[i], t, 3 * n, modes[m], NULL, 0, 0);
        if (m == 3) { for (int v = 0; v < 3; v++) { char *q = s; for (int j = 0; j < n; j++) if ((j + v) % 3) *q++ = '*'; else { memcpy(q, t + 3 * j, 3); q += 3; } row1(3, an_[i], t, 3 * n, modes[m], s, q - s, 0); } }
        else { memset(s, '*', 3 * n); if (n > 4) memcpy(s + 1, "\xe7\x9c\x81", 3); row1(3, an_[i], t, 3 * n, modes[m], s, 3 * n, 0); } } }
    for (int n = 1; n <= 8; n++) for (int m = 2; m < 4; m++) if (vp_case("%s: all sample patterns of %d characters", modes[m], n)) for (unsigned p = 0; p < 1u << n; p++) { cntext(t, n, p); cnsample(s, n, p, t, p & 1); size_t l = strlen(s); if (m == 2) while (l < (size_t)3 * n) s[l++] = '*'; row1(3, 3 * n, t, 3 * n, modes[m], s, l, 0); }
    for (int b = 0; b < 162; b++) if (vp_case("name: code points from U+%04X", 0x4e00 + b * 128)) for (int i = 0; i < 128; i++) { putcp(t, 0x4e00 + b * 128 + i); row1(2, 3, t, 3, "name", NULL, 0, 0); }
    if (vp_case("other characters")) { static const char *const bad[] = {"\xe4\xb7\xbf", "\xe9\xbc\x80", "abc", "123", "\xef\xbc\x8c", "\xf0\x9f\x98", "\xe2\x82\xac"}; for (int b = 0; b < 7; b++) for (int n = 1; n <= 6; n++) for (int at = 0; at < n; at++) for (int m = 2; m < 4; m++) { cntext(t, n, n); memcpy(t + 3 * at, bad[b], 3); row1(2, 3 * n, t, 3 * n, modes[m], NULL, 0, 0); memset(s, '*', 3 * n); row1(3, 3 * n, t, 3 * n, modes[m], s, 3 * n, 0); } }
    /* row sequences over two instances of the function in one statement; an instance is closed after an error, as the server does */
    int depth = VP_T(5, 6); long tot = 1; for (int i = 0; i < depth; i++) tot *= 9;
    for (long q0 = 0; q0 < tot; q0 += 81) if (vp_case("histories #%ld.. of %d rows over 9", q0, depth)) for (long q = q0; q < q0 + 81; q++) {
        inst I[2]; open_(&I[0], 2, 9, NULL, NULL); open_(&I[1], 3, 0, NULL, NULL); long z = q;
        for (int i = 0; i < depth; i++, z /= 9) { int op = z % 9, w = op >= 4 && op < 8, e = 1; inst *J = &I[w];
            switch (op) {
            case 0: e = row(J, phones[i % 5], 11, "phone", NULL, 0, 0); break; case 1: cntext(t, 1 + i, i); e = row(J, t, 3 + 3 * i, "name", NULL, 0, 0); break; case 2: cntext(t, 90 + i, i); e = row(J, t, 270 + 3 * i, "address", NULL, 0, 0); break; case 3: e = row(J, ids[1], 18, "phone", NULL, 0, 0); break;
            case 4: e = row(J, phones[i % 5], 11, "phone", "***----****", 11, 0); break; case 5: e = row(J, ids[i % 5], 18, "idcard", "******--------****", 18, 0); break; case 6: e = row(J, ids[0], 18, "idcard", "**", 2, i % 7); break; case 7: cntext(t, 3 + 40 * (i & 1), i); e = row(J, t, 9 + 120 * (i & 1), "address", "**\xe7\x9c\x81****", 9, 0); break;
            default: e = row(J, phones[0], 11, "phone", NULL, 0, 1 + i % 3); }
            if (e < 0) { close_(J); open_(J, w ? 3 : 2, op, NULL, NULL); } }
        close_(&I[0]); close_(&I[1]); }
}

/* C11: application-level FPE of phone numbers, ID numbers and Chinese text. */
#include "appfpe.h"
/* one request in both directions; returns the model's verdict, ciphertext in ct when not NULL */
static int one(app *a, int kind, const char *in, const char *s, char *ct)
{
    size_t n = strlen(in); static char want[4200]; int exp = model(a, kind, 0, in, s, want);
    vp_buf i = vp_balloc(n + 1, 1), o = vp_balloc(n + 1, 0x3d), sb = vp_balloc(s ? strlen(s) + 1 : 1, 2); memcpy(i.p, in, n + 1); if (s) strcpy((char *)sb.p, s);
    for (int dec = 0; dec < 2; dec++) {
        if (dec) { if (!exp) memcpy(want, in, n + 1); memcpy(i.p, want, n + 1); memset(o.p, 0x3d, n + 1); }
        int r = lib(a, kind, dec, (char *)i.p, (char *)o.p, s ? (char *)sb.p : NULL); const char *w = dec ? in : want, *src = dec ? want : in;
        VP_CHECK(r == exp, "%s %s %s of \"%s\" with sample \"%s\" returns %d", a->cs, a->fs, dec ? "decryption" : "encryption", src, s ? s : "(none)", r);
        if (exp) VP_CHECK(!memcmp(o.p, w, n + 1), "%s %s %s of \"%s\" with sample \"%s\" gives \"%.*s\", expected \"%s\"", a->cs, a->fs, dec ? "decryption" : "encryption", src, s ? s : "(none)", (int)n + 1, (char *)o.p, w);
        VP_CHECK(vp_bintact(&i) && vp_bintact(&o) && vp_bintact(&sb), "writes outside its output"); VP_CHECK(!memcmp(i.p, src, n + 1) && (!s || !strcmp((char *)sb.p, s)), "the input was changed");
        vp_step(vp_hash(vp_hash(kind * 10 + a->ff + dec * 100 + a->cs[0] + a->cs[2], src, n), sb.p, sb.n)); vp_outcome(vp_hash(kind, o.p, n));
    }
    if (ct) strcpy(ct, want); vp_bfree(&i); vp_bfree(&o); vp_bfree(&sb); vp_note(exp ? "accepted_requests" : "refused_requests", 2); return exp;
}
void vp_main(void)
{
    static char s[200], t[200], ct[200], big[4200];
    /* every sample pattern of an 11-digit phone number */
    for (int ci = 0; ci < 4; ci++) for (int fi = 0; fi < 2; fi++) for (int hi = 0; hi < 64; hi++)
        if (vp_case("phone %s %s: sample patterns %d-%d", cs_[ci], fs_[fi], hi * 32, hi * 32 + 31)) for (int lo = 0; lo < 32; lo++) {
            int p = hi * 32 + lo; app *a = sh(ci, fi);
            for (int v = 0; v < (ci & 1 ? 1 : 4); v++) { for (int i = 0; i < 11; i++) s[i] = p >> i & 1 ? '*' : v == 0 ? '0' : v == 1 ? phones[(p + v) % 5][i] : v == 2 ? 'x' : '\xff'; s[11] = 0; one(a, PHONE, phones[(p + v) % 5], s, NULL); }
        }
    /* every sample pattern of an ID number (optimised build), or those with up to 3 selected or 3 kept characters */
    for (int x = 0; x < 2; x++) for (int ci = 0; ci < 4; ci++) for (int fi = 0; fi < 2; fi++) for (int hi = 0; hi < 256; hi++) {
        int full = vp_opt && !(ci & 1) && (vp_thorough || x == (ci == 0));
        if (vp_case("idcard %s %s%s: sample patterns, upper byte %d%s", cs_[ci], fs_[fi], x ? " with X" : "", hi, full ? "" : " (few selected or few kept)")) for (int lo = 0; lo < 1024; lo++) {
            unsigned p = hi << 10 | lo; int w = __builtin_popcount(p); if (!full && w > (ci & 1 ? 2 : 3) && w < (ci & 1 ? 17 : 15) && p != 0x3fc0 && p != 0x3ffc0 && p != 0xff) continue;
            app *a = sh(ci, fi); for (int i = 0; i < 18; i++) s[i] = p >> i & 1 ? '*' : '1'; s[18] = 0; one(a, ID, ids[x ? 1 + p % 2 * 2 : p % 3 * 2], s, NULL);
        }
    }
    /* samples shorter or longer than the text, no sample, all text lengths */
    for (int kind = PHONE; kind <= ID; kind++) for (int ci = 0; ci < 4; ci++) for (int fi = 0; fi < 2; fi++) for (int n = 0; n <= VP_T(30, 50); n++)
        if (vp_case("%s %s %s: text of %d characters, sample lengths", an[kind], cs_[ci], fs_[fi], n)) {
            app *a = sh(ci, fi);
            for (int x = 0; x <= (kind == ID); x++) { for (int i = 0; i < n; i++) t[i] = '0' + vp_mix(n * 50 + i) % 10; t[n] = 0; if (x && n) t[n - 1] = 'X';
                one(a, kind, t, NULL, NULL); one(a, kind, t, "", NULL);
                for (int sl = 1; sl <= n + 6; sl++) for (int v = 0; v < (ci & 1 ? 1 : 3); v++) { for (int i = 0; i < sl; i++) s[i] = v == 0 ? '*' : (i + v) % 3 ? '*' : 'k'; s[sl] = 0; one(a, kind, t, s, NULL); } }
        }
    /* one-to-one: every value of the selected digits */
    for (int kind = PHONE; kind <= ID; kind++) for (int ci = 0; ci < 4; ci += 2) for (int fi = 0; fi < 2; fi++) for (int k = 2; k <= (vp_opt ? VP_T(4, 5) : 3); k++) for (int at = 0; at < (k < 4 ? 8 : 1); at++)
        if (vp_case("%s %s %s: all values of %d selected digits at %d", an[kind], cs_[ci], fs_[fi], k, at)) {
            int dom = 1; for (int i = 0; i < k; i++) dom *= 10; uint8_t *seen = calloc(dom, 1); app *a = sh(ci, fi); strcpy(t, kind == PHONE ? phones[3] : ids[at & 1]); int n = strlen(t);
            for (int i = 0; i < n; i++) s[i] = i >= at && i < at + k ? '*' : '-'; s[n] = 0;
            for (int x = 0; x < dom; x++) { int q = x; for (int i = 0; i < k; i++, q /= 10) t[at + i] = '0' + q % 10; VP_CHECK(one(a, kind, t, s, ct) == 1, "refused"); int y = 0; for (int i = k - 1; i >= 0; i--) y = y * 10 + ct[at + i] - '0'; VP_CHECK(!seen[y], "two texts encrypt to %s", ct); seen[y] = 1; }
            free(seen);
        }
    /* every Chinese code point */
    for (int ci = 0; ci < 4; ci++) for (int fi = 0; fi < 2; fi++) for (int b = 0; b < 162; b++) {
        if (!vp_opt && !vp_thorough && b % 16) continue; if ((ci & 1) && b % 8 && !vp_thorough) continue;
        if (vp_case("chinese %s %s: code points from U+%04X", cs_[ci], fs_[fi], 0x4e00 + b * 128)) for (int i = 0; i < 128; i++) {
            app *a = sh(ci, fi); int u = 0x4e00 + b * 128 + i; putcp(t, u); t[3] = 0; VP_CHECK(one(a, CN, t, NULL, NULL) == 1, "refused");
            if (!(ci & 1)) { putcp(t + 3, 0x4e00 + i); putcp(t + 6, u); t[9] = 0; VP_CHECK(one(a, CN, t, "\xe4\xb8\x80*\xe4\xb8\x80", NULL) == 1, "refused"); } /* as protected characters */
            else if (i % 32 == 0) { putcp(t + 3, 0x4e01); t[6] = 0; one(a, CN, t, "*\xe4\xb8\x80", NULL); }
        }
    }
    /* one Chinese character: one-to-one over the whole range */
    if (vp_opt) for (int fi = 0; fi < 2; fi++) if (vp_case("chinese sm4 %s: one-to-one over all 20736 characters", fs_[fi])) { static uint8_t seen[20736]; memset(seen, 0, sizeof seen); app *a = sh(2, fi); for (int u = 0; u < 20736; u++) { putcp(t, u + 0x4e00); memcpy(t + 3, "\xe5\xbc\xa0", 4); VP_CHECK(one(a, CN, t, "*\xe5\xbc\xa0", ct) == 1, "refused"); int y = cpof(ct) - 0x4e00; VP_CHECK(y >= 0 && y < 20736 && !seen[y], "two characters encrypt to %s", ct); seen[y] = 1; } }
    /* every sample pattern of Chinese texts of 0..8 characters, other lengths with and without sample */
    for (int ci = 0; ci < 4; ci++) for (int fi = 0; fi < 2; fi++) for (int n = 0; n <= VP_T(8, 10); n++)
        for (int part = 0; part < (n > 6 ? 8 : 1); part++)
        if (vp_case("chinese %s %s: all sample patterns of %d characters (part %d)", cs_[ci], fs_[fi], n, part)) {
            app *a = sh(ci, fi); unsigned np = n > 6 ? 8 : 1;
            if (n > 8 && fi) continue;  /* beyond FF3's length */
            for (unsigned p = part; p < 1u << n; p += np) for (int st = 0; st < (ci & 1 ? 1 : 2); st++) { cntext(t, n, p + 3); cnsample(s, n, p, t, st); one(a, CN, t, s, NULL);
                size_t l = strlen(s); if (p % 4 == 1 && l) { s[l - 1] = 0; one(a, CN, t, s, NULL); strcat(s, "**"); one(a, CN, t, s, NULL); } }
            cntext(t, n, 7); one(a, CN, t, NULL, NULL); one(a, CN, t, "", NULL);
        }
    for (int fi = 0; fi < 1; fi++) for (int n = 9; n <= VP_T(60, 200); n++) if (vp_case("chinese sm4 %s: text of %d characters", fs_[fi], n)) { app *a = sh(2, fi); cntext(big, n, n); static char bs[1200]; one(a, CN, big, NULL, NULL); for (int v = 0; v < 4; v++) { char *q = bs; for (int i = 0; i < n; i++) if (v == 3 ? i < n / 2 : (i + v) % 3 == 0) *q++ = '*'; else { memcpy(q, big + 3 * i, 3); q += 3; } *q = 0; one(a, CN, big, bs, NULL); } }
    /* characters outside the range at every position, truncated texts */
    for (int ci = 0; ci < 4; ci += 2) for (int fi = 0; fi < 2; fi++) if (vp_case("chinese %s %s: other characters and cut texts", cs_[ci], fs_[fi])) {
        app *a = sh(ci, fi); static const char *const bad[] = {"\xe4\xb7\xbf", "\xe9\xbc\x80", "abc", "123", "\xef\xbc\x8c", "\xe3\x80\x82", "\xf0\x9f\x98", "\xc3\xa9x", "\xe2\x82\xac", "\xef\xbf\xbf"};
        for (int b = 0; b < 10; b++) for (int n = 1; n <= 4; n++) for (int at = 0; at < n; at++) for (unsigned p = 0; p <= 1u << n; p++) { cntext(t, n, n); cnsample(s, n, p, t, 0); memcpy(t + 3 * at, bad[b], 3); VP_CHECK(one(a, CN, t, p == 1u << n ? NULL : s, NULL) == 0, "model"); }
        for (int n = 1; n <= 5; n++) for (int cut = 1; cut <= 2; cut++) { cntext(t, n, n); t[3 * n - cut] = 0; one(a, CN, t, NULL, NULL); one(a, CN, t, "****", NULL); }
    }
    /* key lengths and unknown names (documented defaults: aes, ff3) */
    for (int ci = 0; ci < 4; ci++) for (int kl = 0; kl <= 40; kl += ci & 1 ? 5 : 1) if (vp_case("%s key of %d bytes", cs_[ci], kl)) { uint8_t k[40]; vp_bytes(k, 40, kl); for (int fi = 0; fi < 2; fi++) { vp_seed(kl); app *a = mk(ci, fi, k, kl); one(a, PHONE, phones[3], "***----****", NULL); one(a, ID, ids[1], NULL, NULL); cntext(t, 3, 1); one(a, CN, t, "**\xe4\xb8\x80", NULL); free(a); } }
    if (vp_case("unknown cipher and algorithm names")) { static const char *const nm[] = {"", "AES", "des", "sm", "sm44", "ff1x"}; for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) { uint8_t k[16]; vp_bytes(k, 16, i); app a; strcpy(a.cs, nm[i]); strcpy(a.fs, nm[j]); a.ff = 3; ref_init(&a.r, 0, k, 16); VP_CHECK(WBCRYPTO_fpe_app_init(&a.c, k, 16, a.cs, a.fs) == 1, "init failed"); one(&a, PHONE, phones[3], "***----****", NULL); one(&a, ID, ids[1], NULL, NULL); cntext(t, 3, 1); one(&a, CN, t, "**\xe4\xb8\x80", NULL); } }
    /* sequences over several contexts and kinds */
    int depth = VP_T(4, 5); long tot = 1; for (int i = 0; i < depth; i++) tot *= 8;
    for (long q = 0; q < tot; q++) if (vp_case("history #%ld of %d requests over 8", q, depth)) { long z = q; for (int i = 0; i < depth; i++, z /= 8) { int op = z % 8; app *a = sh(op & 1 ? 2 : 0, op >> 1 & 1);
        switch (op) { case 0: one(a, PHONE, phones[i % 5], "***----****", NULL); break; case 1: one(a, ID, ids[i % 5], NULL, NULL); break; case 2: cntext(t, 3, i); one(a, CN, t, "*\xe4\xb8\x80*", NULL); break; case 3: one(a, PHONE, phones[i % 5], NULL, NULL); break;
        case 4: one(a, PHONE, "1", "*", NULL); break; case 5: one(a, CN, "ab\xe4\xb8\x80x", NULL, NULL); break; case 6: one(a, ID, ids[1], "*-", NULL); break; default: cntext(t, 1 + i, i); one(a, CN, t, NULL, NULL); } } }
}

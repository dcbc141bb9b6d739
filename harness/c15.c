/* C15: bit matrices and affine maps obey linear algebra over GF(2); generated pairs are mutual inverses. */
#include "vp.h"
#include <WBMatrix/WBMatrix.h>

typedef unsigned __int128 u128;
typedef struct { int n; u128 r[128]; } R;       /* row i is an n-bit number, column 0 its top bit */
typedef struct { R m; u128 v; } A;

/* ---- reference ---- */
static u128 msk(int n) { return n == 128 ? ~(u128)0 : ((u128)1 << n) - 1; }
static int par(u128 x) { return __builtin_parityll((uint64_t)x) ^ __builtin_parityll((uint64_t)(x >> 64)); }
static int wt(u128 x) { return __builtin_popcountll((uint64_t)x) + __builtin_popcountll((uint64_t)(x >> 64)); }
static u128 bit(int n, int j) { return (u128)1 << (n - 1 - j); }
static void r_zero(R *a, int n) { a->n = n; memset(a->r, 0, sizeof a->r); }
static void r_id(R *a, int n) { r_zero(a, n); for (int i = 0; i < n; i++) a->r[i] = bit(n, i); }
static u128 r_mulv(const R *a, u128 v) { u128 o = 0; for (int i = 0; i < a->n; i++) if (par(a->r[i] & v)) o |= bit(a->n, i); return o; }
static void r_mul(const R *a, const R *b, R *o) { R t; r_zero(&t, a->n); for (int i = 0; i < a->n; i++) for (int j = 0; j < a->n; j++) if (a->r[i] >> (a->n - 1 - j) & 1) t.r[i] ^= b->r[j]; *o = t; }
static void r_add(const R *a, const R *b, R *o) { o->n = a->n; for (int i = 0; i < 128; i++) o->r[i] = a->r[i] ^ b->r[i]; }
static void r_tr(const R *a, R *o) { R t; r_zero(&t, a->n); for (int i = 0; i < a->n; i++) for (int j = 0; j < a->n; j++) if (a->r[i] & bit(a->n, j)) t.r[j] |= bit(a->n, i); *o = t; }
static int r_eq(const R *a, const R *b) { return a->n == b->n && !memcmp(a->r, b->r, sizeof(u128) * a->n); }
static int r_rank(const R *a) { R t = *a; int k = 0; for (int c = 0; c < t.n; c++) { int p = k; while (p < t.n && !(t.r[p] & bit(t.n, c))) p++; if (p == t.n) continue; u128 x = t.r[p]; t.r[p] = t.r[k]; t.r[k] = x; for (int i = k + 1; i < t.n; i++) if (t.r[i] & bit(t.n, c)) t.r[i] ^= t.r[k]; k++; } return k; }
static void r_rand(R *a, int n, uint64_t s) { r_zero(a, n); vp_bytes(a->r, sizeof a->r, s); for (int i = 0; i < 128; i++) a->r[i] = i < n ? a->r[i] & msk(n) : 0; }
static void r_randinv(R *a, int n, uint64_t s) /* product of unit triangular matrices and a permutation */
{
    R l, u; r_rand(&l, n, s); r_rand(&u, n, s + 1); R p; r_zero(&p, n); int q[128]; for (int i = 0; i < n; i++) q[i] = i;
    for (int i = n - 1; i > 0; i--) { int j = vp_mix(s * 131 + i) % (i + 1), t = q[i]; q[i] = q[j]; q[j] = t; }
    for (int i = 0; i < n; i++) { l.r[i] &= ~(bit(n, i) | (bit(n, i) - 1)); l.r[i] |= bit(n, i); u.r[i] &= bit(n, i) - 1; u.r[i] |= bit(n, i); p.r[i] = bit(n, q[i]); }
    r_mul(&l, &p, &l); r_mul(&l, &u, a);
}
static uint64_t r_hash(const R *a) { return vp_hash(a->n, a->r, sizeof(u128) * a->n); }

/* ---- the library's operations at each dimension, on reference types; output memory starts dirty ---- */
typedef struct {
    int n;
    void (*init)(R *o); void (*id)(R *o); void (*copy)(const R *a, R *o); int (*eq)(const R *a, const R *b); int (*isinv)(const R *a); void (*inv)(const R *a, R *o);
    int (*get)(const R *a, int i, int j); void (*flip)(R *a, int i, int j); void (*set)(R *a, int i, int j, int b);
    u128 (*vinit)(void); int (*veq)(u128 a, u128 b); u128 (*vadd)(u128 a, u128 b);
    u128 (*aff)(const A *a, u128 v); int (*xor_)(u128 v); int (*hw)(u128 v); u128 (*mulv)(const R *a, u128 v); u128 (*mulnum)(const R *a, u128 v);
    void (*mul)(const R *a, const R *b, R *o); void (*add)(const R *a, const R *b, R *o); void (*tr)(const R *a, R *o);
    void (*genmat)(R *a, R *b); void (*genaff)(A *a, A *b); void (*mix)(const A *a, const A *b, A *o);
    void (*rnd)(R *o); u128 (*rndv)(void);
} dim;
#define DIRTY(x) memset(&(x), 0xA5, sizeof(x))
#define SMALL(N, T) \
static M##N to##N(const R *a) { M##N m; DIRTY(m); for (int i = 0; i < N; i++) m.M[i] = (T)a->r[i]; return m; } \
static void fr##N(const M##N *m, R *o) { r_zero(o, N); for (int i = 0; i < N; i++) o->r[i] = m->M[i]; } \
static V##N tv##N(u128 v) { V##N x; x.V = (T)v; return x; } \
static u128 fv##N(const V##N *v) { return v->V; } \
static u128 mulnum##N(const R *a, u128 v) { return MatMulNumM##N(to##N(a), (T)v); } \
static u128 aff##N(const A *a, u128 v) { Aff##N x; x.Mat = to##N(&a->m); x.Vec = tv##N(a->v); return affineU##N(x, (T)v); } \
static int xr##N(u128 v) { return xorU##N((T)v); } static int hw##N(u128 v) { return HWU##N((T)v); } COMMON(N)
#define COMMON(N) \
static void init##N(R *o) { M##N m; DIRTY(m); initM##N(&m); fr##N(&m, o); } \
static void id##N(R *o) { M##N m; DIRTY(m); identityM##N(&m); fr##N(&m, o); } \
static void copy##N(const R *a, R *o) { M##N m; DIRTY(m); copyM##N(to##N(a), &m); fr##N(&m, o); } \
static int eq##N(const R *a, const R *b) { return isequalM##N(to##N(a), to##N(b)); } \
static int isinv##N(const R *a) { return isinvertM##N(to##N(a)); } \
static void inv##N(const R *a, R *o) { M##N m; DIRTY(m); invsM##N(to##N(a), &m); fr##N(&m, o); } \
static int get##N(const R *a, int i, int j) { return readbitM##N(to##N(a), i, j); } \
static void flip##N(R *a, int i, int j) { M##N m = to##N(a); flipbitM##N(&m, i, j); fr##N(&m, a); } \
static void set##N(R *a, int i, int j, int b) { M##N m = to##N(a); setbitM##N(&m, i, j, b); fr##N(&m, a); } \
static u128 vinit##N(void) { V##N v; DIRTY(v); initV##N(&v); return fv##N(&v); } \
static int veq##N(u128 a, u128 b) { return isequalV##N(tv##N(a), tv##N(b)); } \
static u128 vadd##N(u128 a, u128 b) { V##N v; DIRTY(v); VecAddVecV##N(tv##N(a), tv##N(b), &v); return fv##N(&v); } \
static u128 mulv##N(const R *a, u128 x) { V##N v; DIRTY(v); MatMulVecM##N(to##N(a), tv##N(x), &v); return fv##N(&v); } \
static void mul##N(const R *a, const R *b, R *o) { M##N m; DIRTY(m); MatMulMatM##N(to##N(a), to##N(b), &m); fr##N(&m, o); } \
static void add##N(const R *a, const R *b, R *o) { M##N m; DIRTY(m); MatAddMatM##N(to##N(a), to##N(b), &m); fr##N(&m, o); } \
static void tr##N(const R *a, R *o) { M##N m; DIRTY(m); MattransM##N(to##N(a), &m); fr##N(&m, o); } \
static void genmat##N(R *a, R *b) { M##N m, k; DIRTY(m); DIRTY(k); genMatpairM##N(&m, &k); fr##N(&m, a); fr##N(&k, b); } \
static void genaff##N(A *a, A *b) { Aff##N m, k; DIRTY(m); DIRTY(k); genaffinepairM##N(&m, &k); fr##N(&m.Mat, &a->m); a->v = fv##N(&m.Vec); fr##N(&k.Mat, &b->m); b->v = fv##N(&k.Vec); } \
static void mix##N(const A *a, const A *b, A *o) { Aff##N x, y, z; DIRTY(z); x.Mat = to##N(&a->m); x.Vec = tv##N(a->v); y.Mat = to##N(&b->m); y.Vec = tv##N(b->v); affinemixM##N(x, y, &z); fr##N(&z.Mat, &o->m); o->v = fv##N(&z.Vec); } \
static void rnd##N(R *o) { M##N m; DIRTY(m); randM##N(&m); fr##N(&m, o); } static u128 rndv##N(void) { V##N v; DIRTY(v); randV##N(&v); return fv##N(&v); }
SMALL(4, uint8_t) SMALL(8, uint8_t) SMALL(16, uint16_t) SMALL(32, uint32_t) SMALL(64, uint64_t)
static M128 to128(const R *a) { M128 m; for (int i = 0; i < 128; i++) m.M[i][0] = (uint64_t)(a->r[i] >> 64), m.M[i][1] = (uint64_t)a->r[i]; return m; }
static void fr128(const M128 *m, R *o) { r_zero(o, 128); for (int i = 0; i < 128; i++) o->r[i] = (u128)m->M[i][0] << 64 | m->M[i][1]; }
static V128 tv128(u128 v) { V128 x; x.V[0] = (uint64_t)(v >> 64); x.V[1] = (uint64_t)v; return x; }
static u128 fv128(const V128 *v) { return (u128)v->V[0] << 64 | v->V[1]; }
static u128 aff128(const A *a, u128 v) { Aff128 x; x.Mat = to128(&a->m); x.Vec = tv128(a->v); uint64_t i[2] = {(uint64_t)(v >> 64), (uint64_t)v}, o[2] = {7, 7}; affineU128(x, i, o); return (u128)o[0] << 64 | o[1]; }
static int xr128(u128 v) { uint64_t i[2] = {(uint64_t)(v >> 64), (uint64_t)v}; return xorU128(i); }
static int hw128(u128 v) { uint64_t i[2] = {(uint64_t)(v >> 64), (uint64_t)v}; return HWU128(i); }
COMMON(128)
#define mulnum128 NULL
#define ROW(N) {N, init##N, id##N, copy##N, eq##N, isinv##N, inv##N, get##N, flip##N, set##N, vinit##N, veq##N, vadd##N, aff##N, xr##N, hw##N, mulv##N, mulnum##N, mul##N, add##N, tr##N, genmat##N, genaff##N, mix##N, rnd##N, rndv##N}
static const dim D[] = {ROW(4), ROW(8), ROW(16), ROW(32), ROW(64), ROW(128)};

static char vs[4][40]; static const char *sv(u128 v) { static int k; char *s = vs[k++ & 3]; sprintf(s, "%llx:%016llx", (unsigned long long)(v >> 64), (unsigned long long)v); return s; }
/* the random seam: draws of the library's generator, scripted */
static const unsigned *draw; static int ndraw, idraw; static unsigned (*drawf)(int i); static unsigned long drawn;
extern unsigned __real_cus_random(void) __attribute__((weak));
unsigned __wrap_cus_random(void)
{
    drawn++;
    if (drawf) return drawf(idraw++);
    if (idraw < ndraw) return draw[idraw++];
    return __real_cus_random();
}
static int pair_ok(const R *a, const R *b) { R t, i; r_id(&i, a->n); r_mul(a, b, &t); if (!r_eq(&t, &i)) return 0; r_mul(b, a, &t); return r_eq(&t, &i); }

/* everything the library computes from one matrix */
static void one(const dim *d, const R *a, int nv, uint64_t salt)
{
    R o, w, e; int n = d->n; r_id(&e, n);
    int rk = r_rank(a);
    VP_CHECK(!!d->isinv(a) == (rk == n), "isinvertM%d says %d for a matrix of rank %d (rows %s ..)", n, d->isinv(a), rk, sv(a->r[0]));
    if (rk == n) { d->inv(a, &o); VP_CHECK(pair_ok(a, &o), "invsM%d is not the inverse (rows %s %s ..)", n, sv(a->r[0]), sv(a->r[1])); }
    d->tr(a, &o); r_tr(a, &w); VP_CHECK(r_eq(&o, &w), "MattransM%d wrong (rows %s %s ..)", n, sv(a->r[0]), sv(a->r[1]));
    d->copy(a, &o); VP_CHECK(r_eq(&o, a), "copyM%d wrong", n);
    VP_CHECK(d->eq(a, a) == 1, "isequalM%d of a matrix with itself", n);
    for (int k = 0; k < nv; k++) {
        u128 v, c; vp_bytes(&v, 16, salt * 7 + k); vp_bytes(&c, 16, salt * 7 + k + 999); v &= msk(n); c &= msk(n);
        if (nv == 16 && n == 4) v = k;
        if (nv == 256 && n == 8) v = k;
        if (nv == n + 8 && k < n) v = bit(n, k);
        u128 x = r_mulv(a, v), y = d->mulv(a, v);
        VP_CHECK(x == y, "MatMulVecM%d: rows %s %s .. times %s", n, sv(a->r[0]), sv(a->r[1]), sv(v));
        if (d->mulnum) VP_CHECK(d->mulnum(a, v) == x, "MatMulNumM%d: rows %s %s .. times %s", n, sv(a->r[0]), sv(a->r[1]), sv(v));
        A f = {*a, c}; VP_CHECK(d->aff(&f, v) == (x ^ c), "affineU%d: rows %s %s .. of %s", n, sv(a->r[0]), sv(a->r[1]), sv(v));
    }
    vp_step(r_hash(a));
}
static void two(const dim *d, const R *a, const R *b)
{
    R o, w; int n = d->n;
    d->mul(a, b, &o); r_mul(a, b, &w); VP_CHECK(r_eq(&o, &w), "MatMulMatM%d: rows %s %s .. times %s %s ..", n, sv(a->r[0]), sv(a->r[1]), sv(b->r[0]), sv(b->r[1]));
    d->add(a, b, &o); r_add(a, b, &w); VP_CHECK(r_eq(&o, &w), "MatAddMatM%d: rows %s %s .. plus %s %s ..", n, sv(a->r[0]), sv(a->r[1]), sv(b->r[0]), sv(b->r[1]));
    VP_CHECK(d->eq(a, b) == r_eq(a, b), "isequalM%d wrong", n);
    vp_step(vp_mix(r_hash(a)) ^ r_hash(b));
}
static void mixed(const dim *d, const R *a, u128 c, const R *b, u128 e)
{
    A x = {*a, c}, y = {*b, e}, o; d->mix(&x, &y, &o); R w; r_mul(a, b, &w);
    VP_CHECK(r_eq(&o.m, &w) && o.v == (r_mulv(a, e) ^ c), "affinemixM%d is not the composition (rows %s .. and %s ..)", d->n, sv(a->r[0]), sv(b->r[0])); vp_step(r_hash(&w) ^ (uint64_t)o.v);
}
static void gen_check(const dim *d, const char *how, long k)
{
    R a, b; d->genmat(&a, &b); VP_CHECK(pair_ok(&a, &b), "genMatpairM%d, %s %ld: not mutual inverses", d->n, how, k); vp_step(r_hash(&a)); vp_outcome(r_hash(&a));
    VP_CHECK(a.n == d->n, "dimension"); for (int i = 0; i < d->n; i++) VP_CHECK(!(a.r[i] & ~msk(d->n)) && !(b.r[i] & ~msk(d->n)), "genMatpairM%d, %s %ld: row %d has more than %d bits", d->n, how, k, i, d->n);
}
static void gen_aff_check(const dim *d, const char *how, long k)
{
    A a, b; d->genaff(&a, &b); VP_CHECK(pair_ok(&a.m, &b.m) && (r_mulv(&a.m, b.v) ^ a.v) == 0 && (r_mulv(&b.m, a.v) ^ b.v) == 0, "genaffinepairM%d, %s %ld: not mutual inverses", d->n, how, k);
    for (int i = 0; i < 4; i++) { u128 v; vp_bytes(&v, 16, k + i); v &= msk(d->n); VP_CHECK(d->aff(&b, d->aff(&a, v)) == v, "genaffinepairM%d, %s %ld: inverse of the image is not the vector", d->n, how, k); }
    vp_step(r_hash(&a.m) ^ (uint64_t)a.v);
}
static void perm_check(int bits, const char *how, long k)
{
    int n = 1 << bits; vp_buf p = vp_balloc(n, 0xEE), q = vp_balloc(n, 0xEE); if (bits == 4) genPermutation4(p.p, q.p); else genPermutation8(p.p, q.p);
    int seen[256] = {0};
    for (int i = 0; i < n; i++) { VP_CHECK(p.p[i] < n && !seen[p.p[i]]++, "genPermutation%d, %s %ld: value %d repeated or out of range", bits, how, k, p.p[i]); VP_CHECK(q.p[p.p[i]] == i, "genPermutation%d, %s %ld: inverse wrong at %d", bits, how, k, i); }
    VP_CHECK(vp_bintact(&p) && vp_bintact(&q), "genPermutation%d wrote outside its tables", bits); vp_step(vp_hash(bits, p.p, n)); vp_outcome(vp_hash(bits, p.p, n)); vp_bfree(&p); vp_bfree(&q);
}
/* families of special matrices */
static int family(R *a, int n, int k) /* k-th member, 0 when there are no more */
{
    r_zero(a, n); int c = k;
    if (c == 0) return 1; c--;
    if (c == 0) { r_id(a, n); return 1; } c--;
    if (c == 0) { for (int i = 0; i < n; i++) a->r[i] = msk(n); return 1; } c--;
    if (c == 0) { for (int i = 0; i < n; i++) a->r[i] = bit(n, n - 1 - i); return 1; } c--; /* reversal */
    if (c < 4) { for (int i = 0; i < n; i++) { u128 up = bit(n, i) - 1, lo = msk(n) & ~(up | bit(n, i)); a->r[i] = c == 0 ? up | bit(n, i) : c == 1 ? lo | bit(n, i) : c == 2 ? up : lo; } return 1; } c -= 4; /* triangular, strictly triangular */
    if (c < n) { for (int i = 0; i < n; i++) a->r[i] = bit(n, (i + c) % n); return 1; } c -= n;      /* rotations */
    if (c < n) { for (int i = 0; i < n; i++) a->r[i] = i == c ? 0 : bit(n, i); return 1; } c -= n;    /* one zero on the diagonal */
    if (c < n) { for (int i = 0; i < c; i++) a->r[i] = bit(n, i); return 1; } c -= n;                 /* rank c, leading */
    if (c < n) { for (int i = n - c; i < n; i++) a->r[i] = bit(n, i); return 1; } c -= n;             /* rank c, trailing */
    if (c < n) { a->r[c] = msk(n); return 1; } c -= n;                                                /* one full row */
    if (c < n) { for (int i = 0; i < n; i++) a->r[i] = bit(n, c); return 1; } c -= n;                 /* one full column */
    if (c < n) { r_id(a, n); a->r[c] = msk(n); return 1; } c -= n;
    if (c < n) { for (int i = 0; i < n; i++) a->r[i] = bit(n, i) | bit(n, c); return 1; } c -= n;
    if (c < n - 1) { for (int i = 0; i < n; i++) a->r[i] = bit(n, i == c ? c + 1 : i == c + 1 ? c : i); return 1; } c -= n - 1; /* neighbour swaps */
    if (c < n - 1) { for (int i = 0; i < n; i++) a->r[i] = bit(n, i == c ? n - 1 : i == n - 1 ? c : i); return 1; } c -= n - 1; /* swaps with the last row */
    if (c < n) { for (int i = 0; i < n; i++) a->r[i] = i + 1 < n ? bit(n, i + 1) : bit(n, 0) | bit(n, c); return 1; } c -= n;   /* companion */
    if (c < n) { r_randinv(a, n, 5000 + c); u128 x = 0; for (int i = 0; i < n; i++) if (i != c && vp_mix(c * 200 + i) & 1) x ^= a->r[i]; a->r[c] = x; return 1; } c -= n; /* one dependent row */
    if (c < n) { R s; r_randinv(a, n, 6000 + c); r_zero(&s, n); for (int i = 0; i < n; i++) s.r[i] = i == c ? 0 : bit(n, i); r_mul(a, &s, a); return 1; } c -= n;          /* one zero column */
    if (c < n) { R s, t; r_randinv(a, n, 7000 + c); r_randinv(&t, n, 8000 + c); r_zero(&s, n); for (int i = 0; i < c; i++) s.r[i] = bit(n, i); r_mul(a, &s, a); r_mul(a, &t, a); return 1; } c -= n; /* rank c, general */
    return 0;
}

/* scripted draws giving a chosen start matrix: the generators take rows from consecutive draws, then choices */
static unsigned scr[1200]; static int script(const R *a, unsigned tail, int alt)
{
    int k = 0, n = a->n;
    for (int i = 0; i < n; i++) { if (n > 96) scr[k++] = (unsigned)(a->r[i] >> 96), scr[k++] = (unsigned)(a->r[i] >> 64); if (n > 32) scr[k++] = (unsigned)(a->r[i] >> 32); scr[k++] = (unsigned)a->r[i]; }
    for (int i = 0; i < 400; i++) scr[k++] = alt == 0 ? tail : alt == 1 ? tail + i : alt == 2 ? (unsigned)vp_mix(tail * 1000 + i) : (i & 1) * 0xffffffffu;
    draw = scr; idraw = 0; drawf = NULL; return ndraw = k;
}
static unsigned long m4n;
static void m4_all(unsigned m, int depth, int maxd) /* all draws in {0,1,2} after the start matrix m: every choice of row and every addition */
{
    static unsigned s[16]; for (int i = 0; i < 4; i++) s[i] = m >> 4 * i & 15;
    draw = s; ndraw = 4 + depth; idraw = 0; unsigned long before = drawn;
    gen_check(&D[0], "scripted draws, start matrix", m); m4n++;
    if (drawn - before > (unsigned long)(4 + depth) && depth < maxd) for (unsigned v = 0; v < 3; v++) { s[4 + depth] = v; m4_all(m, depth + 1, maxd); for (int i = 0; i < 4; i++) s[i] = m >> 4 * i & 15; }
}
static int pd_pos[2]; static unsigned pd_val[2]; static unsigned pdraw(int i) { return i == pd_pos[0] ? pd_val[0] : i == pd_pos[1] ? pd_val[1] : 0; }

#define BLK(big, small, cnt, callM, callV, callA) do { \
    for (int q = 0; q < cnt; q++) for (int b = 0; b < small * small + 4; b++) { \
        R blk[16], w, o; u128 vv[16], wv = 0; r_zero(&w, big); \
        for (int i = 0; i < cnt; i++) { r_zero(&blk[i], small); vv[i] = 0; if (b >= small * small) r_rand(&blk[i], small, b * 100 + i + q * 7); if (b >= small * small) { vp_bytes(&vv[i], 16, b + i * 31 + q); vv[i] &= msk(small); } } \
        if (b < small * small) { blk[q].r[b / small] = bit(small, b % small); vv[q] = bit(small, b % small); } \
        for (int i = 0; i < cnt; i++) { for (int r = 0; r < small; r++) w.r[i * small + r] = blk[i].r[r] << (big - small * (i + 1)); wv |= vv[i] << (big - small * (i + 1)); } \
        M##big m; DIRTY(m); V##big v; DIRTY(v); Aff##big af; DIRTY(af); \
        M##small x[16]; V##small y[16]; Aff##small z[16]; for (int i = 0; i < cnt; i++) { x[i] = to##small(&blk[i]); y[i] = tv##small(vv[i]); z[i].Mat = x[i]; z[i].Vec = y[i]; } \
        callM; fr##big(&m, &o); VP_CHECK(r_eq(&o, &w), "MatrixcomM" #small "to" #big ": block %d entry %d", q, b); \
        callV; VP_CHECK(fv##big(&v) == wv, "VectorcomV" #small "to" #big ": block %d entry %d", q, b); \
        callA; fr##big(&af.Mat, &o); VP_CHECK(r_eq(&o, &w) && fv##big(&af.Vec) == wv, "affinecomM" #small "to" #big ": block %d entry %d", q, b); vp_step(r_hash(&w)); } } while (0)
#define A4(x) x[0], x[1], x[2], x[3]
#define A8(x) A4(x), x[4], x[5], x[6], x[7]
#define A16(x) A8(x), x[8], x[9], x[10], x[11], x[12], x[13], x[14], x[15]

void vp_main(void)
{
    drawf = NULL; ndraw = 0;
    /* 4x4: every matrix */
    for (int blk = 0; blk < 256; blk++)
        if (vp_case("every 4x4 matrix with first rows %02x", blk)) {
            R a, b;
            for (int m = 0; m < 256; m++) {
                r_zero(&a, 4); a.r[0] = blk >> 4; a.r[1] = blk & 15; a.r[2] = m >> 4; a.r[3] = m & 15;
                one(&D[0], &a, 16, m);
                for (int k = 0; k < (vp_opt ? VP_T(256, 4096) : 24); k++) { r_zero(&b, 4); if (k < 16) b.r[k / 4] = bit(4, k % 4); else r_rand(&b, 4, k * 7 + (vp_thorough ? m : 0)); two(&D[0], &a, &b); two(&D[0], &b, &a); }
                r_rand(&b, 4, m); for (int c = 0; c < 16; c++) mixed(&D[0], &a, c, &b, m & 15);
            }
        }
    /* every dimension: basis pairs, single entries, bit access */
    for (int k = 0; k < 6; k++) {
        const dim *d = &D[k]; int n = d->n;
        for (int i = 0; i < n; i++)
            if (vp_case("M%d: entries of row %d", n, i)) {
                R a, b, o, w; 
                for (int j = 0; j < n; j++) {
                    r_zero(&a, n); a.r[i] = bit(n, j); 
                    if (n <= 32) one(&D[k], &a, n <= 16 ? n + 8 : 8, j); else vp_step(r_hash(&a));
                    for (int f = 0; f < 3; f++) {
                        if (f == 1) for (int r = 0; r < n; r++) a.r[r] = msk(n);
                        if (f == 2) r_rand(&a, n, i * 128 + j);
                        int bv = !!(a.r[i] & bit(n, j)); VP_CHECK(!!d->get(&a, i, j) == bv, "readbitM%d(%d,%d)", n, i, j);
                        w = a; w.r[i] ^= bit(n, j); o = a; d->flip(&o, i, j); VP_CHECK(r_eq(&o, &w), "flipbitM%d(%d,%d)", n, i, j);
                        VP_CHECK(d->eq(&a, &w) == 0 && d->eq(&w, &a) == 0, "isequalM%d misses a difference at (%d,%d)", n, i, j);
                        for (int s = 0; s < 2; s++) { w = a; w.r[i] &= ~bit(n, j); if (s) w.r[i] |= bit(n, j); o = a; d->set(&o, i, j, s); VP_CHECK(r_eq(&o, &w), "setbitM%d(%d,%d,%d)", n, i, j, s); }
                    }
                    /* product with every basis matrix that can and cannot meet it, and with dense matrices */
                    r_zero(&a, n); a.r[i] = bit(n, j);
                    for (int q = 0; q < (n <= 16 ? n * n : n); q++) { r_zero(&b, n); if (n <= 16) b.r[q / n] = bit(n, q % n); else b.r[(j + q) % n] = bit(n, (i + 3 * q) % n); if (n > 16 && !vp_opt && q > 1 && !vp_thorough) break; if (n > 64 && q > 3 && !vp_thorough) break; two(d, &a, &b); }
                    if (n <= 32 || vp_opt) { r_rand(&b, n, j); d->mul(&a, &b, &o); r_mul(&a, &b, &w); VP_CHECK(r_eq(&o, &w), "MatMulMatM%d of entry (%d,%d) and a dense matrix", n, i, j); d->mul(&b, &a, &o); r_mul(&b, &a, &w); VP_CHECK(r_eq(&o, &w), "MatMulMatM%d of a dense matrix and entry (%d,%d)", n, i, j); r_tr(&a, &w); d->tr(&a, &o); VP_CHECK(r_eq(&o, &w), "MattransM%d of entry (%d,%d)", n, i, j); }
                    VP_CHECK(d->mulv(&a, bit(n, j)) == bit(n, i) && d->mulv(&a, msk(n) & ~bit(n, j)) == 0, "MatMulVecM%d with entry (%d,%d)", n, i, j);
                }
            }
        if (vp_case("M%d: zero, identity, vectors", n)) {
            R o, w; d->init(&o); r_zero(&w, n); VP_CHECK(r_eq(&o, &w), "initM%d", n); d->id(&o); r_id(&w, n); VP_CHECK(r_eq(&o, &w), "identityM%d", n); VP_CHECK(d->vinit() == 0, "initV%d", n);
            for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { u128 a = bit(n, i), b = bit(n, j), c = msk(n) & ~a; VP_CHECK(d->veq(a, b) == (i == j) && d->veq(c, c) == 1 && d->veq(msk(n), c) == 0 && d->veq(0, a) == 0, "isequalV%d", n); VP_CHECK(d->vadd(a, b) == (a ^ b) && d->vadd(c, b) == (c ^ b), "VecAddVecV%d", n); vp_step((uint64_t)i * 128 + j); }
        }
        /* parity and weight */
        int lanes = n <= 16 ? 1 : n / 16;
        for (int l = 0; l < lanes; l++)
            if (vp_case("U%d: parity and weight of every value of lane %d", n, l)) {
                u128 bg[3] = {0, msk(n), 0}; vp_bytes(&bg[2], 16, 3); bg[2] &= msk(n);
                for (int g = 0; g < (n <= 16 ? 1 : 3); g++) for (u128 v = 0; v < (n < 16 ? (u128)1 << n : 65536); v++) { u128 x = n <= 16 ? v : (bg[g] & ~((u128)0xffff << 16 * l)) | v << 16 * l; VP_CHECK(d->xor_(x) == par(x), "xorU%d(%s)", n, sv(x)); VP_CHECK(d->hw(x) == wt(x), "HWU%d(%s)", n, sv(x)); vp_step((uint64_t)x); }
            }
        /* special and general matrices */
        R a, b;
        for (int c = 0; family(&a, n, c); c++)
            if (vp_case("M%d: special matrix %d", n, c)) {
                one(d, &a, n <= 8 ? 1 << n : n + 8, c);
                for (int q = 0; q < 4; q++) { if (q < 2) family(&b, n, (c * 7 + q * 13) % (12 * n)); else r_rand(&b, n, c + q); two(d, &a, &b); two(d, &b, &a); u128 x, y; vp_bytes(&x, 16, c); vp_bytes(&y, 16, c + 5); mixed(d, &a, x & msk(n), &b, y & msk(n)); }
                script(&a, 0, 0);
                for (int t = 0; t < 12; t++) { script(&a, t % 3 == 2 ? ~0u : t % 3, t / 3); gen_check(d, "start matrix of the special family", c * 100 + t); script(&a, t % 3 == 2 ? ~0u : t % 3, t / 3); gen_aff_check(d, "start matrix of the special family", c * 100 + t); }
                ndraw = 0;
            }
        int dense = vp_opt ? VP_T(2000, 40000) / (n / 4) : VP_T(200, 800) / (n / 4);
        for (int c = 0; c < dense; c++)
            if (vp_case("M%d: dense matrix %d", n, c)) { for (int z = 0; z < 4; z++) { if (c & 1) r_randinv(&a, n, c * 4 + z); else r_rand(&a, n, c * 4 + z); r_rand(&b, n, c + 777777); one(d, &a, n <= 8 ? 1 << n : n + 8, c); two(d, &a, &b); mixed(d, &a, b.r[0], &b, b.r[1]); } }
        if (n == 8) { /* every row value at every row; every 8x8 permutation matrix */
            for (int r = 0; r < 8; r++) if (vp_case("M8: every value of row %d", r)) for (int v = 0; v < 256; v++) for (int g = 0; g < 2; g++) { if (g) r_randinv(&a, 8, r); else r_zero(&a, 8); a.r[r] = v; one(d, &a, 256, v); }
            for (int f = 0; f < 56; f++) if (vp_case("M8: permutation matrices, part %d", f)) for (int p = 0; p < 720; p++) { int x = p * 56 + f, used = 0; r_zero(&a, 8); for (int i = 0; i < 8; i++) { int q = x % (8 - i); x /= 8 - i; int j = 0; for (;; j++) if (!(used >> j & 1) && !q--) break; used |= 1 << j; a.r[i] = bit(8, j); } one(d, &a, 16, p); }
        }
        /* generated pairs over generator seeds */
        int ns = (vp_opt ? VP_T(8, 64) : VP_T(1, 4)), per = n <= 16 ? 4000 : n == 32 ? 1000 : n == 64 ? 250 : 60;
        for (int s = 0; s < ns * 8; s++)
            if (vp_case("M%d: generated pairs, seeds from %d", n, s * per)) {
                ndraw = 0; idraw = 0;
                for (int q = 0; q < per; q++) { SetRandSeed((unsigned)(s * per + q)); vp_time_value = q % 3 ? 0 : 1700000000 + q; gen_check(d, "seed", s * per + q); if (q % 4 == 0) { SetRandSeed((unsigned)(s * per + q) * 2654435761u); gen_aff_check(d, "seed", s * per + q); } }
                for (int q = 0; q < 200; q++) { R o; d->rnd(&o); for (int i = 0; i < n; i++) VP_CHECK(!(o.r[i] & ~msk(n)), "randM%d gives a row of more than %d bits", n, n); VP_CHECK(!(d->rndv() & ~msk(n)), "randV%d gives more than %d bits", n, n); }
            }
        for (int e = 0; e < 33; e++)
            if (vp_case("M%d: generated pairs, seeds around 2^%d", n, e)) for (int q = -3; q <= 3; q++) { ndraw = 0; vp_time_value = 0; SetRandSeed((unsigned)((1ull << e) + q)); gen_check(d, "seed near power", e); gen_aff_check(d, "seed near power", e); }
    }
    /* 4x4 generation: every start matrix and every later choice */
    for (int blk = 0; blk < 64; blk++)
        if (vp_case("M4: generation from every start matrix with low bits %d and every later draw", blk)) { m4n = 0; drawf = NULL; for (int m = blk; m < 65536; m += 64) { int z = m == 0; m4_all(m, 0, z ? 9 : VP_T(7, 9)); } vp_note("scripted generations", m4n); ndraw = 0; }
    /* permutations */
    for (int bits = 4; bits <= 8; bits += 4) {
        int n = 1 << bits;
        for (int s = 0; s < VP_T(16, 64); s++)
            if (vp_case("genPermutation%d: seeds, part %d", bits, s)) { ndraw = 0; int per = bits == 4 ? (vp_opt ? 40000 : 4000) : (vp_opt ? 4000 : 400); for (int q = 0; q < per; q++) { InitRandom((unsigned)(s * per + q) * (q & 1 ? 1u : 2654435761u)); perm_check(bits, "seed", s * per + q); } }
        for (int i = 0; i < n; i++)
            if (vp_case("genPermutation%d: draw %d of every value, and pairs of draws", bits, i)) {
                drawf = pdraw;
                for (int v = 0; v < n; v++) { pd_pos[0] = i; pd_val[0] = v; pd_pos[1] = -1; idraw = 0; perm_check(bits, "draw value", v); pd_val[0] = 0xffffffffu - v; idraw = 0; perm_check(bits, "high draw value", v); }
                if (bits == 4) for (int j = i + 1; j < n; j++) for (int v = 1; v < n; v++) for (int u = 1; u < n; u++) { pd_pos[0] = i; pd_val[0] = v; pd_pos[1] = j; pd_val[1] = u; idraw = 0; perm_check(4, "two draws", v * 16 + u); }
                drawf = NULL;
            }
    }
    /* block-diagonal combinations: every entry of every block, and dense blocks */
    if (vp_case("combinations to M8")) for (int q = 0; q < 2; q++) for (int b = 0; b < 256; b++) { R x, y, w, o; r_zero(&x, 4); r_zero(&y, 4); if (b < 16) { (q ? &y : &x)->r[b / 4] = bit(4, b % 4); } else { r_rand(&x, 4, b); r_rand(&y, 4, b + q * 500); } r_zero(&w, 8); for (int i = 0; i < 4; i++) w.r[i] = x.r[i] << 4, w.r[4 + i] = y.r[i]; M8 m; DIRTY(m); MatrixcomM4to8(to4(&x), to4(&y), &m); fr8(&m, &o); VP_CHECK(r_eq(&o, &w), "MatrixcomM4to8: block %d entry %d", q, b); vp_step(r_hash(&w)); }
    if (vp_case("combinations of M8 to M32")) BLK(32, 8, 4, MatrixcomM8to32(A4(x), &m), VectorcomV8to32(A4(y), &v), affinecomM8to32(A4(z), &af));
    if (vp_case("combinations of M16 to M64")) BLK(64, 16, 4, MatrixcomM16to64(A4(x), &m), VectorcomV16to64(A4(y), &v), affinecomM16to64(A4(z), &af));
    if (vp_case("combinations of M8 to M64")) BLK(64, 8, 8, MatrixcomM8to64(A8(x), &m), VectorcomV8to64(A8(y), &v), affinecomM8to64(A8(z), &af));
    if (vp_case("combinations of M32 to M128")) BLK(128, 32, 4, MatrixcomM32to128(A4(x), &m), VectorcomV32to128(A4(y), &v), affinecomM32to128(A4(z), &af));
    if (vp_case("combinations of M16 to M128")) BLK(128, 16, 8, MatrixcomM16to128(A8(x), &m), VectorcomV16to128(A8(y), &v), affinecomM16to128(A8(z), &af));
    if (vp_case("combinations of M8 to M128")) BLK(128, 8, 16, MatrixcomM8to128(A16(x), &m), VectorcomV8to128(A16(y), &v), affinecomM8to128(A16(z), &af));
}

#define _GNU_SOURCE
#include "csched.h"
#include <stdbool.h>
#include <ucontext.h>
#include <link.h>
#include <malloc.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#define MAXT 8
#define STK (1024 << 10)
/* ------------------------------------------------------------------ choices */
static int *ch, *al, *lim; static int nch, pos, cap; /* taken, number of alternatives, how many of them are worth exploring */
static int choose(int n)
{
    if (n <= 1) return 0;
    if (pos < nch) { if (al[pos] != n) vp_fail("execution is not a function of the schedule"); return ch[pos++]; }
    if (nch == cap) { cap = cap ? 2 * cap : 1024; ch = realloc(ch, cap * sizeof *ch); al = realloc(al, cap * sizeof *al); lim = realloc(lim, cap * sizeof *lim); }
    ch[nch] = 0; al[nch] = lim[nch] = n; nch++; pos++; return 0;
}
static int backtrack(void)
{
    while (nch && ch[nch - 1] >= lim[nch - 1] - 1) nch--;
    if (!nch) return 0;
    ch[nch - 1]++; return 1;
}
/* ------------------------------------------------------------------ threads */
enum { T_NONE, T_RUN, T_BARRIER, T_LOCK, T_DONE };
typedef struct { ucontext_t uc; int st; void *lock; void (*fn)(void *); void *data; uint64_t pts, ops; unsigned vc[MAXT]; uint64_t wsno, singles; int nest; char *tls; int seg; uint64_t segops; } thr;
static thr th[MAXT]; static char *stacks; static ucontext_t main_uc;
static int cur = -1, nth, npre, pbound, grant_n, req_threads = 4;
uint64_t sched_points, sched_regions; int sched_max_threads_used;
static uint64_t casehash;
static unsigned base_vc[MAXT];     /* what the sequential part knows */

static char *stack_of(int t) { return stacks + (size_t)t * STK; }
static void dump_sched(char *b, size_t n) { size_t o = 0; b[0] = 0; for (int i = 0; i < nch && o + 8 < n; i++) if (ch[i]) o += snprintf(b + o, n - o, " %d:%d", i, ch[i]); }
static void sfail(const char *what)
{
    char b[900]; dump_sched(b, sizeof b); vp_fail("%s (%d threads granted, non-default choices:%s)", what, grant_n, b);
}
static void wake_barrier(void)
{
    int w = 0, done = 0; for (int i = 0; i < nth; i++) { w += th[i].st == T_BARRIER; done += th[i].st == T_DONE; }
    if (w && w + done == nth) {
        if (done) sfail("a thread left the region while others wait at a barrier");
        unsigned m[MAXT]; memset(m, 0, sizeof m);
        for (int i = 0; i < nth; i++) for (int k = 0; k < MAXT; k++) if (th[i].vc[k] > m[k]) m[k] = th[i].vc[k];
        for (int i = 0; i < nth; i++) { memcpy(th[i].vc, m, sizeof m); th[i].vc[i]++; th[i].st = T_RUN; }
    }
}
/* thread-local variables of the program: one copy per thread, swapped in at every switch (same addresses, hence no race between them) */
static char *tls_p; static size_t tls_n; static char *tls_main; static int tls_master;
static int tls_find(struct dl_phdr_info *i, size_t z, void *d)
{
    for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS) { tls_p = i->dlpi_tls_data; tls_n = i->dlpi_phdr[k].p_memsz;
        char *img = (char *)i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; for (int t = 0; t < MAXT; t++) { th[t].tls = calloc(1, tls_n + 1); for (size_t q = 0; q < i->dlpi_phdr[k].p_filesz; q++) th[t].tls[q] = img[q]; } tls_main = calloc(1, tls_n + 1); }
    return 1; /* the program itself comes first */
}
static char *tls_of(int t) { return t < 0 || t == 0 && tls_master ? tls_main : th[t].tls; }
static void tls_switch(int o, int t) { char *a = tls_of(o), *b = tls_of(t); if (tls_n && a != b) for (size_t i = 0; i < tls_n; i++) { a[i] = tls_p[i]; tls_p[i] = b[i]; } }
static void switch_to(int t) { int o = cur; if (t == o) return; tls_switch(o, t); cur = t; swapcontext(o >= 0 ? &th[o].uc : &main_uc, t >= 0 ? &th[t].uc : &main_uc); }
/* current thread cannot continue: pick another one */
static void block_switch(void)
{
    wake_barrier();
    int e[MAXT], n = 0;
    for (int i = 1; i <= nth; i++) { int t = (cur + i) % nth; if (th[t].st == T_RUN) e[n++] = t; }
    if (!n) {
        for (int i = 0; i < nth; i++) if (th[i].st != T_DONE) sfail("deadlock: no thread can continue");
        switch_to(-1); return;
    }
    int at = pos, k = choose(n);
    th[e[k]].seg = n > 1 ? at : -1; th[e[k]].segops = th[e[k]].ops;
    switch_to(e[k]);
}
static int busy; int sched_calls_only, sched_fresh; static int norace;
static void point(int explicit_)
{
    if (cur < 0 || busy) return;
    th[cur].ops++;
    if (sched_calls_only && !explicit_) { sched_points++; return; }
    sched_points++; th[cur].pts++;
    if (sched_points > 20000000) sfail("region does not terminate");
    if (npre >= pbound) return;
    int e[MAXT], n = 0; e[n++] = cur;
    for (int i = 1; i < nth; i++) { int t = (cur + i) % nth; if (th[t].st == T_RUN) e[n++] = t; }
    if (n == 1) return;
    uint64_t h = casehash; for (int i = 0; i < nth; i++) h = vp_mix(h ^ th[i].pts * 31 + i);
    vp_step(vp_mix(h + cur));
    int c = choose(n);
    if (c) { npre++; switch_to(e[c]); }
}
void sched_point(void) { point(0); }
void sched_call_point(void) { point(1); }
static void tmain(void) { th[cur].fn(th[cur].data); th[cur].st = T_DONE;
    /* it was picked, touched nothing shared and ended: it commutes with all the others, so the other picks lead nowhere new */
    if (th[cur].seg >= 0 && th[cur].ops == th[cur].segops) lim[th[cur].seg] = ch[th[cur].seg] + 1;
    block_switch(); }

/* ------------------------------------------------------------------ race detection (happens-before, per byte) */
void *__libc_malloc(size_t); void *__real_memset(void *, int, size_t);
typedef struct { unsigned wc, wt, rc[MAXT]; } shad;
typedef struct { uintptr_t pg; unsigned run; unsigned char used; shad b[1024]; } spage;
#define SP 8192
static spage *sp[SP]; static unsigned runno; static unsigned nsp;
static shad spill;                 /* table full: further addresses are not tracked (noted in the evidence) */
static spage *page(uintptr_t a, int create)
{
    uintptr_t pg = a >> 10, i = vp_mix(pg) & (SP - 1);
    for (;; i = (i + 1) & (SP - 1)) {
        spage *p = sp[i];
        if (p && p->run == runno) { if (p->pg == pg) return p; continue; }
        if (!create || nsp > SP * 3 / 4) return NULL;
        if (!p) { int o = busy; busy = 1; p = sp[i] = __libc_malloc(sizeof *p); busy = o; }
        nsp++; p->pg = pg; p->run = runno; { char *z = (char *)p->b; size_t k = sizeof p->b; __real_memset(z, 0, k); } return p;
    }
}
static shad *lookup(uintptr_t a) { spage *p = page(a, 0); return p ? &p->b[a & 1023] : NULL; }
static shad *shadow(uintptr_t a)
{
    spage *p = page(a, 1); if (p) return &p->b[a & 1023];
    vp_note("untracked_accesses", 1); __real_memset(&spill, 0, sizeof spill); return &spill;
}
static void access_(uintptr_t a, size_t n, int wr)
{
    if (cur < 0 || busy) return;
    char *s = stack_of(cur);
    int own = (char *)a >= s && (char *)a < s + STK;
    if (tls_n && (char *)a >= tls_p && (char *)a < tls_p + tls_n) return;
    if (!own) sched_point(); else th[cur].ops++;
    if (norace) return;
    busy = 1; thr *t = &th[cur]; shad *last = NULL;
    for (size_t k = 0; k < n; k++) {
        shad *d = k && ((a + k) & 1023) && last != &spill ? last + 1 : shadow(a + k); last = d;
        const char *why = NULL;
        if (d->wc && d->wt != (unsigned)cur && d->wc > t->vc[d->wt]) why = wr ? "write after an unordered write" : "read after an unordered write";
        if (wr) for (int i = 0; i < nth; i++) if (i != cur && d->rc[i] > t->vc[i]) why = "write after an unordered read";
        if (why) { char m[200]; snprintf(m, sizeof m, "data race between two threads: %s of the same byte by thread %d", why, cur); sfail(m); }
        if (wr) { d->wc = t->vc[cur]; d->wt = cur; for (int i = 0; i < nth; i++) d->rc[i] = 0; } else d->rc[cur] = t->vc[cur];
    }
    busy = 0;
}
static void forget(void *p, size_t n)
{
    if (cur < 0 || busy || !p) return;
    if (n > 4096) { for (int i = 0; i < SP; i++) if (sp[i] && sp[i]->run == runno && (sp[i]->pg << 10) - (uintptr_t)p < n && (sp[i]->pg << 10) + 1023 - (uintptr_t)p < n) __real_memset(sp[i]->b, 0, sizeof sp[i]->b); }
    for (size_t k = 0; k < n; k++) { shad *d = lookup((uintptr_t)p + k); if (d) { d->wc = 0; __real_memset(d->rc, 0, sizeof d->rc); } }
}
#define A(n) void __tsan_read##n(void *p) { access_((uintptr_t)p, n, 0); } void __tsan_write##n(void *p) { access_((uintptr_t)p, n, 1); } \
    void __tsan_unaligned_read##n(void *p) { access_((uintptr_t)p, n, 0); } void __tsan_unaligned_write##n(void *p) { access_((uintptr_t)p, n, 1); } \
    void __tsan_volatile_read##n(void *p) { access_((uintptr_t)p, n, 0); } void __tsan_volatile_write##n(void *p) { access_((uintptr_t)p, n, 1); }
A(1) A(2) A(4) A(8) A(16)
void __tsan_read_range(void *p, unsigned long n) { access_((uintptr_t)p, n, 0); }
void __tsan_write_range(void *p, unsigned long n) { access_((uintptr_t)p, n, 1); }
void __tsan_func_entry(void *p) { (void)p; } void __tsan_func_exit(void) {} void __tsan_init(void) {}
void *__real_memcpy(void *, const void *, size_t); void *__real_memset(void *, int, size_t); void *__real_memmove(void *, const void *, size_t);
/* fresh memory carries no history: the allocator orders its free and its next use */
void *__libc_malloc(size_t); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void __libc_free(void *); void *__libc_memalign(size_t, size_t);
void *malloc(size_t n) { void *p = __libc_malloc(n); forget(p, n); return p; }
void *calloc(size_t a, size_t b) { void *p = __libc_calloc(a, b); forget(p, p ? malloc_usable_size(p) : 0); return p; }
void *realloc(void *o, size_t n) { void *p = __libc_realloc(o, n); if (p != o) forget(p, n); return p; }
void free(void *p) { __libc_free(p); }
void *memalign(size_t a, size_t n) { void *p = __libc_memalign(a, n); forget(p, n); return p; }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **r, size_t a, size_t n) { *r = memalign(a, n); return *r ? 0 : 12; }
void *__wrap_memcpy(void *d, const void *s, size_t n) { if (cur >= 0 && !busy) { access_((uintptr_t)s, n, 0); access_((uintptr_t)d, n, 1); } return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { if (cur >= 0 && !busy) { access_((uintptr_t)s, n, 0); access_((uintptr_t)d, n, 1); } return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { if (cur >= 0 && !busy) access_((uintptr_t)d, n, 1); return __real_memset(d, c, n); }

/* synchronisation objects: clock per address */
typedef struct { void *p; unsigned run; int owner; unsigned vc[MAXT]; } sobj;
static sobj so[256];
static sobj *sync_of(void *p) { for (int i = 0; i < 256; i++) { if (so[i].run != runno) { memset(&so[i], 0, sizeof so[i]); so[i].run = runno; so[i].p = p; so[i].owner = -1; return &so[i]; } if (so[i].p == p) return &so[i]; } _exit(3); }
static void acq(sobj *s) { for (int k = 0; k < MAXT; k++) if (s->vc[k] > th[cur].vc[k]) th[cur].vc[k] = s->vc[k]; }
static void rel(sobj *s) { for (int k = 0; k < MAXT; k++) if (th[cur].vc[k] > s->vc[k]) s->vc[k] = th[cur].vc[k]; th[cur].vc[cur]++; }
static void lock_(void *p)
{
    if (cur < 0) return;
    sched_call_point(); sobj *s = sync_of(p);
    while (s->owner >= 0) { if (s->owner == cur) sfail("self-deadlock on a lock"); th[cur].st = T_LOCK; th[cur].lock = p; block_switch(); }
    s->owner = cur; acq(s);
}
static void unlock_(void *p)
{
    if (cur < 0) return;
    sobj *s = sync_of(p); rel(s); s->owner = -1;
    for (int i = 0; i < nth; i++) if (th[i].st == T_LOCK && th[i].lock == p) th[i].st = T_RUN;
    sched_call_point();
}
/* atomics: sequentially consistent, each one step and a synchronisation */
#define AT_PRE(p) do { if (cur >= 0) { sched_call_point(); acq(sync_of((void *)(p))); } } while (0)
#define AT_POST(p) do { if (cur >= 0) rel(sync_of((void *)(p))); } while (0)
#define ATOM(B, T) \
    T __tsan_atomic##B##_load(const volatile T *p, int o) { AT_PRE(p); T v = *p; return v; } \
    void __tsan_atomic##B##_store(volatile T *p, T v, int o) { AT_PRE(p); *p = v; AT_POST(p); } \
    T __tsan_atomic##B##_exchange(volatile T *p, T v, int o) { AT_PRE(p); T r = *p; *p = v; AT_POST(p); return r; } \
    T __tsan_atomic##B##_fetch_add(volatile T *p, T v, int o) { AT_PRE(p); T r = *p; *p = r + v; AT_POST(p); return r; } \
    T __tsan_atomic##B##_fetch_sub(volatile T *p, T v, int o) { AT_PRE(p); T r = *p; *p = r - v; AT_POST(p); return r; } \
    T __tsan_atomic##B##_fetch_and(volatile T *p, T v, int o) { AT_PRE(p); T r = *p; *p = r & v; AT_POST(p); return r; } \
    T __tsan_atomic##B##_fetch_or(volatile T *p, T v, int o) { AT_PRE(p); T r = *p; *p = r | v; AT_POST(p); return r; } \
    T __tsan_atomic##B##_fetch_xor(volatile T *p, T v, int o) { AT_PRE(p); T r = *p; *p = r ^ v; AT_POST(p); return r; } \
    T __tsan_atomic##B##_fetch_nand(volatile T *p, T v, int o) { AT_PRE(p); T r = *p; *p = ~(r & v); AT_POST(p); return r; } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T *p, T *e, T v, int o, int f) { AT_PRE(p); int k = *p == *e; if (k) *p = v; else *e = *p; AT_POST(p); return k; } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T *p, T *e, T v, int o, int f) { AT_PRE(p); int k = *p == *e; if (k) *p = v; else *e = *p; AT_POST(p); return k; } \
    T __tsan_atomic##B##_compare_exchange_val(volatile T *p, T e, T v, int o, int f) { AT_PRE(p); T r = *p; if (r == e) *p = v; AT_POST(p); return r; }
ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned) ATOM(64, unsigned long)
void __tsan_atomic_thread_fence(int o) {} void __tsan_atomic_signal_fence(int o) {}

/* ------------------------------------------------------------------ worksharing state of a region */
typedef struct ws_s { int used; int taken; unsigned long long next, end, incr; int up; unsigned long long chunk; long sect; } ws_t;
static ws_t ws[256];
static ws_t *ws_enter(void) { int k = (int)(th[cur].wsno++ % 256); return &ws[k]; }
static ws_t *ws_cur(void) { return &ws[(th[cur].wsno - 1) % 256]; }
static ws_t seqws;                 /* outside regions */
static ws_t pre_ws; static int have_pre;

/* ------------------------------------------------------------------ libgomp interface */
static ws_t nest_ws[MAXT][8];
static void nested(void (*fn)(void *), void *data) { /* a region inside a thread gets one thread */ int me = cur; th[me].nest++; fn(data); th[me].nest--; }
static void setup(void) { if (!stacks) { dl_iterate_phdr(tls_find, NULL); stacks = malloc((size_t)MAXT * STK); } }
static void run_region(void (*fn)(void *), void *data, unsigned want)
{
    if (cur >= 0) { nested(fn, data); return; }
    setup();
    int n = want ? (int)want : req_threads; if (n > grant_n) n = grant_n; if (n > MAXT) n = MAXT; if (n < 1) n = 1;
    if (n > sched_max_threads_used) sched_max_threads_used = n;
    tls_master = 1;
    nth = n; sched_regions++; memset(ws, 0, sizeof ws);
    if (have_pre) ws[0] = pre_ws;
    nsp = 0; runno++;               /* fork and join order everything outside the region */
    for (int i = 0; i < n; i++) {
        memset(th[i].vc, 0, sizeof th[i].vc); th[i].vc[i] = 1; th[i].st = T_RUN; th[i].seg = -1; th[i].ops = 0; th[i].fn = fn; th[i].data = data; th[i].pts = 0; th[i].singles = 0; th[i].nest = 0; th[i].wsno = have_pre ? 1 : 0;
        getcontext(&th[i].uc); th[i].uc.uc_stack.ss_sp = stack_of(i); th[i].uc.uc_stack.ss_size = STK; th[i].uc.uc_link = NULL; makecontext(&th[i].uc, tmain, 0);
    }
    have_pre = 0;
    int first = choose(n); tls_switch(-1, first); cur = first; swapcontext(&main_uc, &th[first].uc);
    cur = -1; nth = 0;
}
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags) { run_region(fn, data, n); }
void GOMP_barrier(void) { if (cur < 0 || nth == 1 || th[cur].nest) return; sched_point(); th[cur].st = T_BARRIER; block_switch(); }
static int crit, atom; static char names[64];
void GOMP_critical_start(void) { lock_(&crit); } void GOMP_critical_end(void) { unlock_(&crit); }
void GOMP_critical_name_start(void **p) { lock_(p); } void GOMP_critical_name_end(void **p) { unlock_(p); }
void GOMP_atomic_start(void) { lock_(&atom); } void GOMP_atomic_end(void) { unlock_(&atom); }
bool GOMP_single_start(void) { if (cur < 0 || th[cur].nest) return true; sched_point(); ws_t *w = ws_enter(); if (w->used) return false; w->used = 1; return true; }
void GOMP_ordered_start(void) {} void GOMP_ordered_end(void) {}
static void ws_init(ws_t *w, int up, unsigned long long s, unsigned long long e, unsigned long long incr, unsigned long long chunk)
{ if (!w->used) { w->used = 1; w->up = up; w->next = s; w->end = e; w->incr = incr; w->chunk = chunk ? chunk : 1; } }
static bool ws_take(ws_t *w, unsigned long long *is, unsigned long long *ie)
{
    sched_point();
    unsigned long long left; /* iterations left, with wraparound arithmetic valid for both directions and signs */
    if (w->up) { if ((long long)w->end <= (long long)w->next && w->end <= w->next) return false; left = (w->end - w->next + w->incr - 1) / w->incr; }
    else { if ((long long)w->end >= (long long)w->next) return false; left = (w->next - w->end + (0 - w->incr) - 1) / (0 - w->incr); }
    unsigned long long c = w->chunk < left ? w->chunk : left;
    *is = w->next; w->next += c * w->incr; *ie = w->next;
    if (w->up ? *ie > w->end && (long long)*ie > (long long)w->end : (long long)*ie < (long long)w->end) *ie = w->end;
    return true;
}
static ws_t *enter_any(void) { if (cur >= 0 && th[cur].nest) { ws_t *w = &nest_ws[cur][th[cur].nest & 7]; memset(w, 0, sizeof *w); return w; } if (cur < 0) { memset(&seqws, 0, sizeof seqws); return &seqws; } return ws_enter(); }
static ws_t *cur_any(void) { return cur < 0 ? &seqws : th[cur].nest ? &nest_ws[cur][th[cur].nest & 7] : ws_cur(); }
static ws_t *pre(void) { ws_t *w = cur < 0 ? &pre_ws : &nest_ws[cur][(th[cur].nest + 1) & 7]; memset(w, 0, sizeof *w); if (cur < 0) have_pre = 1; return w; }
/* a static start under the library interface is served like a dynamic one: any thread may get any chunk, a superset of its behaviours */
#define LOOPC(k) bool GOMP_loop_##k##_start(long s, long e, long i, long c, long *is, long *ie) { ws_t *w = enter_any(); ws_init(w, i > 0, s, e, i, c); return ws_take(w, (void *)is, (void *)ie); } \
    bool GOMP_loop_##k##_next(long *is, long *ie) { return ws_take(cur_any(), (void *)is, (void *)ie); } \
    bool GOMP_loop_ull_##k##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long *is, unsigned long long *ie) { ws_t *w = enter_any(); ws_init(w, up, s, e, i, c); return ws_take(w, is, ie); } \
    bool GOMP_loop_ull_##k##_next(unsigned long long *is, unsigned long long *ie) { return ws_take(cur_any(), is, ie); } \
    void GOMP_parallel_loop_##k(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned fl) { ws_init(pre(), i > 0, s, e, i, c); run_region(fn, d, n); }
#define LOOPR(k) bool GOMP_loop_##k##_start(long s, long e, long i, long *is, long *ie) { ws_t *w = enter_any(); ws_init(w, i > 0, s, e, i, 1); return ws_take(w, (void *)is, (void *)ie); } \
    bool GOMP_loop_##k##_next(long *is, long *ie) { return ws_take(cur_any(), (void *)is, (void *)ie); } \
    bool GOMP_loop_ull_##k##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long *is, unsigned long long *ie) { ws_t *w = enter_any(); ws_init(w, up, s, e, i, 1); return ws_take(w, is, ie); } \
    bool GOMP_loop_ull_##k##_next(unsigned long long *is, unsigned long long *ie) { return ws_take(cur_any(), is, ie); } \
    void GOMP_parallel_loop_##k(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned fl) { ws_init(pre(), i > 0, s, e, i, 1); run_region(fn, d, n); }
LOOPC(static) LOOPC(dynamic) LOOPC(guided) LOOPC(nonmonotonic_dynamic) LOOPC(nonmonotonic_guided)
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end(void) { GOMP_barrier(); } void GOMP_loop_end_nowait(void) {}
unsigned GOMP_sections_next(void) { ws_t *w = cur_any(); sched_point(); return w->sect < (long)w->end ? (unsigned)++w->sect : 0; }
unsigned GOMP_sections_start(unsigned n) { ws_t *w = enter_any(); if (!w->used) { w->used = 1; w->end = n; w->sect = 0; } return GOMP_sections_next(); }
void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned n, unsigned count, unsigned fl) { ws_t *w = pre(); w->used = 1; w->end = count; run_region(fn, d, n); }
void GOMP_sections_end(void) { GOMP_barrier(); } void GOMP_sections_end_nowait(void) {}
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long sz, long align, bool iff, unsigned fl, void **dep, int prio, void *det)
{
    if (cpy) { char *b = malloc(sz + align); char *a = (char *)(((uintptr_t)b + align - 1) & ~(uintptr_t)(align - 1)); cpy(a, data); fn(a); } else fn(data);
}
void GOMP_taskwait(void) {} void GOMP_taskyield(void) { sched_point(); } void GOMP_taskgroup_start(void) {} void GOMP_taskgroup_end(void) {}
int omp_get_thread_num(void) { return cur < 0 || th[cur].nest ? 0 : cur; }
int omp_get_num_threads(void) { return cur < 0 || th[cur].nest ? 1 : nth; }
int omp_get_max_threads(void) { return req_threads; }
int omp_get_num_procs(void) { return 4; }
int omp_in_parallel(void) { return cur >= 0 && nth > 1; }
int omp_get_thread_limit(void) { return MAXT; }
int omp_get_level(void) { return cur >= 0; }
int omp_get_dynamic(void) { return 0; } int omp_get_nested(void) { return 0; }
void omp_set_dynamic(int x) {} void omp_set_nested(int x) {} void omp_set_schedule(int k, int c) {}
void omp_set_num_threads(int n) { if (n > 0) req_threads = n; }
double omp_get_wtime(void) { return 0; } double omp_get_wtick(void) { return 1e-9; }
void omp_init_lock(void *l) {} void omp_destroy_lock(void *l) {} void omp_set_lock(void *l) { lock_(l); } void omp_unset_lock(void *l) { unlock_(l); }
int omp_test_lock(void *l) { if (cur < 0) return 1; sched_point(); sobj *s = sync_of(l); if (s->owner >= 0) return 0; s->owner = cur; acq(s); return 1; }

/* ------------------------------------------------------------------ threads of the user, and the locks the library might use */
void sched_spawn(int n, void (*fn)(void *), void **data)
{
    nth = n; sched_regions++; tls_master = 0; nsp = 0; runno++;
    for (int i = 0; i < n; i++) {
        memset(th[i].vc, 0, sizeof th[i].vc); th[i].vc[i] = 1; th[i].st = T_RUN; th[i].seg = -1; th[i].ops = 0; th[i].fn = fn; th[i].data = data[i]; th[i].pts = 0; th[i].nest = 1; th[i].wsno = 0;
        getcontext(&th[i].uc); th[i].uc.uc_stack.ss_sp = stack_of(i); th[i].uc.uc_stack.ss_size = STK; th[i].uc.uc_link = NULL; makecontext(&th[i].uc, tmain, 0);
    }
    if (n > sched_max_threads_used) sched_max_threads_used = n;
    int first = choose(n); tls_switch(-1, first); cur = first; swapcontext(&main_uc, &th[first].uc);
    cur = -1; nth = 0;
}
int __real_pthread_mutex_lock(pthread_mutex_t *) __attribute__((weak)); int __real_pthread_mutex_unlock(pthread_mutex_t *) __attribute__((weak));
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { lock_(m); return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { unlock_(m); return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { if (cur < 0) return 0; sched_point(); sobj *s = sync_of(m); if (s->owner >= 0) return 16; s->owner = cur; acq(s); return 0; }
int __wrap_pthread_once(pthread_once_t *o, void (*f)(void))
{
    lock_(o); if (*(volatile int *)o == 0) { *(volatile int *)o = 2; f(); } unlock_(o); return 0;
}

/* ------------------------------------------------------------------ exploration */
uint64_t sched_explore(void (*body)(void *), void *arg, int grant, int pb, uint64_t max)
{
    setup();
    grant_n = grant; pbound = pb; nch = 0; uint64_t n = 0;
    static uint64_t ex; casehash = vp_mix(++ex);
    static struct { int n; int v[3][1 << 20]; } *fs; int quiet = norace; norace = sched_fresh;
    if (sched_fresh && !fs) fs = mmap(NULL, sizeof *fs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    do {
        pid_t kid = 0; int st = 0;
        if (sched_fresh) { fflush(NULL); kid = fork(); if (kid < 0) _exit(3); }
        if (kid) {                  /* the child ran the schedule and left its choices */
            if (waitpid(kid, &st, 0) != kid) _exit(3);
            if (!WIFEXITED(st) || WEXITSTATUS(st)) { if (WIFEXITED(st)) _exit(WEXITSTATUS(st)); signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); _exit(3); }
            if (cap < fs->n) { cap = fs->n; ch = realloc(ch, cap * sizeof *ch); al = realloc(al, cap * sizeof *al); lim = realloc(lim, cap * sizeof *lim); }
            nch = fs->n; for (int i = 0; i < nch; i++) { ch[i] = fs->v[0][i]; al[i] = fs->v[1][i]; lim[i] = fs->v[2][i]; } n++; continue;
        }
        pos = 0; npre = 0; sched_points = 0; sched_regions = 0; req_threads = 4; cur = -1; busy = 0;
        body(arg); n++;
        if (sched_fresh) { if (nch > 1 << 20) _exit(3); fs->n = nch; for (int i = 0; i < nch; i++) { fs->v[0][i] = ch[i]; fs->v[1][i] = al[i]; fs->v[2][i] = lim[i]; } _exit(0); }
    } while (n < max && backtrack());
    norace = quiet;
    if (n >= max && nch && max > 24) vp_note("schedule_bound_hit", 1);
    vp_note("schedules", n);
    return n;
}

/* Shared machinery of the explorers: case numbering, sharding, state table, reports. */
#ifndef VP_H
#define VP_H
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#ifdef __cplusplus
extern "C" {
#endif

extern int vp_thorough;           /* 0: quick bounds, 1: thorough bounds */
extern int vp_opt;                /* 1: optimised build (no address sanitizer): deeper bounds */
extern int vp_replaying;          /* running one case alone */
#define VP_T(q, t) (vp_thorough ? (t) : (q))

/* Starts the next case (one execution / trace).  Returns 1 when this process has to run it. */
int vp_case(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
/* One transition of the current trace, arriving in the (model) state with this hash. */
void vp_step(uint64_t state);
/* the model state reached, as bytes */
void vp_step_bytes(const void *p, size_t n);
uint64_t vp_hash(uint64_t h, const void *p, size_t n);
void vp_fail(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
void vp_known(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void vp_outcome(uint64_t o);      /* distinct observed outcome */
void vp_note(const char *name, uint64_t value); /* extra measured number, summed over processes */
void vp_main(void);
#define VP_CHECK(c, ...) do { if (!(c)) vp_fail(__VA_ARGS__); } while (0)

const char *vp_hex(const void *p, size_t n); /* rotating static buffers */

/* deterministic data */
uint64_t vp_mix(uint64_t x);
void vp_bytes(void *p, size_t n, uint64_t seed);

/* guarded exact-size buffers: n usable bytes, canaries before and after (ASan redzones as well) */
typedef struct { uint8_t *base, *p; size_t n; } vp_buf;
vp_buf vp_balloc(size_t n, int fill);
int vp_bintact(const vp_buf *b);          /* canaries untouched */
int vp_buntouched(const vp_buf *b, size_t from, int fill); /* bytes [from,n) still fill */
void vp_bfree(vp_buf *b);

/* random seam: rand()/srand()/time() of the library resolve to these */
void vp_seed(uint64_t s);
void vp_script(const int *v, int n, int fallback_seed); /* rand() returns v[0..n), then seeded stream */
extern uint64_t vp_rand_calls;
extern int (*vp_rand_hook)(void);         /* overrides rand() when set */
extern long vp_time_value;

#ifdef __cplusplus
}
#endif
#endif

/* A cheap keyed 16-byte function for the library's block128_f seam; E(0^16) can be chosen (the GHASH key). */
#ifndef TOY_H
#define TOY_H
#include "vp.h"
#include "ref.h"
typedef struct { uint64_t k; uint8_t H[16]; ref_cipher r; } toy_t;
static void toy_fn(const uint8_t *in, uint8_t *out, void *arg)
{
    toy_t *t = arg; uint64_t a, b; memcpy(&a, in, 8); memcpy(&b, in + 8, 8);
    if (!(a | b)) { memcpy(out, t->H, 16); return; }
    uint64_t x = vp_mix(a ^ t->k), y = vp_mix(b ^ x), z = vp_mix(x + 3 * y + a);
    memcpy(out, &y, 8); memcpy(out + 8, &z, 8);
}
static int toy_block(const uint8_t in[16], uint8_t out[16], const void *key) { uint8_t o[16]; toy_fn(in, o, (void *)key); memcpy(out, o, 16); return 1; }
static void toy_init(toy_t *t, uint64_t seed) { t->k = vp_mix(seed + 77); vp_bytes(t->H, 16, seed + 1000); ref_init_fn(&t->r, toy_fn, t); }
#endif

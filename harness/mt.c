/* mt.c - C20: the random numbers are the Mersenne Twister's (MT19937) */
#include <zt.h>
#include "zt_random.h"
#include "vp.h"
#include <time.h>
#define N 624
#ifndef VP_ZTV
# define vp_bytes vp_buf
#endif
/* ---- the specification, as a sequence x[0], x[1], ... (Matsumoto and Nishimura 1998, initialisation of 2002) */
static void seeded(uint32_t x[N], uint32_t s) {
    uint32_t i;
    x[0] = s;
    for (i = 1; i < N; i++) x[i] = (uint32_t)(1812433253ul * (x[i - 1] ^ (x[i - 1] >> 30)) + i);
}
static void seeded_by_array(uint32_t x[N], const uint32_t *key, uint64_t len) {
    uint64_t i = 1, j = 0, k;
    seeded(x, 19650218u);
    for (k = len > N ? len : N; k; k--) {
        x[i] = (uint32_t)((x[i] ^ ((x[i - 1] ^ (x[i - 1] >> 30)) * 1664525ul)) + key[j] + (uint32_t)j);
        i++; j++;
        if (i == N) { x[0] = x[N - 1]; i = 1; }
        if (j == len) j = 0;
    }
    for (k = N - 1; k; k--) {
        x[i] = (uint32_t)((x[i] ^ ((x[i - 1] ^ (x[i - 1] >> 30)) * 1566083941ul)) - (uint32_t)i);
        i++;
        if (i == N) { x[0] = x[N - 1]; i = 1; }
    }
    x[0] = 0x80000000u;
}
static uint32_t next(const uint32_t *x) {   /* x[N] from x[0], x[1] and x[397] */
    uint32_t y = (x[0] & 0x80000000u) | (x[1] & 0x7fffffffu);
    static uint32_t a[2] = { 0, 0x9908b0dfu };
    return x[397] ^ (y >> 1) ^ a[y & 1];
}
static uint32_t tempered(uint32_t y) {
    y ^= y >> 11;
    y ^= (y << 7) & 0x9d2c5680u;
    y ^= (y << 15) & 0xefc60000u;
    return y ^ (y >> 18);
}
static zt_random_state S;
static uint32_t Y[2 * N + 3];
VP_ENTRY(h_seed) {
    uint32_t s = vp_u32(); uint64_t i;
    S.mti = vp_u32(); S.initialized = vp_u32();
    zt_random_srandom(&S, s);
    seeded(Y, s);
    for (i = 0; i < N; i++) VP_CHECK(S.mt[i] == Y[i], "the state is the sequence the seed starts");
    VP_CHECK(S.mti >= N, "the first number asked for is a new one");
    VP_CHECK(S.initialized == 0xD15EA5E, "the state is seeded");
    VP_REACH();
}
#ifndef KLEN
# define KLEN 4
#endif
VP_ENTRY(h_array) {
    uint64_t len = vp_fix(1, 1300, KLEN), i; uint32_t *key = malloc(len * sizeof *key), *was = malloc(len * sizeof *key);
    for (i = 0; i < len; i++) was[i] = key[i] = vp_u32();
    zt_random_initstate(&S, key, len);
    seeded_by_array(Y, was, len);
    for (i = 0; i < N; i++) VP_CHECK(S.mt[i] == Y[i], "the state is the sequence the keys start");
    for (i = 0; i < len; i++) VP_CHECK(key[i] == was[i], "the keys are not changed");
    VP_CHECK(S.mti >= N && S.initialized == 0xD15EA5E, "the state is seeded");
    free(key); free(was);
    VP_REACH();
}
/* the next N numbers are generated, from any state */
VP_ENTRY(h_generate) {
    uint64_t i; uint32_t r;
    for (i = 0; i < N; i++) Y[i] = S.mt[i] = vp_u32();
    S.mti = N; S.initialized = 0xD15EA5E;
    r = zt_random_uint32(&S);
    for (i = 0; i < N; i++) Y[N + i] = next(Y + i);
    for (i = 0; i < N; i++) VP_CHECK(S.mt[i] == Y[N + i], "the state is the next 624 values of the sequence");
    VP_CHECK(S.mti == 1 && S.initialized == 0xD15EA5E, "one of them is used");
    VP_CHECK(r == tempered(Y[N]), "the number is the next of the sequence, tempered");
    VP_REACH();
}
/* one of the numbers generated, at any position */
VP_ENTRY(h_next) {
    uint64_t x = vp_range(0, N - 1); uint32_t p = (uint32_t)vp_range(0, N - 1), r, y, z;
    zt_random_state *st = (zt_random_state *)vp_bytes(sizeof *st);
    st->mti = p; st->initialized = 0xD15EA5E; y = st->mt[p]; z = st->mt[x];
    r = zt_random_uint32(st);
    VP_CHECK(r == tempered(y), "the number is the next of the sequence, tempered");
    VP_CHECK(st->mti == p + 1 && st->initialized == 0xD15EA5E && st->mt[x] == z, "it is used, and the sequence is kept");
    VP_REACH();
}
/* a whole run: seed, then as many numbers as the seed says */
VP_ENTRY(h_run) {
    uint32_t s = VP_PICK(5489, vp_u32()); uint64_t k, n = VP_PICK(vp_fix(0, 630, 630), vp_range(0, 2000)), m; static uint32_t x[N + 1];
    zt_random_srandom(&S, s); seeded(x, s);
    for (k = 0; k < n; k++) {
        x[N] = next(x);
        VP_CHECK(zt_random_uint32(&S) == tempered(x[N]), "the numbers are the Mersenne Twister's");
        for (m = 0; m < N; m++) x[m] = x[m + 1];
    }
    VP_REACH();
}
/* a state never seeded seeds itself from the clock */
static time_t NOW;
time_t time(time_t *t) { if (t) *t = NOW; return NOW; }
void zt_log_lprintf(zt_log_ty *l, zt_log_level level, const char *f, ...) { (void)l; (void)level; (void)f; }
static uint32_t SEEDS, SEEDED;
#if defined(VP_ZTV) && defined(UNSEEDED)      /* srandom by its contract: unit seed */
void vp_contract_zt_random_srandom(zt_random_state *st, uint32_t s) {
    uint64_t i;
    VP_CHECK(st == &S, "the state used is seeded");
    SEEDS++; SEEDED = s;
    for (i = 0; i < N; i++) st->mt[i] = Y[i] = vp_u32();
    st->mti = N; st->initialized = 0xD15EA5E;
}
#endif
VP_ENTRY(h_unseeded) {
    uint64_t i; uint32_t r;
    S.initialized = vp_u32(); S.mti = vp_u32(); NOW = (time_t)vp_u64();
    VP_ASSUME(S.initialized != 0xD15EA5E);
    for (i = 0; i < N; i++) S.mt[i] = vp_u32();
    r = zt_random_uint32(&S);
#ifdef VP_ZTV
    VP_CHECK(SEEDS == 1 && SEEDED == (uint32_t)NOW, "the state is seeded once, from the clock");
#else
    seeded(Y, (uint32_t)NOW);
#endif
    VP_CHECK(r == tempered(next(Y)), "the number is the first of the sequence the clock's seed starts");
    VP_CHECK(S.initialized == 0xD15EA5E && S.mti == 1, "the state is seeded, one number used");
    VP_REACH();
}

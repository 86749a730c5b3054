/* hash.c - C16: FNV-1 hashing of buffers and strings, folding of hash values */
#include <zt.h>
#include <libzt/zt_hash.h>
#include "vp.h"
#ifndef KV
# define KV 0
#endif
#define P32 16777619u
#define P64 1099511628211ull
/* the specification: h' = (h xor octet) * prime, from the standard offset when the start is 0 */
static uint64_t spec_step(uint64_t h, uint8_t c, int wide) { return wide ? (h ^ c) * P64 : (uint32_t)(((uint32_t)h ^ c) * P32); }
static uint64_t spec_start(uint64_t h, int wide) { return wide ? (h ? h : 14695981039346656037ull) : ((uint32_t)h ? (uint32_t)h : 2166136261u); }
static uint8_t *S; static uint64_t N, START; static int kind;
static uint64_t hash(uint8_t *p, uint64_t n, uint64_t h) {
    switch (kind) {
    case 0: return zt_hash32_buff(p, n, (uint32_t)h);
    case 1: return zt_hash32_cstr(p, (uint32_t)h);
    case 2: return zt_hash64_buff(p, n, h);
    default: return zt_hash64_cstr(p, h);
    }
}
#if defined(VP_ZTV) && defined(CUTS)
static int def(uint64_t k) {
    int wide = kind >= 2;
    uint64_t m = wide ? UINT64_MAX : UINT32_MAX;
    return (vp_ghost(0, 0) & m) == spec_start(START, wide) && (k >= N || ((vp_ghost(0, k + 1) & m) == spec_step(vp_ghost(0, k), S[k], wide) && (!(kind & 1) || S[k] != 0)));
}
int vp_def__zt_hash32_buff__0(uint64_t k) { return def(k); }
int vp_def__zt_hash32_cstr__0(uint64_t k) { return def(k); }
int vp_def__zt_hash64_buff__0(uint64_t k) { return def(k); }
int vp_def__zt_hash64_cstr__0(uint64_t k) { return def(k); }
int vp_inv__zt_hash32_buff__0(uint64_t k) { return k <= N; }
int vp_inv__zt_hash32_cstr__0(uint64_t k) { return k <= N; }
int vp_inv__zt_hash64_buff__0(uint64_t k) { return k <= N; }
int vp_inv__zt_hash64_cstr__0(uint64_t k) { return k <= N; }
uint32_t vp_gh__zt_hash32_buff__0__0(uint64_t k) { return vp_ghost(0, k); }
uint32_t vp_gh__zt_hash32_cstr__0__0(uint64_t k) { return vp_ghost(0, k); }
uint64_t vp_gh__zt_hash64_buff__0__0(uint64_t k) { return vp_ghost(0, k); }
uint64_t vp_gh__zt_hash64_cstr__0__0(uint64_t k) { return vp_ghost(0, k); }
#endif
/* any length: the value is the end of the sequence the definition gives */
VP_ENTRY(h_any) {
    kind = (int)vp_fix(0, 3, KV);
    N = vp_range(0, VP_PICK((uint64_t)1 << 40, 600)); START = vp_u64();
#ifdef VP_ZTV
    S = vp_bytes(N + 1); S[N] = 0;
    VP_CHECK(hash(S, N, START) == (kind >= 2 ? vp_ghost(0, N) : (uint32_t)vp_ghost(0, N)), "FNV-1a of the octets, from the start given or the standard one for 0");
#else
    { uint64_t i, h = spec_start(START, kind >= 2);
      S = malloc(N + 1); S[N] = 0;
      for (i = 0; i < N; i++) { S[i] = (i < 40 ? vp_u8() : (uint8_t)(i * 131)) | (kind & 1); h = spec_step(h, S[i], kind >= 2); }
      VP_CHECK(hash(S, N, START) == h, "FNV-1a of the octets, from the start given or the standard one for 0"); free(S); }
#endif
    VP_REACH();
}
/* short inputs without loop annotations; continuing a hash */
#ifndef KL
# define KL 4
#endif
VP_ENTRY(h_short) {
    uint64_t i, m, h;
    kind = (int)vp_fix(0, 3, KV);
    N = vp_range(0, KL); START = vp_u64();
    S = malloc(N + 1); S[N] = 0;
    for (i = 0; i < N; i++) S[i] = vp_u8();
    if (kind & 1) for (i = 0; i < N; i++) VP_ASSUME(S[i] != 0);
    for (h = spec_start(START, kind >= 2), i = 0; i < N; i++) h = spec_step(h, S[i], kind >= 2);
    VP_CHECK(hash(S, N, START) == h, "FNV-1a of the octets, from the start given or the standard one for 0");
    if (!(kind & 1)) {
        m = vp_range(0, KL); VP_ASSUME(m <= N);
        h = hash(S, m, START);
        VP_ASSUME(h != 0);
        VP_CHECK(hash(S + m, N - m, h) == hash(S, N, START), "continuing a hash gives the hash of the whole");
    }
    free(S);
    VP_REACH();
}
/* folding: to x bits by xor of the parts above and below (for less than 16 bits the lower part of that) */
VP_ENTRY(h_fold) {
    uint32_t h = vp_u32(), a, i, x = (uint32_t)vp_fix(1, 31, KV);
    a = h; ZT_HASH24_MASK(a); VP_CHECK(a == ((h >> 24) ^ (h & 0xffffff)), "24 bits");
    a = h; ZT_HASH16_MASK(a); VP_CHECK(a == ((h >> 16) ^ (h & 0xffff)), "16 bits");
    a = h; ZT_HASH8_MASK(a); VP_CHECK(a == (((h >> 8) ^ h) & 0xff), "8 bits");
    a = h; ZT_HASH4_MASK(a); VP_CHECK(a == (((h >> 4) ^ h) & 0xf), "4 bits");
    a = h; ZT_HASH_SUB32_MASK(a, x);
    VP_CHECK(a == (x < 16 ? ((h >> x) ^ h) & ((1u << x) - 1) : (h >> x) ^ (h & ((1u << x) - 1))), "x bits");
    VP_CHECK(a >> x == 0, "the folded hash fits");
    a = h; i = 32; ZT_HASH_SUB32_MASK(a, i); VP_CHECK(a == h, "32 bits are kept");
    VP_REACH();
}

/* sha1.c - C17: SHA-1 (FIPS 180-4), whatever the chunks the message arrives in */
#include <zt.h>
#include "zt_sha1.h"
#include "vp.h"
/* ---- the specification of one block, written from the standard */
static uint32_t rotl(uint32_t x, int n) { return x << n | x >> (32 - n); }
static void block_by_the_standard(uint32_t H[5], const uint8_t *m) {
    uint32_t W[80], a = H[0], b = H[1], c = H[2], d = H[3], e = H[4], t;
    int i;
    for (i = 0; i < 16; i++) W[i] = (uint32_t)m[4 * i] << 24 | (uint32_t)m[4 * i + 1] << 16 | (uint32_t)m[4 * i + 2] << 8 | m[4 * i + 3];
    for (; i < 80; i++) W[i] = rotl(W[i - 3] ^ W[i - 8] ^ W[i - 14] ^ W[i - 16], 1);
    for (i = 0; i < 80; i++) {
        uint32_t f = i < 20 ? ((b & c) ^ (~b & d)) : i < 40 ? (b ^ c ^ d) : i < 60 ? ((b & c) ^ (b & d) ^ (c & d)) : (b ^ c ^ d);
        uint32_t k = i < 20 ? 0x5a827999u : i < 40 ? 0x6ed9eba1u : i < 60 ? 0x8f1bbcdcu : 0xca62c1d6u;
        t = rotl(a, 5) + f + e + k + W[i];
        e = d; d = c; c = rotl(b, 30); b = a; a = t;
    }
    H[0] += a; H[1] += b; H[2] += c; H[3] += d; H[4] += e;
}
/* a full block straight from the data, from any chaining state; NB blocks at once */
#ifndef NB
# define NB 1
#endif
VP_ENTRY(h_block) {
    static uint8_t d[64 * NB], o[64 * NB]; uint32_t H[5], i, j; zt_sha1_ctx ctx;
    memset(&ctx, 0, sizeof ctx);
    for (i = 0; i < 5; i++) H[i] = ctx.state[i] = vp_u32();
    for (i = 0; i < 64 * NB; i++) o[i] = d[i] = vp_u8();
    zt_sha1_update(&ctx, d, 64 * NB);
    for (j = 0; j < NB; j++) block_by_the_standard(H, o + 64 * j);
    for (i = 0; i < 5; i++) VP_CHECK(ctx.state[i] == H[i], "the chaining state after the block is SHA-1's");
    for (i = 0; i < 64 * NB; i++) VP_CHECK(d[i] == o[i], "the data is not changed");
    VP_REACH();
}
/* ---- the whole digest by the standard */
static void digest_by_the_standard(const uint8_t *m, uint64_t n, uint8_t d[20]) {
    uint32_t H[5] = { 0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0 }; uint8_t b[128]; uint64_t i, k, r;
    for (i = 0; i + 64 <= n; i += 64) block_by_the_standard(H, m + i);
    r = n - i;
    for (k = 0; k < r; k++) b[k] = m[i + k];
    b[k++] = 0x80;
    while (k % 64 != 56) b[k++] = 0;
    for (i = 0; i < 8; i++) b[k++] = (uint8_t)(8 * n >> (56 - 8 * i));
    for (i = 0; i < k; i += 64) block_by_the_standard(H, b + i);
    for (i = 0; i < 20; i++) d[i] = (uint8_t)(H[i / 4] >> (24 - 8 * (i % 4)));
}
/* messages of one length, in two chunks and at once */
#ifndef KN
# define KN 3
#endif
VP_ENTRY(h_data) {
    uint64_t n = vp_fix(0, 300, KN), i, c; uint8_t *m = malloc(n + 1), *o = malloc(n + 1), d[20], e[20], f[20]; zt_sha1_ctx ctx;
    for (i = 0; i < n; i++) o[i] = m[i] = vp_u8();
    digest_by_the_standard(o, n, e);
    zt_sha1_data(m, n, d);
    for (i = 0; i < 20; i++) VP_CHECK(d[i] == e[i], "the digest is SHA-1's");
    c = n / 2 + n % 5; if (c > n) c = n;
    zt_sha1_init(&ctx); zt_sha1_update(&ctx, m, c); zt_sha1_update(&ctx, m + c, 0); zt_sha1_update(&ctx, m + c, n - c); zt_sha1_finalize(&ctx, f);
    for (i = 0; i < 20; i++) VP_CHECK(f[i] == e[i], "the digest of the chunks is the digest of the whole");
    for (i = 0; i < n; i++) VP_CHECK(m[i] == o[i], "the data is not changed");
    free(m); free(o);
    VP_REACH();
}
#ifndef KCH
# define KCH 2
#endif
/* chunks as they come (search on the compiled code) */
VP_ENTRY(h_chunks) {
    uint64_t n = VP_PICK(vp_fix(0, KCH, KCH), vp_range(0, 1000)), i, at = 0, k; uint8_t *m = malloc(n + 1), *o = malloc(n + 1), d[20], e[20]; zt_sha1_ctx ctx;
    for (i = 0; i < n; i++) o[i] = m[i] = (uint8_t)(i * 37 + n);
    digest_by_the_standard(o, n, e);
    zt_sha1_init(&ctx);
    while (at < n) { k = VP_PICK(1, vp_range(0, 255)); if (k > n - at) k = n - at; if (k == 255) k = n - at; zt_sha1_update(&ctx, m + at, k); at += k; if (k == 0) { zt_sha1_update(&ctx, m + at, n - at); at = n; } }
    zt_sha1_finalize(&ctx, d);
    for (i = 0; i < 20; i++) VP_CHECK(d[i] == e[i], "the digest of the chunks is the digest of the whole");
    for (i = 0; i < n; i++) VP_CHECK(m[i] == o[i], "the data is not changed");
    for (i = 0; i < sizeof ctx; i++) VP_CHECK(((uint8_t *)&ctx)[i] == 0, "nothing of the message is left in the context");
    free(m); free(o);
    VP_REACH();
}
#ifndef KV
# define KV 0
#endif
/* ---- blocks are formed right wherever the message is cut: from any position, any length (the transformation by its contract: unit block) */
static uint8_t *M; static uint64_t P, L, T; static zt_sha1_ctx C;
static uint64_t X;          /* any octet of the message */
#if defined(VP_ZTV) && defined(UPD)
void vp_contract__sha1_transform(uint32_t state[5], uint8_t buffer[64]) {
    VP_CHECK(state == C.state, "the chaining state is transformed");
    VP_CHECK((T + 1) * 64 <= P + L, "only whole blocks of the message are transformed");
    VP_CHECK((T != X / 64) | (buffer[X % 64] == M[X]), "the next 64 octets of the message are transformed");
    T++;
}
int vp_inv__zt_sha1_update__0(uint64_t k) { return T == P / 64 + 1 + k && 64 - P % 64 + 64 * k <= L; }
#endif
#ifdef VP_ZTV
VP_ENTRY(h_update) {
    uint64_t k, c;
    P = vp_range(0, (uint64_t)1 << 34) * 64 + 8 * vp_fix(0, 7, KV) + vp_range(0, 7); L = vp_range(0, (uint64_t)1 << 40); X = vp_range(0, (uint64_t)1 << 42);
    VP_ASSUME(X < P + L);
    M = vp_bytes(P + L);
    T = P / 64;
    C.count[0] = (uint32_t)(P << 3); C.count[1] = (uint32_t)(P >> 29);
    for (k = 0; k < 64; k++) C.buffer[k] = vp_u8();
    VP_ASSUME((X < P / 64 * 64) | (X >= P) | (C.buffer[X % 64] == M[X]));   /* the octets left over from before are in the buffer */
    zt_sha1_update(&C, M + P, L);
    VP_CHECK(T == (P + L) / 64, "every whole block is transformed");
    c = (uint64_t)C.count[1] << 32 | C.count[0];
    VP_CHECK(c == 8 * (P + L), "the length so far");
    VP_CHECK((X < (P + L) / 64 * 64) | (C.buffer[X % 64] == M[X]), "the octets left over are kept");
    VP_REACH();
}
#else
VP_ENTRY(h_update) { h_chunks(); }
#endif
/* ---- padding: from any position; KV octets left over, any number of blocks before */
#ifndef KV
# define KV 0
#endif
static uint8_t E[128]; static uint64_t EN; static uint32_t S[5];
#if defined(VP_ZTV) && defined(FIN)
void vp_contract__sha1_transform(uint32_t state[5], uint8_t buffer[64]) {
    int j;
    VP_CHECK(state == C.state, "the chaining state is transformed");
    VP_CHECK(T + 64 <= EN, "no more blocks than the padding needs");
    for (j = 0; j < 64; j++) VP_CHECK(buffer[j] == E[T + j], "the message is padded with a one bit, zeros and its length in bits");
    T += 64;
    for (j = 0; j < 5; j++) S[j] = state[j] = vp_u32();
}
#endif
#ifdef VP_ZTV
VP_ENTRY(h_final) {
    uint64_t k, q = vp_range(0, ((uint64_t)1 << 55) - 1), r = vp_fix(0, 63, KV), bits = (q * 64 + r) * 8; uint8_t d[20];
    T = 0;
    for (k = 0; k < 64; k++) C.buffer[k] = vp_u8();
    for (k = 0; k < 5; k++) S[k] = C.state[k] = vp_u32();
    C.count[0] = (uint32_t)bits; C.count[1] = (uint32_t)(bits >> 32);
    for (k = 0; k < r; k++) E[k] = C.buffer[k];
    E[k++] = 0x80;
    while (k % 64 != 56) E[k++] = 0;
    for (r = 0; r < 8; r++) E[k++] = (uint8_t)(bits >> (56 - 8 * r));
    EN = k;
    zt_sha1_finalize(&C, d);
    VP_CHECK(T == EN, "the padded message is transformed to its end");
    for (k = 0; k < 20; k++) VP_CHECK(d[k] == (uint8_t)(S[k / 4] >> (24 - 8 * (k % 4))), "the digest is the state, most significant octet first");
    for (k = 0; k < sizeof C; k++) VP_CHECK(((uint8_t *)&C)[k] == 0, "nothing of the message is left in the context");
    VP_REACH();
}
#else
VP_ENTRY(h_final) { h_chunks(); }
#endif
VP_ENTRY(h_init) {
    zt_sha1_ctx c; memset(&c, 0x5a, sizeof c);
    zt_sha1_init(&c);
    VP_CHECK(c.state[0] == 0x67452301 && c.state[1] == 0xefcdab89 && c.state[2] == 0x98badcfe && c.state[3] == 0x10325476 && c.state[4] == 0xc3d2e1f0, "the initial state is SHA-1's");
    VP_CHECK(c.count[0] == 0 && c.count[1] == 0, "nothing hashed yet");
    VP_REACH();
}
/* text form */
#ifndef KX
# define KX 0
#endif
VP_ENTRY(h_text) {
    static const char hex[] = "0123456789abcdef"; uint8_t d[20]; char *t = malloc(41); int i;
    for (i = 0; i < 20; i++) d[i] = vp_u8();
    memset(t, '?', 41);
    VP_CHECK(zt_sha1_tostr(d, t) == t, "tostr returns the text");
    for (i = 0; i < 20; i++) VP_CHECK(t[2 * i] == hex[d[i] >> 4] && t[2 * i + 1] == hex[d[i] & 15], "two lower case hex digits per octet");
    VP_CHECK(t[40] == 0, "the text is terminated");
    free(t);
    VP_REACH();
}
VP_ENTRY(h_back) {
    uint8_t d[20], e[20]; char *t = malloc(41); int i, x = (int)vp_fix(0, 19, KX);
    for (i = 0; i < 20; i++) d[i] = (uint8_t)(i * 89 + 7);
    d[x] = vp_u8();
    zt_sha1_tostr(d, t);
    VP_CHECK(zt_str_tosha1(t, e) == e, "tosha1 returns the digest");
    for (i = 0; i < 20; i++) VP_CHECK(e[i] == d[i], "the digest comes back from its text");
    free(t);
    VP_REACH();
}

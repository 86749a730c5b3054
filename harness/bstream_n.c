/* bstream_n.c - C04: writing and reading any number of bytes (loops by induction) */
#include <zt.h>
#include "vp.h"
#ifndef KF
# define KF 0
#endif
static zt_bstream_t B; static uint8_t *SRC, *OLD; static size_t O, N, L, Q, R;
#ifdef VP_ZTV
# define DATA ((uint8_t *)B->data->data)
int vp_pure_put(uint64_t k) {
    return (Q >= L || Q >= k || DATA[O + Q] == SRC[KF ? L - 1 - Q : Q]) && (R >= N || (R >= O && R < O + L) || DATA[R] == OLD[R]);
}
int vp_inv___array_put__0(uint64_t k) { return vp_pure_put(k); }
int vp_inv___array_put__1(uint64_t k) { return vp_pure_put(k); }
int vp_pure_get(uint64_t k) { return Q >= L || (KF ? Q < L - k : Q >= k) || SRC[Q] == OLD[KF ? O + L - 1 - Q : O + Q]; }
int vp_inv___array_get__0(uint64_t k) { return vp_pure_get(k); }
int vp_inv___array_get__1(uint64_t k) { return vp_pure_get(k); }
#endif
static void start(void) {
    size_t cap = vp_size(60);
    B = zt_bstream_new(); N = vp_range(0, cap);
    if (cap) { B->data->data = vp_buf(cap); B->data->length = N; }
    O = B->offt = vp_range(0, N);
    B->flipendian = vp_fix(0, 1, KF);
    OLD = malloc(N + 1); VP_ASSUME(OLD != NULL);
    if (N) memcpy(OLD, B->data->data, N);
    L = vp_size(40);
}
VP_ENTRY(h_write_n) {
    int f; uint8_t *d;
    start(); f = B->flipendian; SRC = vp_buf(L);
    Q = vp_u64(); R = vp_u64();
    VP_ASSUME(L > 0);
    zt_bstream_write(B, (char *)SRC, L, 1, 0);
    d = (uint8_t *)zt_array_data(B->data);
    VP_CHECK(B->offt == O + L, "the position moves past what was written");
    VP_CHECK(B->data->length >= N && B->data->length >= O + L && B->data->size == 1, "the stream grows as needed");
#ifdef VP_ZTV
    if (Q < L) VP_CHECK(d[O + Q] == SRC[f ? L - 1 - Q : Q], "the bytes in the stream's byte order");
    if (R < N && (R < O || R >= O + L)) VP_CHECK(d[R] == OLD[R], "every other byte is as before");
#else
    for (Q = 0; Q < L; Q++) VP_CHECK(d[O + Q] == SRC[f ? L - 1 - Q : Q], "the bytes in the stream's byte order");
    for (R = 0; R < N; R++) if (R < O || R >= O + L) VP_CHECK(d[R] == OLD[R], "every other byte is as before");
#endif
    VP_REACH();
    zt_bstream_free(&B); free(OLD); free(SRC);
}
VP_ENTRY(h_read_n) {
    int f; uint8_t *d;
    start(); f = B->flipendian; SRC = malloc(L); VP_ASSUME(SRC != NULL || L == 0);
    Q = vp_u64(); R = vp_u64();
    VP_ASSUME(L > 0 && L <= N - O);
    zt_bstream_read(B, (char *)SRC, L, 1, 0);
    d = (uint8_t *)zt_array_data(B->data);
    VP_CHECK(B->offt == O + L && B->data->length == N && B->data->size == 1, "the position moves past what was read");
#ifdef VP_ZTV
    if (Q < L) VP_CHECK(SRC[Q] == OLD[f ? O + L - 1 - Q : O + Q], "the bytes in the stream's byte order");
    if (R < N) VP_CHECK(d[R] == OLD[R], "the contents stay");
#else
    for (Q = 0; Q < L; Q++) VP_CHECK(SRC[Q] == OLD[f ? O + L - 1 - Q : O + Q], "the bytes in the stream's byte order");
    for (R = 0; R < N; R++) VP_CHECK(d[R] == OLD[R], "the contents stay");
#endif
    VP_REACH();
    zt_bstream_free(&B); free(OLD); free(SRC);
}

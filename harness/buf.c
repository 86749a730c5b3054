/* buf.c - C06: zt_buf is a FIFO byte queue.  The real text of zt_buf.c is included so that the contract can speak about its state. */
#include "zt_buf.c"
#include "vp.h"
#ifndef STEPS
# define STEPS VP_PICK(4, 24)
#endif
/* -- the representation invariant: top is the allocation, buf points drained bytes into it, max bytes from buf to its end */
static zt_buf_t *any_state(size_t *n, uint8_t **copy, size_t hi) {
    zt_buf_t *b = zt_buf_new(); size_t cap = vp_size(hi), drained, len, k;
    *n = 0;
    if (cap == 0) return b;                       /* the initial state */
    drained = vp_range(0, cap); len = vp_range(0, cap - drained);
    b->top = vp_buf(cap);
    b->buf = (char *)b->top + drained;
    b->max = cap - drained;
    b->len = len;
    *n = len;
    *copy = malloc(len); VP_ASSUME(*copy != NULL || len == 0);
    if (len) memcpy(*copy, b->buf, len);
    (void)k;
    return b;
}
/* what every operation must re-establish */
static void valid(zt_buf_t *b, size_t n) {
    VP_CHECK(zt_buf_length(b) == n, "length is the number of bytes added and not yet drained");
    VP_CHECK(b->len <= b->max, "length within capacity");
    if (b->top == NULL) { VP_CHECK(b->buf == NULL && b->max == 0, "nothing allocated: no capacity"); }
    else {
        VP_CHECK((char *)b->buf >= (char *)b->top, "data starts inside the allocation");
#ifdef VP_ZTV
        VP_CHECK(((char *)b->buf - (char *)b->top) + b->max <= vp_objsize(b->top), "capacity ends inside the allocation");
#endif
    }
    VP_CHECK(zt_buf_unused_sz(b) == b->max - b->len, "unused space");
    VP_CHECK(n == 0 ? zt_buf_get(b) == NULL : zt_buf_get(b) == b->buf, "get is the first byte, NULL when empty");
}
VP_ENTRY(h_add) {
    size_t n, m = vp_size(3000), k; uint8_t *old = NULL, *d = vp_buf(m), *p; zt_buf_t *b = any_state(&n, &old, 3000);
    VP_ASSUME(m > 0);
    VP_CHECK(zt_buf_add(b, d, m) == 0, "add succeeds");
    valid(b, n + m);
    k = vp_u64(); VP_ASSUME(k < n + m);
    p = zt_buf_get(b);
    VP_CHECK(p[k] == (k < n ? old[k] : d[k - n]), "what was there, then what was added");
    VP_REACH();
    free(d); free(old); zt_buf_free(b);
}
VP_ENTRY(h_drain) {
    size_t n, m = vp_size(3000), k, e; uint8_t *old = NULL, *p; zt_buf_t *b = any_state(&n, &old, 3000);
    VP_ASSUME(m > 0);
    e = m < n ? n - m : 0;
    VP_CHECK(zt_buf_drain(b, m) == e, "drain returns what is left");
    valid(b, e);
    if (e) { k = vp_u64(); VP_ASSUME(k < e); p = zt_buf_get(b); VP_CHECK(p[k] == old[n - e + k], "the oldest bytes are gone, the rest unchanged"); }
    VP_CHECK(zt_buf_drain(b, 0) == 0 && zt_buf_length(b) == e, "draining nothing changes nothing");
    VP_REACH();
    free(old); zt_buf_free(b);
}
VP_ENTRY(h_remove) {
    size_t n, m = vp_size(3000), k, e; uint8_t *old = NULL, *p, *out = malloc(m); zt_buf_t *b = any_state(&n, &old, 3000);
    VP_ASSUME((out != NULL || m == 0) && n > 0);
    e = m < n ? m : n;
    VP_CHECK(zt_buf_remove(b, out, m) == e, "remove returns how much it took");
    valid(b, n - e);
    if (e) { k = vp_u64(); VP_ASSUME(k < e); VP_CHECK(out[k] == old[k], "the oldest bytes come out, in order"); }
    if (e < n) { k = vp_u64(); VP_ASSUME(k < n - e); p = zt_buf_get(b); VP_CHECK(p[k] == old[e + k], "the rest stays"); }
    VP_REACH();
    free(old); free(out); zt_buf_free(b);
}
VP_ENTRY(h_reserve) {
    size_t n, m = vp_size(3000), k; uint8_t *old = NULL, *p; zt_buf_t *b = any_state(&n, &old, 3000); int w = vp_range(0, 1);
    VP_CHECK((w ? zt_buf_reserve(b, m) : zt_buf_expand(b, m)) == 0, "reserve succeeds");
    valid(b, n);
    VP_CHECK(zt_buf_unused_sz(b) >= m, "the space asked for is there");
    if (n) { k = vp_u64(); VP_ASSUME(k < n); p = zt_buf_get(b); VP_CHECK(p[k] == old[k], "contents unchanged"); }
    VP_REACH();
    free(old); zt_buf_free(b);
}
VP_ENTRY(h_add_buf) {
    size_t n, m, k; uint8_t *old = NULL, *o2 = NULL, *p; zt_buf_t *b = any_state(&n, &old, 3000), *c = any_state(&m, &o2, 3000);
    VP_ASSUME(m > 0);
    VP_CHECK(zt_buf_add_buf(b, c) == 0, "add_buf succeeds");
    valid(b, n + m); valid(c, 0);
    k = vp_u64(); VP_ASSUME(k < n + m);
    p = zt_buf_get(b);
    VP_CHECK(p[k] == (k < n ? old[k] : o2[k - n]), "what was there, then the other buffer's bytes");
    VP_REACH();
    free(old); free(o2); zt_buf_free(b); zt_buf_free(c);
}
/* a vector of any number of pieces: iov_add adds piece after piece, in order, nothing else (add itself: h_add) */
static zt_iov_t *V; static uint64_t NV, CALLS; static zt_buf_t *VB;
#if defined(VP_ZTV) && defined(IOVC)
int vp_contract_zt_buf_add(zt_buf_t *b, void *data, size_t m) {
    VP_CHECK(b == VB, "adds to the buffer it was given");
    VP_CHECK(CALLS < NV, "no more pieces than the vector has");
    VP_CHECK(data == V[CALLS].iov_data && m == V[CALLS].iov_len, "adds the next piece, whole");
    CALLS++;
    b->len += m;
    return 0;
}
int vp_contract_zt_buf_expand(zt_buf_t *b, size_t m) { VP_CHECK(b == VB, "expands the buffer it was given"); b->max = vp_u64(); return 0; }
int vp_inv__zt_buf_iov_add__0(uint64_t k) { return CALLS == k; }
int vp_def__zt_buf_iov_len__0(uint64_t k) { return vp_ghost(0, 0) == 0 && (k >= NV || vp_ghost(0, k + 1) == vp_ghost(0, k) + V[k].iov_len); }
uint64_t vp_gh__zt_buf_iov_len__0__0(uint64_t k) { return vp_ghost(0, k); }
#endif
VP_ENTRY(h_iov) {
    uint64_t i, t = 0;
    (void)i; (void)t;
    NV = vp_range(0, VP_PICK(1 << 30, 12)); CALLS = 0;
#ifdef VP_ZTV
    V = vp_bytes(NV * sizeof(*V));
    VB = zt_buf_new(); VB->len = 0; VB->max = vp_u64();
    VP_CHECK(zt_buf_iov_len(V, NV) == vp_ghost(0, NV), "total size of a vector is the sum of its pieces");
    VP_CHECK(zt_buf_iov_add(VB, V, NV) == 0, "iov_add succeeds");
    VP_CHECK(CALLS == NV, "every piece is added");
#else
    V = malloc(NV * sizeof(*V) + 1); VB = zt_buf_new();
    for (i = 0; i < NV; i++) { V[i].iov_len = vp_range(1, 1500); V[i].iov_data = malloc(V[i].iov_len); memset(V[i].iov_data, vp_u8(), V[i].iov_len); t += V[i].iov_len; }
    VP_CHECK(zt_buf_iov_len(V, NV) == t, "total size of a vector is the sum of its pieces");
    VP_CHECK(zt_buf_iov_add(VB, V, NV) == 0, "iov_add succeeds");
    VP_CHECK(zt_buf_length(VB) == t, "every piece is added");
    for (i = t = 0; i < NV; t += V[i].iov_len, i++) VP_CHECK(memcmp((char *)zt_buf_get(VB) + t, V[i].iov_data, V[i].iov_len) == 0, "adds the next piece, whole");
    for (i = 0; i < NV; i++) free(V[i].iov_data);
    free(V); zt_buf_free(VB);
#endif
    VP_REACH();
}
/* a whole history through the public interface only */
VP_ENTRY(h_history) {
    static const size_t sz[] = { 0, 1, 7, 500, 1024, 1500 };
    size_t w = 0, r = 0, i, k, cap = VP_PICK(8000, 64000); uint8_t *s, *out = malloc(1500), *p; zt_buf_t *b = zt_buf_new(); uint8_t x = 1;
#ifdef VP_ZTV
    s = vp_bytes(cap);                           /* any contents at all */
#else
    s = malloc(cap);
    for (i = 0; i < cap; i++) { s[i] = x; x = x * 5 + 3; if (x == 1) x = 2; }
#endif
    VP_ASSUME(s != NULL && out != NULL && b != NULL);
    (void)x;
    for (i = 0; i < STEPS; i++) {
        size_t op = vp_case(0, 3), m = sz[vp_case(0, 5)], e;
        VP_ASSUME(w + m <= cap);
        switch (op) {
            case 0: zt_buf_add(b, s + w, m); w += m; break;
            case 1: e = zt_buf_drain(b, m); r = m > w - r ? w : r + m; if (m) VP_CHECK(e == w - r, "drain returns what is left"); break;
            case 2: if (w == r) break; e = zt_buf_remove(b, out, m); VP_CHECK(e == (m < w - r ? m : w - r), "remove returns how much it took");
                    VP_FORALL(k, e) VP_CHECK(out[k] == s[r + k], "bytes come out in the order they went in");
                    r += e; break;
            default: zt_buf_reserve(b, m); VP_CHECK(zt_buf_unused_sz(b) >= m, "reserved space is there"); break;
        }
        VP_CHECK(zt_buf_length(b) == w - r, "length = bytes added - bytes taken");
        p = zt_buf_get(b);
        VP_CHECK((p == NULL) == (w == r), "get is NULL exactly when empty");
        VP_FORALL(k, w - r) VP_CHECK(p[k] == s[r + k], "contents are the bytes added and not yet taken, in order");
    }
    VP_REACH();
    zt_buf_free(b); free(s); free(out);
}

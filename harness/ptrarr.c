/* ptrarr.c - C12: arrays of pointers */
#include <zt.h>
#include "vp.h"
#ifndef CN
# define CN 3
#endif
/* ---- any array: size, count and contents arbitrary (proofs) ---- */
static zt_ptr_array *A; static int32_t S, C; static uint64_t *OLD, J; static void **DST;
static void any(void) {
    int64_t s = vp_size(80); VP_ASSUME(s >= 1 && s <= INT32_MAX); S = s; C = vp_range(0, S); J = vp_u64();
    A = zt_ptr_array_init(NULL, NULL); VP_ASSUME(A != NULL);
    VP_CHECK(A->count == 0 && A->size > 0, "a new array is empty");
    free(A->array);
    A->array = (void **)vp_buf((size_t)S * 8); A->size = S; A->count = C;
    OLD = malloc((size_t)S * 8); VP_ASSUME(OLD != NULL); memcpy(OLD, A->array, (size_t)S * 8);
}
#if defined(VP_ZTV) && !defined(SMALL)
/* the real function under its real contract; the wrapper only names the destination for the loop invariant */
int vp_contract_zt_ptr_array_copy_data(zt_ptr_array *src, char **dst) { DST = (void **)dst; return zt_ptr_array_copy_data(src, dst); }
int vp_inv__zt_ptr_array_copy_data__0(uint64_t k) { return J >= (uint64_t)C || J >= k || (uint64_t)DST[J] == OLD[J]; }
#endif
static void valid(void) {
    VP_CHECK(A->count >= 0 && A->count <= A->size, "no more elements than there is room for");
#ifdef VP_ZTV
    VP_CHECK(vp_objsize(A->array) >= (uint64_t)A->size * 8, "there is room for as many elements as the size says");
#endif
}
/* one arbitrary index J (the verifier) / all of them (native) */
#ifdef VP_ZTV
# define EACH(n) if (J < (uint64_t)(n))
#else
# define EACH(n) for (J = 0; J < (uint64_t)(n); J++)
#endif
#ifdef VP_ZTV
# define FREE() ((void)0)
#else
# define FREE() (free(A->array), free(A), free(OLD))
#endif
VP_ENTRY(h_resize) {
    int32_t x; int r;
    any(); x = vp_u32();
#ifndef VP_ZTV
    VP_ASSUME(x < 1000);
#endif
    r = zt_ptr_array_resize(A, x);
    if (x < 0 || (int64_t)S + (x ? x : ZT_PTR_ARRAY_DEFAULT_SIZE) > INT32_MAX) VP_CHECK(r == -1 && A->size == S, "a size that is too large or negative is refused");
    else { VP_CHECK(r == 0 && A->size == S + (x ? x : ZT_PTR_ARRAY_DEFAULT_SIZE), "resize makes room for that many more"); }
    valid();
    VP_CHECK(A->count == C, "resize changes no element count");
    EACH(C) VP_CHECK((uint64_t)A->array[J] == OLD[J], "resize changes no element");
    VP_REACH(); FREE();
}
VP_ENTRY(h_copy) {
    char **d; int r;
    any();
    d = malloc((size_t)C * 8); VP_ASSUME(d != NULL || C == 0);
    r = zt_ptr_array_copy_data(A, d);
    if (d) VP_CHECK(r == 0, "copying succeeds");
    EACH(C) VP_CHECK((uint64_t)d[J] == OLD[J] && (uint64_t)A->array[J] == OLD[J], "the copy holds the elements in order, the array stays");
    VP_CHECK(zt_ptr_array_copy_data(NULL, d) == -1 && zt_ptr_array_copy_data(A, NULL) == -1, "copying from or to nothing fails");
    VP_REACH(); free(d); FREE();
}
VP_ENTRY(h_add) {
    uint64_t e; int r;
    any(); e = vp_u64();
    r = zt_ptr_array_add(A, (void *)e);
    valid();
    if (e == 0) VP_CHECK(r == 0 && A->count == C, "adding NULL does nothing");
    else if (r == 0) { VP_CHECK(A->count == C + 1 && (uint64_t)A->array[C] == e, "the element is added at the end");
        VP_CHECK((uint64_t)zt_ptr_array_get_idx(A, C) == e && (uint64_t)zt_ptr_array_get_idx(A, -1) == e, "and is the last one"); }
    else VP_CHECK(r == -1 && A->count == C && C == S && S > INT32_MAX - ZT_PTR_ARRAY_DEFAULT_SIZE, "adding fails only when no more room can be made");
    EACH(C) VP_CHECK((uint64_t)A->array[J] == OLD[J], "adding changes no other element");
    VP_REACH(); FREE();
}
VP_ENTRY(h_index) {
    int32_t i, s, d; int r; void *p;
    any(); i = vp_u32(); s = vp_u32(); d = vp_u32();
#ifndef VP_ZTV
    i %= 100; s %= 100; d %= 100;
#endif
    p = zt_ptr_array_get_idx(A, i);
    if (i >= 0 && i < C) VP_CHECK((uint64_t)p == OLD[i], "get gives the element at an index");
    else if (i == -1 && C > 0) VP_CHECK((uint64_t)p == OLD[C - 1], "get of -1 gives the last element");
    else VP_CHECK(p == NULL, "get outside the array gives NULL");
    r = zt_ptr_array_move_idx_to_idx(A, s, d);
    if (s >= 0 && s < C && d >= 0 && d < C) VP_CHECK(r == 0 && (uint64_t)A->array[d] == OLD[s], "move copies the element");
    else { VP_CHECK(r == -1, "move outside the array fails"); d = -1; }
    VP_CHECK(A->count == C && A->size == S && zt_ptr_array_length(A) == C, "no element is added or removed");
    EACH(C) if ((int64_t)J != d) VP_CHECK((uint64_t)A->array[J] == OLD[J], "every other element stays");
    VP_REACH(); FREE();
}
/* ---- removing, concatenating, freeing: small arrays, every pattern of equal elements ---- */
#define NE 3
static char E[NE]; static int freed[NE];
static void on_free(void *d) { int i; for (i = 0; i < NE; i++) if (d == &E[i]) { freed[i]++; return; } VP_CHECK(0, "the free callback gets an element"); }
static int M[64], mn;
static zt_ptr_array *build(int n, int cb, int room) {
    int i; zt_ptr_array *a = zt_ptr_array_init(NULL, cb ? on_free : NULL); VP_ASSUME(a != NULL);
    (void)room;
    for (i = 0; i < n; i++) { M[i] = vp_case(0, NE - 1); VP_CHECK(zt_ptr_array_add(a, &E[M[i]]) == 0, "adding succeeds"); }
    mn = n;
    return a;
}
/* the array holds the model's elements, each as often (removal may reorder) */
static void same(zt_ptr_array *a, int ordered) {
    int c[NE] = { 0 }, i, j;
    VP_CHECK(a->count == mn && a->size >= a->count, "the number of elements");
    for (i = 0; i < mn; i++) { void *p = zt_ptr_array_get_idx(a, i);
        if (ordered) VP_CHECK(p == &E[M[i]], "the elements in order");
        for (j = 0; j < NE; j++) { if (p == &E[j]) c[j]++; if (M[i] == j) c[j]--; } }
    for (j = 0; j < NE; j++) VP_CHECK(c[j] == 0, "each element as often as it was added");
    VP_CHECK(zt_ptr_array_get_idx(a, mn) == NULL, "nothing behind the last element");
}
VP_ENTRY(h_del) {
    int cb = vp_case(0, 1), e, i, j, n, r; zt_ptr_array *a = build(vp_fix(0, 5, CN), cb, 0); static char stranger;
    same(a, 1);
    e = vp_case(0, NE);
    freed[0] = freed[1] = freed[2] = 0;
    r = zt_ptr_array_del(a, e < NE ? &E[e] : &stranger);
    for (i = j = n = 0; i < mn; i++) if (M[i] == e) n++; else M[j++] = M[i];
    mn = j;
    VP_CHECK(r == (n ? 0 : -1), "removing says whether the element was there");
    same(a, n == 0);
    for (i = 0; i < NE; i++) VP_CHECK(freed[i] == (cb && i == e ? n : 0), "the free callback is called once for each removed element");
    VP_CHECK(zt_ptr_array_del(a, NULL) == -1 && zt_ptr_array_del(NULL, &stranger) == -1, "removing nothing fails");
    same(a, n == 0);
    VP_CHECK(zt_ptr_array_add(a, &stranger) == 0 && zt_ptr_array_get_idx(a, -1) == &stranger && a->count == mn + 1, "the array goes on working");
    zt_ptr_array_free(a, 0);
    VP_REACH();
}
VP_ENTRY(h_cat) {
    int n = vp_fix(0, 3, CN), m = vp_case(0, 3), i, k[8]; zt_ptr_array *b, *a;
    a = build(m, 0, 0); for (i = 0; i < m; i++) k[i] = M[i];
    b = build(n, 0, 0);
    if (vp_case(0, 1)) { VP_CHECK(zt_ptr_array_cat(a, b) == 0, "concatenating succeeds"); same(b, 1);
        for (i = n - 1; i >= 0; i--) M[m + i] = M[i];
        for (i = 0; i < m; i++) M[i] = k[i];
        mn = m + n; same(a, 1); }
    else { VP_CHECK(zt_ptr_array_cat(b, b) == 0, "concatenating with itself succeeds"); for (i = 0; i < n; i++) M[n + i] = M[i]; mn = 2 * n; same(b, 1); }
    VP_CHECK(zt_ptr_array_cat(a, NULL) == -1 && zt_ptr_array_cat(NULL, a) == -1, "concatenating nothing fails");
    zt_ptr_array_free(a, 0); zt_ptr_array_free(b, 0);
    VP_REACH();
}
VP_ENTRY(h_grow) {
    /* past the initial capacity, more than once */
    int i, n = vp_case(0, 2) * 32 + vp_case(0, 2); zt_ptr_array *a = zt_ptr_array_init(NULL, NULL); VP_ASSUME(a != NULL);
    for (i = 0; i < n; i++) { VP_CHECK(zt_ptr_array_add(a, (void *)(long)(1000 + i)) == 0 && a->count == i + 1 && a->count <= a->size, "adding"); }
    for (i = 0; i < n; i++) VP_CHECK(zt_ptr_array_get_idx(a, i) == (void *)(long)(1000 + i), "the elements in order");
    VP_CHECK(zt_ptr_array_get_idx(a, n) == NULL && zt_ptr_array_length(a) == n, "no more");
    zt_ptr_array_free(a, 0);
    VP_REACH();
}
VP_ENTRY(h_free) {
    int cb = vp_case(0, 1), mem = vp_case(0, 1), i, n = vp_case(0, 3); zt_ptr_array *a; int want[NE] = { 0 };
#ifdef VP_ZTV
    uint64_t live = vp_live();
#endif
    freed[0] = freed[1] = freed[2] = 0;
    if (cb) { a = build(n, 1, 0); for (i = 0; i < n; i++) want[M[i]] += mem; }
    else { a = zt_ptr_array_init(NULL, NULL); VP_ASSUME(a != NULL); if (mem) for (i = 0; i < n; i++) zt_ptr_array_add(a, malloc(3)); }
    VP_CHECK(zt_ptr_array_free(a, mem) == 0, "freeing succeeds");
    for (i = 0; i < NE; i++) VP_CHECK(freed[i] == want[i], "each element is freed once when asked for");
#ifdef VP_ZTV
    VP_CHECK(vp_live() == live, "freeing gives back everything");
#endif
    VP_CHECK(zt_ptr_array_free(NULL, 0) == -1, "freeing nothing fails");
    VP_REACH();
}

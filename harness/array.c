/* array.c - C05: arrays of fixed-size elements, any number of them */
#include <zt.h>
#include "vp.h"
#ifndef KZ
# define KZ 4
#endif
static zt_array_t any_array(size_t z, size_t *n, uint8_t **copy) {
    zt_array_t a; size_t len = vp_size(20), k;
    a = zt_array_new(len, z);
    VP_CHECK(zt_array_length(a) == len && zt_array_size(a) == z, "a new array has the length and element size asked for");
    VP_FORALL(k, len * z) VP_CHECK(zt_array_data(a)[k] == 0, "a new array is all zero");
    *n = len; *copy = NULL;
    if (len) { zt_free(a->data); a->data = vp_buf(len * z); *copy = malloc(len * z); VP_ASSUME(*copy != NULL); memcpy(*copy, a->data, len * z); }
    return a;
}
static void valid(zt_array_t a, size_t n, size_t z) {
    VP_CHECK(zt_array_length(a) == n && zt_array_size(a) == z, "length and element size");
    VP_CHECK(n == 0 || zt_array_data(a) != NULL, "there is data");
#ifdef VP_ZTV
    VP_CHECK(n == 0 || vp_objsize(zt_array_data(a)) >= n * z, "the data holds every element");
#endif
}
#define Z vp_fix(1, 40, KZ)
VP_ENTRY(h_put) {
    size_t z = Z, n, i, k; uint8_t *old, e[40], x[40], *g; zt_array_t a = any_array(z, &n, &old);
    i = vp_u64(); 
#ifndef VP_ZTV
    if (n) i %= n;
#endif
    VP_ASSUME(i < n);
    VP_BYTES(e, z); memset(x, 0x5a, 40);
    VP_CHECK(zt_array_put(a, i, e) == e, "put returns the element");
    valid(a, n, z);
    g = zt_array_get(a, i);
    VP_CHECK(g == (uint8_t *)zt_array_data(a) + i * z, "get points at the element");
    VP_CHECK(zt_array_elem_copy(a, i, x) == x, "elem_copy returns the copy");
    for (k = 0; k < z; k++) VP_CHECK(g[k] == e[k] && x[k] == e[k], "what was put is what is got");
    for (; k < 40; k++) VP_CHECK(x[k] == 0x5a, "elem_copy copies one element, nothing else");
    VP_FORALL(k, n * z) if (k < i * z || k >= i * z + z) VP_CHECK((uint8_t)zt_array_data(a)[k] == old[k], "put changes no other element");
    VP_REACH();
    zt_array_free(&a); free(old);
}
VP_ENTRY(h_resize) {
    size_t z = Z, n, m, k; uint8_t *old; zt_array_t a = any_array(z, &n, &old);
    m = vp_size(30);
    VP_ASSUME(m > 0);
    if (vp_range(0, 1)) { VP_CHECK(zt_array_set_length(a, 0) == n && zt_array_length(a) == 0, "set_length returns the old length"); n = 0; }
#ifdef VP_ZTV
    uint64_t live = vp_live() + (a->data == NULL);
#endif
    zt_array_resize(a, m);
#ifdef VP_ZTV
    VP_CHECK(vp_live() == live, "resize keeps one allocation");
#endif
    valid(a, m, z);
    VP_FORALL(k, m * z) VP_CHECK((uint8_t)zt_array_data(a)[k] == (k < n * z ? old[k] : 0), "resize keeps what fits and fills the rest with zeroes");
    VP_REACH();
    zt_array_free(&a); free(old);
}
VP_ENTRY(h_copy) {
    size_t z = Z, n, m, k; uint8_t *old; zt_array_t a = any_array(z, &n, &old), c;
    m = vp_size(30);
    c = zt_array_copy(a, m);
    valid(c, m, z); valid(a, n, z);
    VP_CHECK(c != a && (c->data == NULL || c->data != a->data), "a copy has its own data");
    VP_FORALL(k, m * z) VP_CHECK((uint8_t)zt_array_data(c)[k] == (k < n * z ? old[k] : 0), "a copy holds the elements that fit, then zeroes");
    VP_FORALL(k, n * z) VP_CHECK((uint8_t)zt_array_data(a)[k] == old[k], "the original stays");
    VP_REACH();
    zt_array_free(&a); zt_array_free(&c); free(old);
}
VP_ENTRY(h_with) {
    size_t z = Z, n = vp_size(20), k; uint8_t *d; zt_array_t a; int copy = vp_range(0, 1);
    VP_ASSUME(n > 0);
    d = vp_buf(n * z);
    a = zt_array_with((char *)d, n, z, copy);
    valid(a, n, z);
    VP_CHECK((zt_array_data(a) == (char *)d) == !copy, "the caller's memory is used exactly when no copy is asked for");
    VP_FORALL(k, n * z) VP_CHECK((uint8_t)zt_array_data(a)[k] == d[k], "the array holds the data it was given");
    VP_CHECK(zt_array_set_length(a, 0) == n && zt_array_length(a) == 0, "set_length returns the old length");
    if (copy) free(d);
    VP_REACH();
    zt_array_free(&a);
}

/* bstream.c - C04: typed byte stream.  C05: arrays. */
#include <zt.h>
#include "vp.h"
#ifndef KT
# define KT 3
#endif
#ifndef KF
# define KF 0
#endif
/* any valid stream: an allocation of any size (or none), any length within it, any position within the length, either byte order */
static zt_bstream_t any_stream(size_t *n, uint8_t **copy) {
    zt_bstream_t b = zt_bstream_new(); size_t cap = vp_size(40), len = vp_range(0, cap);
    if (cap) { b->data->data = vp_buf(cap); b->data->length = len; }
    b->offt = vp_range(0, len);
    b->flipendian = vp_fix(0, 1, KF);
    *n = len;
    *copy = malloc(len + 1); VP_ASSUME(*copy != NULL);
    if (len) memcpy(*copy, b->data->data, len);
    return b;
}
static void valid(zt_bstream_t b) {
    VP_CHECK(b->data->size == 1, "bytes");
    VP_CHECK(b->offt <= b->data->length, "position within the length");
    VP_CHECK(b->data->length == 0 || b->data->data != NULL, "there is data");
#ifdef VP_ZTV
    VP_CHECK(b->data->data == NULL || vp_objsize(b->data->data) >= b->data->length, "length within the allocation");
#endif
}
static size_t width(void) { static const size_t w[] = { 1, 1, 2, 4, 8, 4, 8 }; return w[vp_fix(0, 6, KT)]; }
VP_ENTRY(h_write) {
    size_t n, i, k, o, t; uint8_t *old, *d; zt_bstream_t b = any_stream(&n, &old); union { uint64_t u; uint8_t c[8]; float f; double d; } v; size_t w;
    t = vp_fix(0, 6, KT); { static const size_t ws[] = { 1, 1, 2, 4, 8, 4, 8 }; w = ws[t]; }
    v.u = vp_u64();
    o = b->offt; int f = b->flipendian;
    switch (t) {
        case 0: zt_bstream_write_byte(b, (char)v.c[0]); break;
        case 1: zt_bstream_write_uint8(b, v.c[0]); break;
        case 2: zt_bstream_write_uint16(b, (uint16_t)v.u); break;
        case 3: zt_bstream_write_uint32(b, (uint32_t)v.u); break;
        case 4: zt_bstream_write_uint64(b, v.u); break;
        case 5: zt_bstream_write_float(b, v.f); break;
        default: zt_bstream_write_double(b, v.d); break;
    }
    valid(b);
    VP_CHECK(b->offt == o + w, "the position moves past the value");
    VP_CHECK(b->data->length >= n && b->data->length >= o + w && b->flipendian == f, "the stream grows as needed, its byte order stays");
    d = (uint8_t *)zt_array_data(b->data);
    for (i = 0; i < w; i++) VP_CHECK(d[o + i] == (f ? v.c[w - 1 - i] : v.c[i]), "the value's bytes in the stream's byte order");
    VP_FORALL(k, n) if (k < o || k >= o + w) VP_CHECK(d[k] == old[k], "every other byte is as before");
    VP_CHECK(zt_bstream_rewind(b) == o + w && b->offt == 0, "rewind goes to the start and returns the position");
    VP_REACH();
    free(old); zt_bstream_free(&b);
}
VP_ENTRY(h_read) {
    size_t n, i, k, o, t; uint8_t *old, *d; zt_bstream_t b = any_stream(&n, &old); union { uint64_t u; uint8_t c[8]; char ch; uint16_t u16; uint32_t u32; float f; double d; } v; size_t w;
    t = vp_fix(0, 6, KT); { static const size_t ws[] = { 1, 1, 2, 4, 8, 4, 8 }; w = ws[t]; }
    v.u = 0;
    o = b->offt; int f = b->flipendian;
    VP_ASSUME(n - o >= w);
    switch (t) {
        case 0: zt_bstream_read_byte(b, &v.ch); break;
        case 1: zt_bstream_read_uint8(b, &v.c[0]); break;
        case 2: zt_bstream_read_uint16(b, &v.u16); break;
        case 3: zt_bstream_read_uint32(b, &v.u32); break;
        case 4: zt_bstream_read_uint64(b, &v.u); break;
        case 5: zt_bstream_read_float(b, &v.f); break;
        default: zt_bstream_read_double(b, &v.d); break;
    }
    valid(b);
    VP_CHECK(b->offt == o + w, "the position moves past the value");
    VP_CHECK(b->data->length == n && b->flipendian == f, "reading changes nothing else");
    for (i = 0; i < w; i++) VP_CHECK(old[o + i] == (f ? v.c[w - 1 - i] : v.c[i]), "the value whose bytes are at the position, in the stream's byte order");
    for (; i < 8; i++) VP_CHECK(v.c[i] == 0, "nothing else is written");
    d = (uint8_t *)zt_array_data(b->data);
    VP_FORALL(k, n) VP_CHECK(d[k] == old[k], "the contents stay");
    VP_REACH();
    free(old); zt_bstream_free(&b);
}
VP_ENTRY(h_clone) {
    size_t n, k; uint8_t *old, x; zt_bstream_t b = any_stream(&n, &old), c = zt_bstream_clone(b), e, u;
    valid(c); valid(b);
    VP_CHECK(c->offt == b->offt && c->flipendian == b->flipendian && zt_array_length(c->data) == n && zt_array_length(b->data) == n, "a clone has the same length, position and byte order");
    VP_FORALL(k, n) VP_CHECK((uint8_t)c->data->data[k] == old[k] && (uint8_t)b->data->data[k] == old[k], "a clone has the same contents");
    VP_CHECK(zt_bstream_is_empty(b) == (n == 0), "empty means no bytes");
    x = vp_u8();
    e = vp_case(0, 1) ? b : c; u = e == b ? c : b;
    zt_bstream_write_byte(e, (char)x);
    VP_CHECK(zt_array_length(u->data) == n, "a clone is independent (length)");
    VP_FORALL(k, n) VP_CHECK((uint8_t)u->data->data[k] == old[k], "a clone is independent");
    VP_REACH();
    free(old); zt_bstream_free(&b); zt_bstream_free(&c);
}
VP_ENTRY(h_truncate) {
    size_t n; uint8_t *old, x = vp_u8(), y = 0; zt_bstream_t b = any_stream(&n, &old);
    VP_CHECK(zt_bstream_truncate(b) == n, "truncate returns how long the stream was");
    valid(b);
    VP_CHECK(zt_bstream_is_empty(b) && b->offt == 0, "truncate leaves an empty stream at position 0");
    zt_bstream_write_byte(b, (char)x);
    valid(b);
    zt_bstream_rewind(b); zt_bstream_read_byte(b, (char *)&y);
    VP_CHECK(x == y, "what is written after a truncate is read back");
    VP_REACH();
    free(old); zt_bstream_free(&b);
}

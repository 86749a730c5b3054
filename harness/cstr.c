/* cstr.c - C03/C25/C26/C27/C28/C32: string slices, searching, paths, hex, integers, cutting */
#include <zt.h>
#include <errno.h>
#include "vp.h"
#ifndef N
# define N VP_PICK(4, 40)
#endif
#ifndef KL
# define KL 0
#endif
#ifndef KM
# define KM 0
#endif
typedef long L;

/* a NUL terminated string of exactly n characters in an object of exactly n + 1 bytes */
static char *str(size_t n) {
    char *p = malloc(n + 1); size_t i;
    VP_ASSUME(p != NULL);
    for (i = 0; i < n; i++) { p[i] = (char)vp_u8(); VP_ASSUME(p[i] != 0); }
    p[n] = 0;
    return p;
}
/* -- what a slice index means: negative counts from the end, beyond the end is the last character, order does not matter */
static L spec_idx(L i, L n) { if (i < 0) i += n; return i >= n ? n - 1 : i; }
struct sl { L a, b, n; };
static L spec_lo(L i, L j, L n) { L x = spec_idx(i, n), y = spec_idx(j, n); return n == 0 ? 0 : x < y ? x : y; }
static L spec_hi(L i, L j, L n) { L x = spec_idx(i, n), y = spec_idx(j, n); return n == 0 ? -1 : x < y ? y : x; }
static struct sl slice(L i, L j, L n) {
    struct sl r; r.a = spec_lo(i, j, n); r.b = spec_hi(i, j, n); r.n = r.b - r.a + 1;
    return r;
}
static int spec_in(const char *set, unsigned char c) { int r = 0; size_t k, e = 0; for (k = 0; k < 64; k++) { if (!e && set[k] == 0) e = 1; if (e) break; r |= (unsigned char)set[k] == c; } return r; }
static L anyidx(L n) { return (L)vp_case(0, (uint64_t)(2 * n + 1)) - n; }   /* -n .. n + 1 */

/* two slices at once: the verifier varies one of them at a time (variant KX), the search both */
#ifdef KX
# define ANYIDX1(n, d) (KX == 0 ? anyidx(n) : (L)vp_fix(0, 2 * (n) + 1, (d) + (n)) - (n))
# define ANYIDX2(n, d) (KX == 1 ? anyidx(n) : (L)vp_fix(0, 2 * (n) + 1, (d) + (n)) - (n))
#else
# define ANYIDX1(n, d) anyidx(n)
# define ANYIDX2(n, d) anyidx(n)
#endif
VP_ENTRY(h_sub) {
    L n = vp_fix(0, N, KL), i = anyidx(n), j = anyidx(n), k; char *s = str(n), *r; struct sl q = slice(i, j, n);
    r = zt_cstr_sub(s, i, j);
    VP_CHECK(r != NULL && r != s, "sub returns a new string");
    for (k = 0; k < q.n; k++) VP_CHECK(r[k] == s[q.a + k], "sub is the slice");
    VP_CHECK(r[q.n] == 0, "sub ends at the slice's end");
    VP_CHECK(zt_cstr_len(s, i, j) == (size_t)q.n, "len is the slice's length");
    if (n > 0) VP_CHECK(zt_cstr_pos(s, i) == (size_t)spec_idx(i, n), "pos resolves the index");
    VP_REACH();
    zt_free(r); free(s);
}
VP_ENTRY(h_reverse) {
    L n = vp_fix(0, N, KL), i = anyidx(n), j = anyidx(n), k; char *s = str(n), *r; struct sl q = slice(i, j, n);
    r = zt_cstr_reverse(s, i, j);
    for (k = 0; k < q.n; k++) VP_CHECK(r[k] == s[q.b - k], "reverse is the slice backwards");
    VP_CHECK(r[q.n] == 0, "reverse ends at the slice's end");
    VP_REACH();
    zt_free(r); free(s);
}
VP_ENTRY(h_dup) {
    L n = vp_fix(0, N, KL), m = vp_case(0, 3), i = anyidx(n), j = anyidx(n), k; char *s = str(n), *r; struct sl q = slice(i, j, n);
    r = zt_cstr_dup(s, i, j, m);
    for (k = 0; k < q.n * m; k++) VP_CHECK(r[k] == s[q.a + k % q.n], "dup repeats the slice");
    VP_CHECK(r[q.n * m] == 0, "dup ends after the last copy");
    VP_CHECK(zt_cstr_dup(NULL, i, j, m) == NULL, "dup of no string is no string");
    VP_REACH();
    zt_free(r); free(s);
}
VP_ENTRY(h_cat) {
    L n = vp_fix(0, N, KL), m = vp_fix(0, N, KM), i = ANYIDX1(n, 0), j = ANYIDX1(n, n - 1), k, x = ANYIDX2(m, 0), y = ANYIDX2(m, m - 1); char *s = str(n), *t = str(m), *r;
    struct sl q = slice(i, j, n), p = slice(x, y, m);
    r = zt_cstr_cat(s, i, j, t, x, y);
    for (k = 0; k < q.n; k++) VP_CHECK(r[k] == s[q.a + k], "cat starts with the first slice");
    for (k = 0; k < p.n; k++) VP_CHECK(r[q.n + k] == t[p.a + k], "cat goes on with the second slice");
    VP_CHECK(r[q.n + p.n] == 0, "cat ends there");
    VP_REACH();
    zt_free(r); free(s); free(t);
}
VP_ENTRY(h_catv) {
    L n = vp_fix(0, N, KL), m = vp_fix(0, N, KM), i = ANYIDX1(n, 0), j = ANYIDX1(n, n - 1), k, x = ANYIDX2(m, 0), y = ANYIDX2(m, m - 1); char *s = str(n), *t = str(m), *r;
    struct sl q = slice(i, j, n), p = slice(x, y, m);
    r = zt_cstr_catv(s, (int)i, (int)j, t, (int)x, (int)y, s, 0, -1, NULL);
    for (k = 0; k < q.n; k++) VP_CHECK(r[k] == s[q.a + k], "catv starts with the first slice");
    for (k = 0; k < p.n; k++) VP_CHECK(r[q.n + k] == t[p.a + k], "catv goes on with the second slice");
    for (k = 0; k < n; k++) VP_CHECK(r[q.n + p.n + k] == s[k], "catv goes on with the third slice");
    VP_CHECK(r[q.n + p.n + n] == 0, "catv ends there");
    VP_REACH();
    zt_free(r); free(s); free(t);
}
static int spec_map(int c, const char *from, const char *to, L m) { L k; int r = c; for (k = 0; k < m; k++) if ((unsigned char)from[k] == (unsigned)c) r = (unsigned char)to[k]; return r; }
VP_ENTRY(h_map) {
    L n = vp_fix(0, N, KL), m = vp_fix(0, N, KM), i = anyidx(n), j = anyidx(n), k; char *s = str(n), *f = str(m), *t = str(m), *r;
    struct sl q = slice(i, j, n);
    r = zt_cstr_map(s, i, j, f, t);
    for (k = 0; k < q.n; k++) VP_CHECK((unsigned char)r[k] == spec_map((unsigned char)s[q.a + k], f, t, m), "map replaces exactly the listed characters");
    VP_CHECK(r[q.n] == 0, "map keeps the slice's length");
    VP_REACH();
    zt_free(r); free(s); free(f); free(t);
}
/* lexical order of two slices: -1, 0, 1 */
static int spec_cmp(const char *s, L n, const char *t, L m) {
    L k; int r = 0;
    for (k = 0; k < n && k < m; k++) if (!r && s[k] != t[k]) r = (unsigned char)s[k] < (unsigned char)t[k] ? -1 : 1;
    return r ? r : n < m ? -1 : n > m ? 1 : 0;
}
VP_ENTRY(h_cmp) {
    L n = vp_fix(0, N, KL), m = vp_fix(0, N, KM), i = ANYIDX1(n, 0), j = ANYIDX1(n, n - 1), x = ANYIDX2(m, 0), y = ANYIDX2(m, m - 1); char *s = str(n), *t = str(m); int r, e;
    struct sl q = slice(i, j, n), p = slice(x, y, m);
    r = zt_cstr_cmp(s, i, j, t, x, y);
    e = spec_cmp(s + q.a, q.n, t + p.a, p.n);
    VP_CHECK((r < 0) == (e < 0) && (r > 0) == (e > 0), "cmp is the lexical order of the two slices");
    VP_REACH();
    free(s); free(t);
}
VP_ENTRY(h_copy) {
    L n = vp_fix(0, N, KL), c = vp_case(0, N + 2), i = anyidx(n), j = anyidx(n), k, e; char *s = str(n), *d = malloc(c); struct sl q = slice(i, j, n);
    VP_ASSUME(d != NULL || c == 0);
    for (k = 0; k < c; k++) d[k] = 0x5a;
    e = q.n < c ? q.n : c;
    VP_CHECK(zt_cstr_copy(s, i, j, d, c) == (size_t)e, "copy returns the smaller of slice and room");
    for (k = 0; k < c; k++) VP_CHECK(d[k] == (k < e ? s[q.a + k] : 0x5a), "copy writes exactly the slice");
    VP_REACH();
    free(s); free(d);
}
/* ---------------------------------------------------------------- searching */
static L spec_first(const char *s, L a, L b, unsigned char c) { L k, r = -1; for (k = b; k >= a; k--) if ((unsigned char)s[k] == c) r = k; return r; }
static L spec_last(const char *s, L a, L b, unsigned char c) { L k, r = -1; for (k = a; k <= b; k++) if ((unsigned char)s[k] == c) r = k; return r; }
VP_ENTRY(h_chr) {
    L n = vp_fix(0, N, KL), i = anyidx(n), j = anyidx(n), e; char *s = str(n); char c = (char)vp_u8(); struct sl q = slice(i, j, n);
    VP_ASSUME(c != 0);
    e = spec_first(s, q.a, q.b, c);
    VP_CHECK(zt_cstr_chr(s, i, j, c) == (size_t)(e < 0 ? 0 : e), "chr finds the first occurrence in the slice, 0 when there is none");
    e = spec_last(s, q.a, q.b, c);
    VP_CHECK(zt_cstr_rchr(s, i, j, c) == (size_t)(e < 0 ? 0 : e), "rchr finds the last occurrence in the slice, 0 when there is none");
    VP_REACH();
    free(s);
}
static int spec_member(const char *t, L m, unsigned char c) { L k; int r = 0; for (k = 0; k < m; k++) r |= (unsigned char)t[k] == c; return r; }
static L spec_firstof(const char *s, L a, L b, const char *t, L m) { L k, r = -1; for (k = b; k >= a; k--) if (spec_member(t, m, s[k])) r = k; return r; }
static L spec_lastof(const char *s, L a, L b, const char *t, L m) { L k, r = -1; for (k = a; k <= b; k++) if (spec_member(t, m, s[k])) r = k; return r; }
VP_ENTRY(h_set) {
    L n = vp_fix(0, N, KL), m = vp_fix(0, N, KM), i = anyidx(n), j = anyidx(n), e; char *s = str(n), *t = str(m); struct sl q = slice(i, j, n);
    e = spec_firstof(s, q.a, q.b, t, m);
    VP_CHECK(zt_cstr_upto(s, i, j, t) == e, "upto finds the first member of the set in the slice, or -1");
    VP_CHECK(zt_cstr_any(s, i, j, t) == e, "any finds the first member of the set in the slice, or -1");
    e = spec_lastof(s, q.a, q.b, t, m);
    VP_CHECK(zt_cstr_rupto(s, i, j, t) == e, "rupto finds the last member of the set in the slice, or -1");
    VP_CHECK(zt_cstr_rany(s, i, j, t) == e, "rany finds the last member of the set in the slice, or -1");
    VP_REACH();
    free(s); free(t);
}
static int spec_at(const char *s, L k, const char *t, L m) { L x; int r = 1; for (x = 0; x < m; x++) r &= s[k + x] == t[x]; return r; }
static L spec_find(const char *s, L a, L b, const char *t, L m) { L k, r = -1; for (k = b - m + 1; k >= a; k--) if (spec_at(s, k, t, m)) r = k; return r; }
static L spec_rfind(const char *s, L a, L b, const char *t, L m) { L k, r = -1; for (k = a; k <= b - m + 1; k++) if (spec_at(s, k, t, m)) r = k; return r; }
VP_ENTRY(h_find) {
    L n = vp_fix(0, N, KL), m = vp_fix(0, N, KM), i = anyidx(n), j = anyidx(n); char *s = str(n), *t = str(m); struct sl q = slice(i, j, n);
    VP_CHECK(zt_cstr_find(s, i, j, t) == (m ? spec_find(s, q.a, q.b, t, m) : -1), "find locates the first occurrence inside the slice, or -1");
    VP_CHECK(zt_cstr_rfind(s, i, j, t) == (m ? spec_rfind(s, q.a, q.b, t, m) : -1), "rfind locates the last occurrence inside the slice, or -1");
    VP_REACH();
    free(s); free(t);
}
VP_ENTRY(h_spn) {
    L n = vp_fix(0, N, KL), m = vp_fix(0, N, KM), k, e = 0; char *s = str(n), *t = str(m);
    for (k = n - 1, e = 0; k >= 0 && spec_member(t, m, s[k]); k--) e++;
    VP_CHECK(zt_cstr_rspn(s, t) == (size_t)e, "rspn counts the trailing characters that are in the set");
    e = spec_lastof(s, 0, n - 1, t, m);
    VP_CHECK(zt_cstr_rcspn(s, t) == (size_t)(e < 0 ? n : e), "rcspn locates the last character of the set, or the end");
    VP_REACH();
    free(s); free(t);
}
VP_ENTRY(h_chomp) {
    L n = vp_fix(0, N, KL), k, e; char *s = str(n), *o = malloc(n + 1);
    VP_ASSUME(o != NULL);
    memcpy(o, s, n + 1);
    VP_CHECK(zt_cstr_chomp(s) == s, "chomp works in place");
    e = n > 0 && o[n - 1] == '\n' ? n - 1 : n;
    for (k = 0; k < e; k++) VP_CHECK(s[k] == o[k], "chomp keeps everything before the newline");
    VP_CHECK(s[e] == 0, "chomp removes exactly one trailing newline");
    VP_REACH();
    free(s); free(o);
}
VP_ENTRY(h_strip) {
    L n = vp_fix(0, N, KL), k, a, b, nl = 0; char *s = str(n), *o = malloc(n + 1);
    VP_ASSUME(o != NULL);
    memcpy(o, s, n + 1);
    VP_CHECK(zt_cstr_strip(s) == s, "strip works in place");
    for (a = 0; a < n && (o[a] == ' ' || o[a] == '\t'); a++) ;
    for (b = n; b > a && (o[b - 1] == ' ' || o[b - 1] == '\t' || o[b - 1] == '\n'); b--) nl |= o[b - 1] == '\n';
    if (b > a) {                 /* something is left */
        for (k = a; k < b; k++) VP_CHECK(s[k - a] == o[k], "strip keeps the text between the white space");
        if (nl) { VP_CHECK(s[b - a] == '\n' && s[b - a + 1] == 0, "strip keeps one trailing newline"); }
        else VP_CHECK(s[b - a] == 0, "strip removes the trailing white space");
    } else
        for (k = 0; s[k]; k++) VP_CHECK(s[k] == ' ' || s[k] == '\t' || s[k] == '\n', "nothing but white space stays white space");
    VP_REACH();
    free(s); free(o);
}
/* ---------------------------------------------------------------- hex */
static int spec_hexval(unsigned c) { return c >= '0' && c <= '9' ? (int)c - '0' : c >= 'a' && c <= 'f' ? (int)c - 'a' + 10 : c >= 'A' && c <= 'F' ? (int)c - 'A' + 10 : -1; }
VP_ENTRY(h_hex) {
    L n = vp_fix(0, N, KL), h = vp_case(0, 2 * N + 3), k, e; uint8_t *d = vp_buf(n), *b; char *x = malloc(h ? h : 1);
    VP_ASSUME(x != NULL);
    for (k = 0; k < h; k++) x[k] = '#';
    e = n < h / 2 ? n : h / 2;
    VP_CHECK(zt_binary_to_hex(d, n, x, h) == (size_t)(2 * e), "as many whole bytes as fit are converted");
    for (k = 0; k < h; k++)
        VP_CHECK(k < 2 * e ? spec_hexval((uint8_t)x[k]) == (k % 2 ? d[k / 2] & 15 : d[k / 2] >> 4) && !(x[k] >= 'A' && x[k] <= 'F') : x[k] == '#', "two lower case digits per byte, high digit first, nothing else written");
    VP_CHECK(zt_hex_to_binary(x, 2 * e, NULL, 0) == (size_t)e, "size query");
    b = malloc(e ? e : 1);
    VP_ASSUME(b != NULL);
    VP_CHECK(zt_hex_to_binary(x, 2 * e, b, e) == (size_t)e, "converting back succeeds");
    for (k = 0; k < e; k++) VP_CHECK(b[k] == d[k], "hex_to_binary(binary_to_hex(x)) == x");
    VP_REACH();
    free(d); free(b); free(x);
}
VP_ENTRY(h_unhex) {
    L n = vp_fix(0, 2 * N + 1, KL), c = vp_case(0, N + 2), k, lim, used = 0; char *x = vp_buf(n); uint8_t *b = malloc(c ? c : 1); int bad = 0; size_t r;
    VP_ASSUME(b != NULL);
    for (k = 0; k < c; k++) b[k] = 0x5a;
    /* digits are consumed in pairs until the text ends (its length, or a NUL) or the room is used up */
    for (k = 0, lim = 0; k < n && x[k] != 0 && lim < c && !bad; k += 2) {
        if (spec_hexval((uint8_t)x[k]) < 0 || k + 1 >= n || spec_hexval((uint8_t)x[k + 1]) < 0) bad = 1;
        else lim++;
    }
    (void)used;
    errno = 0;
    r = zt_hex_to_binary(x, n, b, c);
    if (bad) VP_CHECK(r == 0 && errno == EINVAL, "anything that is not a pair of hex digits is refused with EINVAL");
    else {
        VP_CHECK(r == (size_t)lim, "the number of bytes converted");
        for (k = 0; k < lim; k++) VP_CHECK(b[k] == (spec_hexval((uint8_t)x[2 * k]) << 4 | spec_hexval((uint8_t)x[2 * k + 1])), "upper and lower case digits, high digit first");
        for (; k < c; k++) VP_CHECK(b[k] == 0x5a, "nothing else is written");
    }
    VP_REACH();
    free(x); free(b);
}
/* ---------------------------------------------------------------- integers */
static int spec_digits(uint32_t m) { return m >= 1000000000u ? 10 : m >= 100000000u ? 9 : m >= 10000000u ? 8 : m >= 1000000u ? 7 : m >= 100000u ? 6 : m >= 10000u ? 5 : m >= 1000u ? 4 : m >= 100u ? 3 : m >= 10u ? 2 : 1; }
VP_ENTRY(h_intlen) {
    int v = (int)vp_u32(); uint32_t m = v < 0 ? 0u - (uint32_t)v : (uint32_t)v;
    VP_CHECK(zt_cstr_int_display_len(v) == (size_t)(spec_digits(m) + (v < 0)), "display length is the number of characters printed");
    VP_REACH();
}
VP_ENTRY(h_itoa) {
    int v = (int)vp_u32(), len, k, w, nd; uint32_t m = v < 0 ? 0u - (uint32_t)v : (uint32_t)v; size_t off = vp_fix(0, 3, KM), room = vp_case(0, 3), cap, i; char *b = malloc(16); ssize_t r;
    VP_ASSUME(b != NULL);
    nd = spec_digits(m); len = nd + (v < 0);
#ifdef KD
    {
        static const long p10[] = { 0, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000, 10000000000 };
        VP_ASSUME(KS ? v < 0 && v > -p10[KD] && v <= -p10[KD - 1] : v >= p10[KD - 1] && v < p10[KD]);
        VP_CHECK(spec_digits(m) == KD, "digit count");
    }
    len = KD + KS; nd = KD;
#endif
    for (i = 0; i < 16; i++) b[i] = '#';
    cap = room == 0 ? 0 : room == 1 ? off + len : room == 2 ? off + len + 1 : 16;     /* none, one short, just enough, plenty */
    r = zt_cstr_itoa(b, v, off, cap);
    if (off + len + 1 > cap) {
        VP_CHECK(r == -1, "text and terminator do not fit: refused");
        for (i = 0; i < 16; i++) VP_CHECK(b[i] == '#', "nothing written when refused");
    } else {
        VP_CHECK(r == (ssize_t)(off + len), "returns the offset of the terminator");
        VP_CHECK(b[off + len] == 0, "terminated");
        if (v < 0) VP_CHECK(b[off] == '-', "sign");
        for (k = nd, w = v; k > 0; k--) { VP_CHECK(b[off + (v < 0) + k - 1] == (char)('0' + (v < 0 ? -(w % 10) : w % 10)), "decimal digits"); w /= 10; }
        for (i = 0; i < 16; i++) if (i < off || i > off + len) VP_CHECK(b[i] == '#', "nothing else written");
    }
    VP_CHECK(zt_cstr_itoa(NULL, v, off, cap) == -1, "no buffer: refused");
    VP_REACH();
    free(b);
}
/* ---------------------------------------------------------------- paths */
VP_ENTRY(h_dirname) {
    L n = vp_fix(0, N, KL), c = vp_case(1, N + 2), k, e, last; char *p = str(n), *d = malloc(c);
    VP_ASSUME(d != NULL);
    for (k = 0; k + 1 < n; k++) VP_ASSUME(!(p[k] == '/' && p[k + 1] == '/'));
    VP_CHECK(zt_cstr_dirname(d, c, p) == d, "dirname returns the buffer");
    e = n > 1 && p[n - 1] == '/' ? n - 1 : n;            /* a trailing separator does not count */
    last = spec_last(p, 0, e - 1, '/');
    if (last < 0) { if (c > 1) VP_CHECK(d[0] == '.' && d[1] == 0, "a path without separator is in ."); }
    else {
        e = last == 0 ? 1 : last;
        for (k = 0; k < e && k < c - 1; k++) VP_CHECK(d[k] == p[k], "dirname is everything before the last component");
        VP_CHECK(d[e < c - 1 ? e : c - 1] == 0, "and nothing else, terminated within the buffer");
    }
    VP_REACH();
    free(p); free(d);
}
VP_ENTRY(h_dirname_any) {   /* any path at all: stays inside the objects, terminated */
    L n = vp_fix(0, N, KL), c = vp_case(1, N + 2), k; char *p = str(n), *d = malloc(c), *b = malloc(c);
    VP_ASSUME(d != NULL && b != NULL);
    zt_cstr_dirname(d, c, p);
    zt_cstr_basename(b, c, p, NULL);
    VP_CHECK(d[c - 1] == 0 && b[c - 1] == 0, "terminated within the buffer");
    VP_REACH();
    free(p); free(d); free(b);
}
VP_ENTRY(h_basename) {
    L n = vp_fix(0, N, KL), m = vp_fix(0, N, KM), c = vp_case(1, N + 2), k, a, e; char *p = str(n), *x = str(m), *d = malloc(c);
    VP_ASSUME(d != NULL);
    VP_ASSUME(n == 0 || p[n - 1] != '/');
    a = spec_last(p, 0, n - 1, '/') + 1;
    VP_CHECK(zt_cstr_basename(d, c, p, NULL) == d, "basename returns the buffer");
    for (k = a; k < n && k - a < c - 1; k++) VP_CHECK(d[k - a] == p[k], "basename is the part after the last separator");
    VP_CHECK(d[n - a < c - 1 ? n - a : c - 1] == 0, "terminated within the buffer");
    zt_cstr_basename(d, c, p, x);
    e = m > 0 && n - a > m && spec_at(p, n - m, x, m) ? n - m : n;
    for (k = a; k < e && k - a < c - 1; k++) VP_CHECK(d[k - a] == p[k], "a suffix at the end of the name is removed, nothing else");
    VP_CHECK(d[e - a < c - 1 ? e - a : c - 1] == 0, "terminated within the buffer (suffix)");
    VP_REACH();
    free(p); free(x); free(d);
}
VP_ENTRY(h_append) {
    L n = vp_fix(1, N, KL), m = vp_fix(1, N, KM), k, e, b; char *p = str(n), *x = str(m), *r;
    for (e = n; e > 0 && p[e - 1] == '/'; e--) ;
    for (b = 0; b < m && x[b] == '/'; b++) ;
    VP_ASSUME(e > 0 && b < m);
    r = zt_cstr_path_append(p, x);
    for (k = 0; k < e; k++) VP_CHECK(r[k] == p[k], "starts with the first path");
    VP_CHECK(r[e] == '/', "exactly one separator between the parts");
    for (k = b; k < m; k++) VP_CHECK(r[e + 1 + k - b] == x[k], "ends with the second path");
    VP_CHECK(r[e + 1 + m - b] == 0, "and nothing else");
    VP_CHECK(zt_cstr_abspath(p) == (p[0] == '/' || (p[0] == '.' && p[1] == '/')), "abspath: starts with / or ./");
    VP_REACH();
    zt_free(r); free(p); free(x);
}
/* ---------------------------------------------------------------- cutting */
VP_ENTRY(h_split) {
    L n = vp_fix(0, N, KL), m = vp_fix(1, N, KM), k, b, w = 0; char *s = str(n), *t = str(m), *o = malloc(n + 1); zt_ptr_array *a;
    VP_ASSUME(o != NULL);
    memcpy(o, s, n + 1);
    a = zt_cstr_split(s, t);
    VP_CHECK(a != NULL, "split succeeds");
    for (k = 0; k <= n; k++) VP_CHECK(s[k] == o[k], "split does not change its input");
    for (k = 0; k < n;) {
        if (spec_member(t, m, o[k])) { k++; continue; }
        for (b = k; k < n && !spec_member(t, m, o[k]); k++) ;
        { char *e = zt_ptr_array_get_idx(a, w++); L y;
          VP_CHECK(e != NULL, "one element per run of non-delimiters");
          for (y = 0; y < k - b; y++) VP_CHECK(e[y] == o[b + y], "the element is the run");
          VP_CHECK(e[k - b] == 0, "and nothing else"); }
    }
    VP_CHECK(zt_ptr_array_length(a) == w, "no other elements");
    VP_REACH();
    zt_cstr_split_free(a); free(s); free(t); free(o);
}
VP_ENTRY(h_cut) {
    L n = vp_fix(0, N, KL), k, y, w = 0; int keep = vp_range(0, 1); char c = (char)vp_u8(); char *s = str(n); zt_ptr_array *a;
    VP_ASSUME(c != 0);
    a = zt_cstr_cut(s, c, keep);
    for (k = 0; k + 1 < n; k++)
        if (s[k] == c) {
            char *e = zt_ptr_array_get_idx(a, w++); L b = k + (keep ? 0 : 1);
            VP_CHECK(e != NULL, "one element per delimiter that has text after it");
            for (y = 0; y <= n - b; y++) VP_CHECK(e[y] == s[b + y], "the element is the rest of the string from the delimiter");
        }
    VP_CHECK(zt_ptr_array_length(a) == w, "no other elements");
    VP_REACH();
    zt_cstr_cut_free(a); free(s);
}
VP_ENTRY(h_tok) {
    L n = vp_fix(0, N, KL), k, y, w = 0, e; char c = (char)vp_u8(); char *s = str(n); zt_ptr_array *a; char *q;
    VP_ASSUME(c != 0);
    a = zt_cstr_tok(s, c, 0);
    e = n > 0 && s[n - 1] == c ? n - 1 : n;           /* one trailing delimiter does not count */
    q = zt_ptr_array_get_idx(a, w++);
    VP_CHECK(q != NULL, "the whole string comes first");
    for (y = 0; y < e; y++) VP_CHECK(q[y] == s[y], "the whole string comes first");
    VP_CHECK(q[e] == 0, "without its trailing delimiter");
    for (k = e - 1; k > 0; k--)
        if (s[k] == c) {
            q = zt_ptr_array_get_idx(a, w++);
            VP_CHECK(q != NULL, "one element per delimiter");
            for (y = 0; y < k; y++) VP_CHECK(q[y] == s[y], "each element is the text before a delimiter, longest first");
            VP_CHECK(q[k] == 0, "ends before the delimiter");
        }
    VP_CHECK(zt_ptr_array_length(a) == w, "no other elements");
    VP_REACH();
    zt_cstr_cut_free(a); free(s);
}
/* ---------------------------------------------------------------- hexdump */
static size_t hd_lines, hd_end; static const uint8_t *hd_data; static size_t hd_n;
static int hd_out(void *ctx, size_t addr, char *hex, char *txt) {
    size_t k, e;
    VP_CHECK(ctx == &hd_lines, "the output context is handed through");
    if (hex == NULL) { VP_CHECK(txt == NULL && hd_end == 0, "one end mark"); hd_end = 1; return 0; }
    VP_CHECK(addr == hd_lines * 16 && addr < hd_n && !hd_end, "lines come in address order, 16 bytes apart, before the end mark");
    e = hd_n - addr < 16 ? hd_n - addr : 16;
    for (k = 0; k < e; k++) {
        uint8_t c = hd_data[addr + k];
        VP_CHECK(spec_hexval((uint8_t)hex[3 * k]) == c >> 4 && spec_hexval((uint8_t)hex[3 * k + 1]) == (c & 15) && hex[3 * k + 2] == ' ', "two hex digits and a blank per byte");
        VP_CHECK(txt[k] == (c >= 32 && c < 127 ? (char)c : '.'), "printable characters as they are, a dot for the rest");
    }
    VP_CHECK(hex[3 * e] == 0 && txt[e] == 0, "nothing else on the line");
    hd_lines++;
    return 0;
}
VP_ENTRY(h_hexdump) {
    L n = vp_fix(0, VP_PICK(34, 300), KL); char *d = vp_buf(n);
    hd_data = (uint8_t *)d; hd_n = n; hd_lines = 0; hd_end = 0;
    VP_CHECK(zt_hexdump_str(d, n, hd_out, &hd_lines) == (size_t)n, "every byte is dumped");
    VP_CHECK(hd_lines == ((size_t)n + 15) / 16, "every line is written, the last short one too");
    VP_CHECK(hd_end == 1, "the end mark is written");
    VP_REACH();
    free(d);
}
/* many lines: the contents are fixed, what counts is the addresses */
static unsigned long hl_n, hl_lines, hl_end;
static int hl_get(void *p) { unsigned long *k = p; if (*k == hl_n) return EOF; return (int)(*k)++ & 0xff; }
static int hl_out(void *ctx, size_t addr, char *hex, char *txt) {
    (void)ctx;
    if (hex == NULL) { hl_end++; return 0; }
    VP_CHECK(addr == hl_lines * 16, "lines come in address order, 16 bytes apart");
    VP_CHECK(spec_hexval((uint8_t)hex[0]) == (addr >> 4 & 15) && hex[1] == '0' && txt[16] == 0 && hex[47] == ' ' && hex[48] == 0, "each line shows the bytes at its address");
    hl_lines++;
    return 0;
}
VP_ENTRY(h_hexdump_long) {
    unsigned long k = 0;
    hl_n = 16 * (uint64_t)vp_fix(1, 4200, KL); hl_lines = 0; hl_end = 0;
    VP_CHECK(zt_hexdump(hl_get, &k, hl_out, NULL) == (size_t)hl_n && hl_lines == hl_n / 16 && hl_end == 1, "every byte is dumped");
    VP_REACH();
}

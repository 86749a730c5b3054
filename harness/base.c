/* base.c - C01/C02: baseN text codecs (zt_base.c) */
#include "base_spec.h"
#ifndef N
# define N VP_PICK(7, 200)
#endif
#ifndef KW
# define KW 0
#endif
#ifndef KN
# define KN 0
#endif
#define W vp_fix(0, 5, KW)

/* encode == RFC 4648 text, of exactly the announced size, nothing written past it; decode is its inverse */
VP_ENTRY(h_roundtrip) {
    struct spec s; uint8_t in[N + 1]; size_t n, len, exp, j, dlen, d0; int rc; char *out; uint8_t *dec; void *p;
    unsigned w = W;
    zt_base_definition_t *def = pick(w, &s);
    n = vp_fix(0, N, KN);
    VP_BYTES(in, N);
    /* size query */
    len = 0; exp = spec_len(&s, n);
    rc = zt_base_encode(def, in, n, NULL, &len);
    VP_CHECK(len == exp, "encode announces the exact text size");
    out = malloc(exp + 1);
    VP_ASSUME(out != NULL);
    out[exp] = 0x55;
    p = out; len = exp;
    rc = zt_base_encode(def, in, n, &p, &len);
    VP_CHECK(rc == 0 && len == exp && p == out, "encode succeeds with exactly the announced size");
    VP_CHECK(out[exp] == 0x55, "encode writes nothing past the announced size");
    d0 = spec_data_len(&s, n);
    for (j = 0; j < exp; j++)
        VP_CHECK(out[j] == (j < d0 ? spec_char(&s, in, n, j) : '='), "text equals the RFC 4648 encoding");
    dec = malloc(n + 1);
    VP_ASSUME(dec != NULL);
    /* the decoder wants room for its own estimate: ask it */
    dlen = 0;
    rc = zt_base_decode(def, out, exp, NULL, &dlen);
    VP_CHECK(rc == 0 && dlen >= n && dlen <= n + s.og, "decode announces enough room");
    {
        uint8_t *big = malloc(dlen + 1);
        size_t cap = dlen;
        VP_ASSUME(big != NULL);
        big[cap] = 0xA5;
        p = big;
        rc = zt_base_decode(def, out, exp, &p, &dlen);
        VP_CHECK(rc == 0 && p == big, "decode accepts what encode produced");
        VP_CHECK(dlen == n, "decode returns the original size");
        VP_CHECK(big[cap] == 0xA5, "decode writes nothing past the room it announced");
        for (j = 0; j < n; j++) VP_CHECK(big[j] == in[j], "decode(encode(x)) == x");
        free(big);
    }
    VP_REACH();
    free(out); free(dec);
}

/* library-allocated result */
VP_ENTRY(h_alloc) {
    struct spec s; uint8_t in[N + 1]; size_t n, len = 0, j, dlen = 0; void *t = NULL, *b = NULL; int rc;
    zt_base_definition_t *def = pick(W, &s);
    n = vp_fix(1, N, KN);
    VP_BYTES(in, N);
    rc = zt_base_encode(def, in, n, &t, &len);
    VP_CHECK(rc == 0 && t != NULL && len == spec_len(&s, n), "encode allocates the text");
    rc = zt_base_decode(def, t, len, &b, &dlen);
    VP_CHECK(rc == 0 && b != NULL && dlen == n, "decode allocates the bytes");
    for (j = 0; j < n; j++) VP_CHECK(((uint8_t *)b)[j] == in[j], "decode(encode(x)) == x (allocated)");
    VP_REACH();
    free(t); free(b);
}

/* size negotiation of encode for every size: loop free when no output buffer / too small a buffer is given */
VP_ENTRY(h_enc_size) {
    struct spec s; size_t n = vp_u64(), len, cap; int rc; char c[1]; void *p = c, *q = NULL; uint8_t in[1] = { 0 };
    zt_base_definition_t *def = pick(W, &s);
    VP_ASSUME(n > 0 && n < ((size_t)1 << 48));
    cap = vp_u64();
    len = cap;
    VP_ASSUME(cap >= spec_len(&s, n));
    rc = zt_base_encode(def, in, n, NULL, &len);
    VP_CHECK(rc == 0 && len == spec_len(&s, n), "size query reports the exact size");
    len = cap = vp_u64();
    VP_ASSUME(cap < spec_len(&s, n));
    rc = zt_base_encode(def, in, n, &p, &len);
    VP_CHECK(rc == -2 && len == spec_len(&s, n) && p == c, "too small a buffer is refused and the needed size reported");
    len = 5;
    rc = zt_base_encode(def, in, 0, &p, &len);
    VP_CHECK(rc == 0 && len == 0, "empty input encodes to nothing");
    len = 5;
    rc = zt_base_encode(def, NULL, n, &p, &len);
    VP_CHECK(rc == 0 && len == 0, "missing input encodes to nothing");
    VP_CHECK(zt_base_encode(def, in, n, &p, NULL) == -1, "missing size parameter is an error");
    VP_CHECK(zt_base_decode(def, in, n, &p, NULL) == -1, "missing size parameter is an error");
    (void)q;
    VP_REACH();
}

/* decode of arbitrary text: memory safe within the announced room, result == reference decoder, junk rejected */
VP_ENTRY(h_decode_any) {
    struct spec s; uint8_t in[N + 1]; size_t n, len, need, i, cnt = 0, bits = 0, o = 0; int rc, bad = 0; uint8_t *out; void *p;
    uint32_t acc = 0; uint8_t ref[N + 1];
    zt_base_definition_t *def = pick(W, &s);
    n = vp_fix(1, N, KN);
    VP_BYTES(in, N);
    need = 0;
    rc = zt_base_decode(def, in, n, NULL, &need);
    VP_CHECK(rc == 0 && need <= n, "size query succeeds and is bounded by the text size");
    for (i = 0; i < n; i++) {
        int v = spec_value(&s, in[i]);
        if (v >= 0) {
            acc = acc << s.obits | v; bits += s.obits; cnt++;
            if (bits >= 8) { bits -= 8; ref[o++] = (uint8_t)(acc >> bits); }
        } else if (!spec_skip(in[i])) bad = 1;
    }
    out = malloc(need + 1);
    VP_ASSUME(out != NULL);
    out[need] = 0xA5;
    p = out; len = need;
    if (need) {
        rc = zt_base_decode(def, in, n, &p, &len);
        VP_CHECK(out[need] == 0xA5, "decode writes nothing past the room it announced");
        VP_CHECK(!bad || rc != 0, "a character outside the alphabet is rejected");
        /* a digit count that no encoder produces has no specified result; otherwise exact */
        if (!bad && (cnt * s.obits) % 8 < s.obits) {
            VP_CHECK(rc == 0 && len == o, "decode length");
            for (i = 0; i < o; i++) VP_CHECK(out[i] == ref[i], "decode value (white space and padding ignored)");
        }
        if (need > 1) {
            uint8_t small[1]; void *q = small; size_t cap = vp_range(1, need - 1 ? need - 1 : 1);
            small[0] = 0x77; len = cap;
            rc = zt_base_decode(def, in, n, &q, &len);
            VP_CHECK(rc == -2 && len == need && q == small && small[0] == 0x77, "too small a buffer is refused untouched, needed size reported");
        }
    }
    {   /* no buffer but a non-zero size: a size query, as for encode */
        void *z = NULL; size_t zl = vp_range(1, 9);
        rc = zt_base_decode(def, in, n, &z, &zl);
        VP_CHECK(rc == 0 && z == NULL && zl == need, "NULL buffer with a size is a size query");
    }
    VP_REACH();
    free(out);
}


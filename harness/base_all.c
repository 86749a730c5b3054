/* base_all.c - C01: the encoders for every input size */
#include "base_spec.h"
#ifndef KW
# define KW 0
#endif
#define W vp_fix(0, 5, KW)
#ifdef VP_ZTV
/* ---- every input size: the encoder loops by induction, the text observed at an arbitrary position:
 *      character R (fixed per run, all values) of an arbitrary group Q ---- */
#ifndef KR
# define KR 0
#endif
static const uint8_t *IN; static char *OUT; static size_t NN, Q; static struct spec S;
/* character R of group Q: bits R*obits.. of the group's bytes, zero past the end of the input */
static char spec_at(void) {
    unsigned v = 0, k;
    for (k = 0; k < S.obits; k++) {
        unsigned b = KR * S.obits + k;
        unsigned bit = S.ig * Q + b / 8 < NN ? (IN[S.ig * Q + b / 8] >> (7 - b % 8)) & 1 : 0;
        v = v << 1 | bit;
    }
    return S.alpha[v];
}
int vp_pure_textok(uint64_t k) { return Q >= k || OUT[S.og * Q + KR] == spec_at(); }
int vp_inv___encode64__0(uint64_t k) { return vp_pure_textok(k); }
int vp_inv___encode32__0(uint64_t k) { return vp_pure_textok(k); }
int vp_inv___encode16__0(uint64_t k) { return vp_pure_textok(k); }
VP_ENTRY(h_encode_all) {
    size_t len, exp; int rc; void *p;
    zt_base_definition_t *def = pick(W, &S);
    NN = vp_size(0);
    VP_ASSUME(NN > 0);
    IN = vp_buf(NN);
    exp = spec_len(&S, NN);
    OUT = malloc(exp);
    Q = vp_u64();
    VP_ASSUME(Q < ((uint64_t)1 << 42));
    VP_ASSUME(Q * S.og + KR < exp);
    p = OUT; len = exp;
    rc = zt_base_encode(def, IN, NN, &p, &len);
    VP_CHECK(rc == 0, "encode succeeds");
    VP_CHECK(len == exp, "encode reports exactly the announced size");
    VP_CHECK(p == OUT, "encode uses the caller's buffer");
    if (Q * S.og + KR < spec_data_len(&S, NN))
        VP_CHECK(OUT[Q * S.og + KR] == spec_at(), "text equals the RFC 4648 encoding at every position");
    else
        VP_CHECK(OUT[Q * S.og + KR] == '=', "padding fills the last group");
    VP_REACH();
}
#endif

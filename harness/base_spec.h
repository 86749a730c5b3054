/* base_spec.h - what RFC 4648 says, for every codec definition of the library */
#include "vp.h"
#include <zt.h>
#include <libzt/zt_base.h>

static const char A64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static const char U64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
static const char A32[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567";
static const char H32[] = "0123456789ABCDEFGHIJKLMNOPQRSTUV";
static const char A16[] = "0123456789ABCDEF";

struct spec { const char *alpha; unsigned obits, ig, og; int pad; };

static zt_base_definition_t *pick(unsigned w, struct spec *s) {
    switch (w) {
        case 0: *s = (struct spec){ A64, 6, 3, 4, 1 }; return zt_base64_rfc;
        case 1: *s = (struct spec){ A64, 6, 3, 4, 0 }; return zt_base64_rfc_nopad;
        case 2: *s = (struct spec){ U64, 6, 3, 4, 1 }; return zt_base64_uri;
        case 3: *s = (struct spec){ A32, 5, 5, 8, 1 }; return zt_base32_rfc;
        case 4: *s = (struct spec){ H32, 5, 5, 8, 1 }; return zt_base32_hex;
        default: *s = (struct spec){ A16, 4, 1, 2, 0 }; return zt_base16_rfc;
    }
}

/* the text size RFC 4648 prescribes for n bytes */
static size_t spec_len(const struct spec *s, size_t n) {
    size_t r = n % s->ig, full = (n / s->ig) * s->og;
    if (r == 0) return full;
    return full + (s->pad ? s->og : (8 * r + s->obits - 1) / s->obits);
}
static size_t spec_data_len(const struct spec *s, size_t n) {
    size_t r = n % s->ig;
    return (n / s->ig) * s->og + (8 * r + s->obits - 1) / s->obits;
}
/* character j (before padding) is the j-th obits-wide slice of the input bits */
static char spec_char(const struct spec *s, const uint8_t *in, size_t n, size_t j) {
    unsigned v = 0, k;
    for (k = 0; k < s->obits; k++) {
        size_t b = j * s->obits + k;
        unsigned bit = b / 8 < n ? (in[b / 8] >> (7 - b % 8)) & 1 : 0;
        v = v << 1 | bit;
    }
    return s->alpha[v];
}

/* the value of a character, -1 outside the alphabet */
static int spec_value(const struct spec *s, unsigned c) {
    int v, r = -1;
    for (v = 0; v < (1 << s->obits); v++) if ((uint8_t)s->alpha[v] == c) r = v;
    return r;
}
static int spec_skip(unsigned c) { return (c == '=') | (c == ' ') | (c == '\t') | (c == '\r') | (c == '\n'); }

/* uuid.c - C18: UUIDs as text; C19: how UUIDs are made */
#include <zt.h>
#include "zt_uuid.h"
#include "zt_sha1.h"
#include "vp.h"
static const char D62[] = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
static const char D16[] = "0123456789abcdef";
static uint8_t U[16];
static char E[40]; static int EL;
/* KV: the format: 0 standard, 1 short, 2 base 62, 3 base 62 hashable */
#ifndef KV
# define KV 0
#endif
static uint64_t half(int h) { uint64_t v = 0; int i; for (i = 0; i < 8; i++) v |= (uint64_t)U[8 * h + i] << (56 - 8 * i); return v; }
/* the text of U by definition */
static void text(int f) {
    int i, h, n = 0;
    if (f < 2) {
        for (i = 0; i < 16; i++) { if (f == 0 && (i == 4 || i == 6 || i == 8 || i == 10)) E[n++] = '-'; E[n++] = D16[U[i] >> 4]; E[n++] = D16[U[i] & 15]; }
    } else {
        for (h = 0; h < 2; h++) { uint64_t v = half(h); for (i = 10; i >= 0; i--) { E[11 * h + (f == 3 && h == 0 ? 10 - i : i)] = D62[v % 62]; v /= 62; } }
        n = 22;
    }
    E[n] = 0; EL = n;
}
/* KB: the verifier takes halves near a base only (base 62 texts); 0: any UUID */
#ifndef KB
# define KB 0
#endif
static void any_uuid(zt_uuid_t *u) {
    static const uint64_t base[] = { 0, 0, 839299365868340224u - 128, 0x8000000000000000u - 128, 0xffffffffffffff00u, 0x0123456789abcdefu, 3844 - 128 };
    int i, h;
    for (i = 0; i < 16; i++) U[i] = vp_u8();
    if (VP_PICK(KB, 0)) for (h = 0; h < 2; h++) { uint64_t v = base[h ? KB : 1 + (KB + 2) % 6] + (h ? vp_case(0, 3) * 83 : 77); for (i = 0; i < 8; i++) U[8 * h + i] = (uint8_t)(v >> (56 - 8 * i)); }
    for (i = 0; i < 16; i++) u->data.bytes[i] = U[i];
}
VP_ENTRY(h_tostr) {
    int f = (int)vp_fix(0, 3, KV), i; zt_uuid_t u; char *s = NULL; ssize_t r;
    any_uuid(&u); text(f);
    r = zt_uuid_tostr(&u, &s, (zt_uuid_flags_t)f);
    VP_CHECK(r == EL && s != NULL, "the length of the text is returned");
    for (i = 0; i <= EL; i++) VP_CHECK(s[i] == E[i], "the text is the UUID's in the format asked for, and terminated");
    for (i = 0; i < 16; i++) VP_CHECK(u.data.bytes[i] == U[i], "the UUID is not changed");
    free(s);
    VP_REACH();
}
VP_ENTRY(h_fillstr) {
    int f = (int)vp_fix(0, 3, KV), i, which = (int)vp_case(0, 2); zt_uuid_t u; size_t n = vp_size(60), given = n; char *s; ssize_t r; uint64_t x = vp_range(0, 59);
    any_uuid(&u); text(f);
    s = malloc(n); memset(s, '?', n);
    r = zt_uuid_fillstr(which == 1 ? NULL : &u, which == 2 ? NULL : s, &n, (zt_uuid_flags_t)f);
    if (which || given < (size_t)EL + 1) {
        VP_CHECK(r == 0 && n == (size_t)EL + 1, "the size needed is reported");
        if (x < given) VP_CHECK(s[x] == '?', "nothing is written");
    } else {
        VP_CHECK(r == EL && n == given, "the length of the text is returned");
        for (i = 0; i <= EL; i++) VP_CHECK(s[i] == E[i], "the text is the UUID's in the format asked for, and terminated");
        if (x > (uint64_t)EL && x < given) VP_CHECK(s[x] == '?', "nothing is written behind the text");
    }
    free(s);
    VP_REACH();
}
/* reading back: the text of any UUID (as proved above) */
VP_ENTRY(h_back) {
    int f = (int)vp_fix(0, 3, KV), i; zt_uuid_t u, v; char *s = malloc(37);
    memset(&v, 0x55, sizeof v);
    any_uuid(&u); text(f);
    for (i = 0; i <= EL; i++) s[i] = E[i];
    VP_CHECK(zt_uuid_isvalid(s, (zt_uuid_flags_t)f) == 0, "the text of a UUID is valid");
    VP_CHECK(zt_uuid_fromstr(s, &v, (zt_uuid_flags_t)f) == 0, "the text of a UUID is read");
    for (i = 0; i < 16; i++) VP_CHECK(v.data.bytes[i] == U[i], "the UUID comes back from its text");
    VP_CHECK(zt_uuid_cmp(&u, &v) == 0, "it compares equal");
    free(s);
    VP_REACH();
}
/* ---- callees by their contracts */
static int vp_pure_v16(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static int vp_pure_v62(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 36 : -1; }
#if defined(VP_ZTV) && defined(CONTRACTS)
size_t vp_contract_zt_hex_to_binary(char *hex, size_t hlen, void *data, size_t dlen) {      /* C02 */
    size_t i; int bad = 0;
    for (i = 0; i < hlen; i++) bad |= vp_pure_v16(hex[i]) < 0;
    VP_CHECK(hlen == 2 * dlen && !bad, "the hex digits of the whole UUID are converted");
    for (i = 0; i < dlen; i++) ((uint8_t *)data)[i] = (uint8_t)(vp_pure_v16(hex[2 * i]) << 4 | vp_pure_v16(hex[2 * i + 1]));
    return dlen;
}
static size_t vp_pure_find(const char *s, int c) { size_t i; for (i = 0; s[i]; i++) if (s[i] == (char)c) break; return i; }
char *vp_contract_strchr(const char *s, int c) { size_t i = vp_pure_find(s, c); if (s[i] == (char)c) return (char *)s + i; return NULL; }
#endif
static int OK; static char *TXT;
#if defined(VP_ZTV) && defined(ISVALID)
int vp_contract_zt_uuid_isvalid(char *t, zt_uuid_flags_t f) { (void)f; VP_CHECK(t == TXT, "the text given is looked at"); return OK ? 0 : -1; }
#endif
#ifndef WHAT
# define WHAT 0
#endif
/* ---- any text: accepted exactly when it is the text of a UUID */
#ifndef KD
# define KD 0
#endif
VP_ENTRY(h_reject) {
    static const int len[] = { 36, 32, 22, 22 };
    int f = (int)vp_fix(0, 3, KV), n = len[f] + (int)vp_fix(0, 3, KD) - 2, i, ok, r; char *s; zt_uuid_t v; uint64_t a = 0, b = 0, last; int over = 0;
    if (n > len[f]) n = len[f] + 1; else if (n < len[f] - 1) n = 0;
    s = malloc((size_t)n + 1);
    for (i = 0; i < n; i++) { s[i] = VP_PICK((char)vp_u8(), f > 1 ? (vp_range(0, 99) ? D62[vp_u8() % 62] : (char)vp_u8()) : (f == 0 && (i == 8 || i == 13 || i == 18 || i == 23)) ? '-' : (vp_range(0, 99) ? D16[vp_u8() % 16] : (char)vp_u8())); VP_ASSUME(s[i] != 0); }
    s[n] = 0;
    ok = n == len[f];
    for (i = 0; i < n; i++)
        ok &= f == 0 && (i == 8 || i == 13 || i == 18 || i == 23) ? s[i] == '-' : f < 2 ? vp_pure_v16(s[i]) >= 0 : vp_pure_v62(s[i]) >= 0;
    OK = ok; TXT = s;
    if (VP_PICK(WHAT, 0) == 0) VP_CHECK((zt_uuid_isvalid(s, (zt_uuid_flags_t)f) == 0) == ok, "valid exactly when it has the length and the characters of the format");
    if (VP_PICK(WHAT, 1) == 0) { free(s); VP_REACH(); return; }
    memset(&v, 0x55, sizeof v);
    r = zt_uuid_fromstr(s, &v, (zt_uuid_flags_t)f);
    VP_CHECK(r == 0 || r == -1, "fromstr says whether it read a UUID");
    VP_CHECK(r != 0 || ok, "what is not the text of a UUID is refused");
#ifndef VP_ZTV
    if (f > 1 && ok) {          /* each half must fit in 64 bits */
        for (i = 0; i < 11; i++) {
            int x = vp_pure_v62(s[f == 3 ? 10 - i : i]), y = vp_pure_v62(s[11 + i]);
            if (a > (UINT64_MAX - x) / 62 || b > (UINT64_MAX - y) / 62) { over = 1; break; }
            a = a * 62 + x; b = b * 62 + y;
        }
    }
    VP_CHECK((r == 0) == (ok && !over), "exactly the texts of UUIDs are read");
    if (r == 0) {
        if (f < 2) for (i = 0, n = 0; i < 16; i++) { if (s[n] == '-') n++; U[i] = (uint8_t)(vp_pure_v16(s[n]) << 4 | vp_pure_v16(s[n + 1])); n += 2; }
        else for (i = 0; i < 8; i++) { U[i] = (uint8_t)(a >> (56 - 8 * i)); U[8 + i] = (uint8_t)(b >> (56 - 8 * i)); }
        for (i = 0; i < 16; i++) VP_CHECK(v.data.bytes[i] == U[i], "the UUID is the one the text stands for");
    }
#else
    (void)a; (void)b; (void)last; (void)over;
    if (f < 2) {
        VP_CHECK((r == 0) == ok, "exactly the texts of UUIDs are read");
        if (r == 0) for (i = 0, n = 0; i < 16; i++) { if (f == 0 && (i == 4 || i == 6 || i == 8 || i == 10)) n++; VP_CHECK(v.data.bytes[i] == (uint8_t)(vp_pure_v16(s[n]) << 4 | vp_pure_v16(s[n + 1])), "the UUID is the one the text stands for"); n += 2; }
    }
#endif
    free(s);
    VP_REACH();
}
/* ---- C19: how UUIDs are made */
static uint8_t *M; static uint64_t L, X, POS; static int INITS, FINALS; static zt_sha1_ctx *CTX; static uint8_t DG[20];
static const uint8_t NS[4][16] = {      /* RFC 4122, appendix C */
    { 0x6b, 0xa7, 0xb8, 0x10, 0x9d, 0xad, 0x11, 0xd1, 0x80, 0xb4, 0x00, 0xc0, 0x4f, 0xd4, 0x30, 0xc8 },
    { 0x6b, 0xa7, 0xb8, 0x11, 0x9d, 0xad, 0x11, 0xd1, 0x80, 0xb4, 0x00, 0xc0, 0x4f, 0xd4, 0x30, 0xc8 },
    { 0x6b, 0xa7, 0xb8, 0x12, 0x9d, 0xad, 0x11, 0xd1, 0x80, 0xb4, 0x00, 0xc0, 0x4f, 0xd4, 0x30, 0xc8 },
    { 0x6b, 0xa7, 0xb8, 0x14, 0x9d, 0xad, 0x11, 0xd1, 0x80, 0xb4, 0x00, 0xc0, 0x4f, 0xd4, 0x30, 0xc8 } };
static int KIND;
#if defined(VP_ZTV) && defined(MAKE)
void vp_contract_zt_sha1_init(zt_sha1_ctx *c) { INITS++; CTX = c; POS = 0; }
void vp_contract_zt_sha1_update(zt_sha1_ctx *c, uint8_t *d, size_t n) {
    VP_CHECK(INITS == 1 && FINALS == 0 && c == CTX, "hashing is started once");
    VP_CHECK(POS + n <= 16 + L, "nothing else is hashed");
    if (X >= POS && X < POS + n) VP_CHECK(d[X - POS] == (X < 16 ? NS[KIND][X & 15] : M[X - 16]), "the namespace, then the name are hashed");
    POS += n;
}
void vp_contract_zt_sha1_finalize(zt_sha1_ctx *c, uint8_t *d) {
    int i;
    VP_CHECK(INITS == 1 && c == CTX && POS == 16 + L, "the whole name is hashed");
    for (i = 0; i < 20; i++) DG[i] = d[i] = vp_u8();
    FINALS++;
}
#endif
static int made(zt_uuid_t *u, const uint8_t *d, int version) {
    int i;
    for (i = 0; i < 16; i++) if (u->data.bytes[i] != (i == 6 ? (d[i] & 15) | version << 4 : i == 8 ? (d[i] & 63) | 128 : d[i])) return 0;
    return 1;
}
#ifdef VP_ZTV
# define NAME(n) vp_bytes(n)
#else
# define NAME(n) vp_buf(n)
#endif
VP_ENTRY(h_uuid5) {
    zt_uuid_t u; int r, i;
    KIND = (int)vp_case(0, 3); L = VP_PICK(vp_range(0, (uint64_t)1 << 40), vp_range(0, 300)); X = vp_range(0, ((uint64_t)1 << 40) + 15);
    M = NAME(L);
    VP_ASSUME(X < 16 + L);
    r = zt_uuid5((char *)M, L, (zt_uuid_ns)KIND, &u);
    VP_CHECK(r == 0, "made");
#ifdef VP_ZTV
    VP_CHECK(FINALS == 1, "the digest is taken once");
#else
    { uint8_t *b = malloc(16 + L); for (i = 0; i < 16; i++) b[i] = NS[KIND][i]; for (; i < 16 + (int)L; i++) b[i] = M[i - 16]; zt_sha1_data(b, 16 + L, DG); free(b); }
#endif
    VP_CHECK(made(&u, DG, 5), "the first 16 octets of the digest, marked version 5 and variant 1");
    (void)i;
    VP_REACH();
}
VP_ENTRY(h_badns) {
    zt_uuid_t u; int k = (int)vp_u32(); uint8_t b[3] = { 1, 2, 3 };
    VP_ASSUME(k < 0 || k > 3);
    VP_CHECK(zt_uuid5((char *)b, 3, (zt_uuid_ns)k, &u) != 0, "an unknown namespace is refused");
    VP_REACH();
}
/* version 4: from four numbers of the generator, taken for this UUID alone */
extern zt_random_state *zt_uuid4_get_ctx(void);
static uint32_t R[8]; static int TAKEN, SEEDED; static zt_random_state *GEN;
#if defined(VP_ZTV) && defined(MAKE)
void *pthread_getspecific(unsigned k) { (void)k; return GEN; }
int pthread_setspecific(unsigned k, const void *p) { (void)k; GEN = (zt_random_state *)p; return 0; }
int pthread_key_create(unsigned *k, void (*f)(void *)) { *k = 1; (void)f; return 0; }
int pthread_once(int *o, void (*f)(void)) { if (!*o) { *o = 1; f(); } return 0; }
time_t time(time_t *t) { (void)t; return (time_t)vp_u64(); }
void vp_contract_zt_random_srandom(zt_random_state *s, uint32_t seed) { (void)seed; VP_CHECK(s == GEN && TAKEN == 0, "the thread's generator is seeded before it is used"); s->initialized = 0xD15EA5E; SEEDED++; }
uint32_t vp_contract_zt_random_uint32(zt_random_state *s) { VP_CHECK(s == GEN && TAKEN < 8, "four numbers of the thread's generator make a UUID"); R[TAKEN] = vp_u32(); return R[TAKEN++]; }
VP_ENTRY(h_uuid4) {
    zt_uuid_t u, v;
    VP_CHECK(zt_uuid4(&u) == 0 && TAKEN == 4 && SEEDED == 1, "made from four numbers");
    VP_CHECK(made(&u, (uint8_t *)R, 4), "all random but version 4 and variant 1");
    VP_CHECK(zt_uuid4(&v) == 0 && TAKEN == 8 && SEEDED == 1, "the next from four more, seeded only once");
    VP_CHECK(made(&v, (uint8_t *)(R + 4), 4), "all random but version 4 and variant 1");
    VP_REACH();
}
#else
VP_ENTRY(h_uuid4) {
    zt_uuid_t u; zt_random_state g, *s; int i, n = (int)vp_range(1, 4); uint32_t w[4];
    zt_uuid4(&u);
    s = zt_uuid4_get_ctx();
    zt_random_srandom(s, vp_u32());
    g = *s;
    while (n--) {
        for (i = 0; i < 4; i++) w[i] = zt_random_uint32(&g);
        VP_CHECK(zt_uuid4(&u) == 0 && made(&u, (uint8_t *)w, 4), "all random but version 4 and variant 1");
    }
    VP_REACH();
}
#endif

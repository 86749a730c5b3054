/* ipv4.c - C21: tables of IPv4 networks */
#include <zt.h>
#include <arpa/inet.h>
#include "vp.h"
/* the file under test as it is; the C library's reader of dotted addresses is the test's: it knows the texts the test passes */
static in_addr_t vp_inet_addr(const char *s);
#define inet_addr(s) vp_inet_addr(s)
#include "zt_ipv4_tbl.c"
#undef inet_addr
#ifndef KN
# define KN 1
#endif
#ifndef KSZ
# define KSZ 2
#endif
#ifndef KL0
# define KL0 0
#endif
/* a prefix length: all of them, or those of a list */
#ifdef KLIST
static unsigned len_of(void) { static const unsigned char L[] = { KLIST }; return L[vp_case(0, sizeof L - 1)]; }
# define LEN() VP_PICK(len_of(), (unsigned)vp_range(0, 32))
#else
# define LEN() ((unsigned)vp_case(0, 32))
#endif
#ifndef KT
# define KT 0
#endif
#define MAX 6
static uint32_t ADDR[MAX + 2]; static int MODE; static const char *TEXT; static size_t TLEN; static in_addr_t GIVEN;
static in_addr_t vp_inet_addr(const char *s) {
    if (MODE == 0) {                                   /* the n-th address */
        VP_CHECK(s[0] >= '0' && s[0] < '0' + MAX + 2 && s[1] == 0, "the address is the text before the slash");
        return htonl(ADDR[s[0] - '0']);
    } else {
        size_t i;
        for (i = 0; i < TLEN; i++) VP_CHECK(s[i] == TEXT[i], "the address is the text before the slash");
        VP_CHECK(s[TLEN] == 0, "and ends there");
        return GIVEN;
    }
}
static uint32_t mask_of(unsigned l) { return l ? 0xffffffffu << (32 - l) : 0; }
/* a name for address n with l bits */
static const char *name(char *t, int n, unsigned l, int plain) {
    int i = 0;
    t[i++] = (char)('0' + n);
    if (!plain) { t[i++] = '/'; if (l >= 10) t[i++] = (char)('0' + l / 10); t[i++] = (char)('0' + l % 10); }
    t[i] = 0;
    return t;
}
static int covers(unsigned l, uint32_t a, unsigned sl, uint32_t sa) { return sl >= l && ((a ^ sa) & mask_of(l)) == 0; }
/* networks of the given lengths and any addresses are added to one table while another one comes and goes; then one is looked for */
VP_ENTRY(h_history) {
    static const char *const dummy = "7/9";
    zt_ipv4_tbl *t, *o = NULL; zt_ipv4_node *n, *f; char tx[8]; unsigned l[3], sl; int i, m, k = (int)vp_fix(0, 3, KN), yes = 0, any = 0, other = (int)vp_fix(0, 3, KT), again; uint64_t base;
    uint64_t sz = vp_fix(0, 5, KSZ);
    l[0] = (unsigned)vp_fix(0, 32, KL0); l[1] = k > 1 ? LEN() : 0; l[2] = k > 2 ? LEN() : 0; sl = LEN();
    for (i = 0; i < MAX + 2; i++) ADDR[i] = vp_u32();
    MODE = 0;
    t = zt_ipv4_tbl_init(1); VP_ASSUME(t != NULL); zt_ipv4_tbl_destroy(t); base = vp_live();     /* what the library keeps once and for all */
    if (other == 1) { o = zt_ipv4_tbl_init(1); VP_ASSUME(o != NULL); }
    t = zt_ipv4_tbl_init((uint32_t)sz); VP_ASSUME(t != NULL);
    if (other >= 2) { o = zt_ipv4_tbl_init(1); VP_ASSUME(o != NULL); }
    if (o) { n = zt_ipv4_tbl_add_frm_str(o, dummy); VP_CHECK(n != NULL, "the other table takes a network"); }
    if (other == 3) { zt_ipv4_tbl_destroy(o); o = NULL; }
    for (i = 0; i < k; i++) {
        n = zt_ipv4_tbl_add_frm_str(t, name(tx, i, l[i], l[i] == 32 && (i & 1)));
        VP_CHECK(n != NULL, "a network is added");
        if (any) VP_CHECK(n->addr->bitlen == 0, "after all addresses nothing more is needed");
        else {
            VP_CHECK(n->addr->bitlen == l[i] && n->addr->mask == mask_of(l[i]), "with its length");
            VP_CHECK(n->addr->addr == (ADDR[i] & mask_of(l[i])) && n->addr->broadcast == (ADDR[i] | ~mask_of(l[i])), "its first and last address");
        }
        if (l[i] == 0) any = 1;
    }
    if (o) zt_ipv4_tbl_destroy(o);
    m = 0;
    for (i = 0; i < k; i++) if (covers(l[i], ADDR[i], sl, ADDR[MAX])) yes = 1;
    for (again = 0; again < 2; again++) {
        f = zt_ipv4_tbl_search_from_str(t, name(tx, MAX, sl, 0));
        VP_CHECK((f != NULL) == yes, "something is found just when an added network contains what is looked for");
        if (f) {
            VP_CHECK(covers(f->addr->bitlen, f->addr->addr, sl, ADDR[MAX]), "what is found contains it");
            for (m = i = 0; i < k; i++) if (f->addr->bitlen == l[i] && f->addr->addr == (ADDR[i] & mask_of(l[i]))) m = 1;
            VP_CHECK(m, "and was added");
        }
    }
    zt_ipv4_tbl_destroy(t);
    VP_CHECK(vp_live() == base, "the table's memory is released with it");
    VP_REACH();
}
/* networks of every length: nothing is found outside them */
VP_ENTRY(h_all) {
    zt_ipv4_tbl *t; char tx[8]; unsigned i; uint32_t a = (uint32_t)vp_range(0, 255), s;
    MODE = 0;
    t = zt_ipv4_tbl_init(VP_PICK(1, (uint32_t)vp_range(1, 63))); VP_ASSUME(t != NULL);
    ADDR[0] = a << 24 | 0x00800000u;
    for (i = 32; i >= 1; i--) { if (i == 8) ADDR[0] = ADDR[0] & 0xff000000u; VP_CHECK(zt_ipv4_tbl_add_frm_str(t, name(tx, 0, i, 0)) != NULL, "a network of each length"); }
    s = vp_u32();
    VP_ASSUME((s ^ ADDR[0]) >> 31);
    ADDR[1] = s;
    VP_CHECK(zt_ipv4_tbl_search_from_str(t, "1/32") == NULL, "none contains it");
    ADDR[1] = s ^ 0x80000000u;
    VP_CHECK(zt_ipv4_tbl_search_from_str(t, "1/32") != NULL, "the shortest contains it");
    zt_ipv4_tbl_destroy(t);
    VP_REACH();
}
/* one network within another */
VP_ENTRY(h_cmp) {
    zt_ipv4_addr h, n; unsigned hl = (unsigned)vp_range(0, 32), nl = (unsigned)vp_range(0, 32);
    memset(&h, 0, sizeof h); memset(&n, 0, sizeof n);
    h.bitlen = (uint8_t)hl; h.mask = mask_of(hl); h.addr = vp_u32() & h.mask; h.broadcast = h.addr | ~h.mask;
    n.bitlen = (uint8_t)nl; n.mask = mask_of(nl); n.addr = vp_u32() & n.mask; n.broadcast = n.addr | ~n.mask;
    VP_CHECK((ipv4_tbl_addr_cmp(&h, &n) != 0) == covers(hl, h.addr, nl, n.addr), "compare finds what is contained");
    VP_REACH();
}
#ifndef KA
# define KA 7
#endif
#ifndef KB
# define KB 1
#endif
/* a network in text: any characters (KA of them) as the address, then no slash, or one and KB digits, perhaps with a sign */
VP_ENTRY(h_text) {
    size_t a = vp_fix(0, 18, KA), b = vp_fix(0, 4, KB), i, n; char *t; uint32_t out = 0x5a5a5a5au; int bl = 77, r, neg = 0; unsigned v = 0;
    MODE = 1;
    n = a + b;                                  /* b: 0 no slash, else a slash and b - 1 more */
    t = malloc(n + 1); VP_ASSUME(t != NULL);
    for (i = 0; i < a; i++) { t[i] = (char)vp_u8(); VP_ASSUME(t[i] != 0 && t[i] != '/'); }
    if (b) {
        t[a] = '/';
        if (b > 1 && vp_range(0, 1)) neg = 1;
        for (i = 1; i < b; i++) {
            if (i == 1 && neg) { t[a + i] = '-'; continue; }
            t[a + i] = (char)('0' + vp_range(0, 9)); v = v * 10 + (unsigned)(t[a + i] - '0');
        }
    }
    t[n] = 0;
    TEXT = t; TLEN = a; GIVEN = vp_u32();
    r = zt_ipv4_str2net(t, &out, &bl);
    if (a > 15 || (neg && v > 0)) { VP_CHECK(r != 0, "too long for an address, or a length below zero: refused"); VP_CHECK(bl == 77 && out == 0x5a5a5a5au, "and nothing is stored"); }
    else {
        VP_CHECK(r == 0, "accepted");
        VP_CHECK(out == ntohl(GIVEN), "the address, in host order");
        VP_CHECK(bl == (b == 0 || v > 32 ? 32 : (int)v), "the length: 32 unless a smaller one is given");
    }
    free(t);
    VP_CHECK(vp_live() == 0, "nothing leaks");
    VP_REACH();
}

/* table.c - C10: hash tables as maps.  C11: sets. */
#include <zt.h>
#include <errno.h>
#include <strings.h>
#include "vp.h"
#ifndef STEPS
# define STEPS VP_PICK(4, 8)
#endif
#ifndef KA
# define KA 0
#endif
#ifndef PAT
# define PAT 0
#endif
#ifdef VP_ZTV
/* the contracts of the pools (C13): init gives an empty pool, alloc memory of its own of the pool's element size, release gives it back */
struct vp_pool { size_t size; };
static zt_mem_pool *tablepool;
zt_mem_pool *vp_contract_zt_mem_pool_get(char *name) { (void)name; return tablepool; }
zt_mem_pool *vp_contract_zt_mem_pool_init(char *name, ssize_t elts, size_t size, zt_page_release_test rt, void *cd, int flags) {
    struct vp_pool *p = malloc(sizeof(*p)); vp_check(name != NULL, "precondition of zt_mem_pool_init: a name"); vp_check(elts >= 0, "precondition of zt_mem_pool_init: a number of elements"); p->size = size;
    if (name[0] == 'z' && name[1] == 't' && name[2] == '.') tablepool = (zt_mem_pool *)p;
    return (zt_mem_pool *)p; }
void *vp_contract_zt_mem_pool_alloc(zt_mem_pool *p) { return malloc(((struct vp_pool *)p)->size); }
void vp_contract_zt_mem_pool_release(void **d) { free(*d); }
int vp_contract_zt_mem_pool_destroy(zt_mem_pool **p) { free(*p); *p = NULL; return 0; }
# ifdef SMALLTABLE
/* tables behave the same whatever their size (C10): sets are verified over tables of 4 buckets */
zt_table *vp_contract_zt_table_init(char *name, zt_table_hash_func_cb f, zt_table_compare_cb c, size_t hint, int flags, void *cd) { return zt_table_init(name, f, c, 2, flags, cd); }
# endif
#endif
#define NK 3
/* keys are small objects compared by what they hold; their hash values are any of the patterns below */
struct key { int id; };
static struct key K[NK] = { { 0 }, { 1 }, { 2 } }, K2[NK] = { { 0 }, { 1 }, { 2 } };
static const unsigned long H[6][NK] = {
    { 5, 5, 5 },                                    /* same hash */
    { 0x10, 0x20, 0x30 },                           /* may share buckets, different hashes */
    { 0, 1, 2 },
    { 7, 7, 0xffffffffUL },
    { 0x8000000000000001UL, 0xffffffffffffffffUL, 0x100000000UL },  /* wider than 32 bits */
    { 3, 1UL << 40, 3 } };
static unsigned long kh(const void *k, size_t n, void *cd) { (void)n; return H[*(int *)cd][((const struct key *)k)->id]; }
static int kc(const void *a, size_t an, const void *b, size_t bn, void *cd) { (void)an; (void)bn; (void)cd; return ((const struct key *)a)->id == ((const struct key *)b)->id; }
struct ent { int k; long d; };
static struct ent M[16]; static int mn;
static int seen[16], visits, stopat;
static int walk(void *k, size_t kn, void *d, size_t dn, void *p) {
    int i, id = ((struct key *)k)->id;
    VP_CHECK(kn == sizeof(struct key) && dn == 77 && p == (void *)M, "the walk passes on lengths and the parameter");
    for (i = 0; i < mn; i++) if (M[i].k == id && M[i].d == (long)d && !seen[i]) break;
    VP_CHECK(i < mn, "the walk visits only what is in the table, once");
    seen[i] = 1;
    return ++visits == stopat ? 42 : 0;
}
static void check(zt_table *t) {
    int k, i, r;
    for (k = 0; k < NK; k++) {
        for (i = mn - 1; i >= 0 && M[i].k != k; i--) ;
        errno = 0;
        { void *d = zt_table_get(t, &K2[k], sizeof(struct key));
          if (i >= 0) VP_CHECK(d == (void *)M[i].d, "get returns the datum last set for an equal key");
          else VP_CHECK(d == NULL && errno == ENOENT, "get of a key that is not there is NULL and ENOENT"); }
    }
    for (i = 0; i < 16; i++) seen[i] = 0;
    visits = 0; stopat = 0;
    r = zt_table_for_each(t, walk, M);
    VP_CHECK(r == 0 && visits == mn, "the walk visits everything");
    if (mn > 1) {
        for (i = 0; i < 16; i++) seen[i] = 0;
        visits = 0; stopat = 1;
        r = zt_table_for_each(t, walk, M);
        VP_CHECK(r == 42 && visits == 1, "the walk stops when the iterator says so and passes its value on");
    }
}
VP_ENTRY(h_history) {
    static const size_t hints[] = { 0, 1, 2, 3, 5, 3 }; static int pat;
    int dup, hi, i, j, r; zt_table *t, *u;
    pat = vp_fix(0, 5, PAT); dup = vp_case(0, 1); hi = vp_case(0, 5);
    t = zt_table_init(hi & 1 ? "t" : NULL, kh, kc, hints[hi], (hi < 5 ? ZT_TABLE_SIZE_USE_HINT : 0) | (dup ? ZT_TABLE_ALLOW_DUP_KEYS : 0), &pat);
    VP_ASSUME(t != NULL);
    mn = 0;
    check(t);
    /* any table three insertions can build, then any operations */
    { int n0 = vp_case(0, 3);
    for (i = 0; i < STEPS + n0; i++) {
        int op = i < n0 ? 0 : vp_case(0, 1), k = vp_case(0, NK - 1);
        if (op == 0) {
            r = zt_table_set(t, &K[k], sizeof(struct key), (void *)(long)(100 + i), 77);
            for (j = 0; j < mn && M[j].k != k; j++) ;
            if (j < mn && !dup) VP_CHECK(r == 1, "setting a key that is there fails");
            else { VP_CHECK(r == 0, "setting a new key succeeds"); M[mn].k = k; M[mn].d = 100 + i; mn++; }
        } else {
            void *d; errno = 0;
            d = zt_table_del(t, &K2[k], sizeof(struct key));
            for (j = mn - 1; j >= 0 && M[j].k != k; j--) ;
            if (j >= 0) { VP_CHECK(d == (void *)M[j].d, "deleting returns the datum"); for (; j + 1 < mn; j++) M[j] = M[j + 1]; mn--; }
            else VP_CHECK(d == NULL && errno == ENOENT, "deleting a key that is not there is NULL and ENOENT");
        }
        if (i >= n0 - 1) check(t);
    } }
    u = zt_table_init("u", kh, kc, 0, dup ? ZT_TABLE_ALLOW_DUP_KEYS : 0, &pat);
    VP_ASSUME(u != NULL);
    r = zt_table_copy(t, u);
    VP_CHECK(r == (mn > 0), "copying says whether there was anything to copy");
    if (!dup) check(u);
    check(t);
    zt_table_destroy(u); zt_table_destroy(t);
    VP_REACH();
}
/* long chains: KN keys, all in one bucket or in a few, then two keys are deleted, one perhaps set again */
#ifndef KN
# define KN 6
#endif
#define LK 12
static struct key LKEY[LK + 1], LKEY2[LK + 1]; static int KIND;
static unsigned long lh(const void *k, size_t n, void *cd) { int id = ((const struct key *)k)->id; (void)n; (void)cd; return KIND == 0 ? 9 : KIND == 1 ? 16ul * id : KIND == 2 ? (unsigned long)(id / 3) * 64 : (unsigned long)id; }
static long HAS[LK + 1]; static int HN, WALKED[LK + 1];
static int lwalk(void *k, size_t kn, void *d, size_t dn, void *p) { int id = ((struct key *)k)->id; (void)p; VP_CHECK(kn == sizeof(struct key) && dn == 77, "lengths"); VP_CHECK(HAS[id] == (long)d && !WALKED[id], "the walk visits only what is in the table, once"); WALKED[id] = 1; return 0; }
static void lcheck(zt_table *t, int n) {
    int i, c = 0;
    for (i = 0; i <= n; i++) { void *d; errno = 0; d = zt_table_get(t, &LKEY2[i], sizeof(struct key)); VP_CHECK(d == (void *)HAS[i] && (d || errno == ENOENT), "get returns the datum last set for an equal key, and nothing for others"); WALKED[i] = 0; c += HAS[i] != 0; }
    VP_CHECK(c == HN, "(count)");
    VP_CHECK(zt_table_for_each(t, lwalk, NULL) == 0, "the walk goes through");
    for (i = 0; i <= n; i++) VP_CHECK(WALKED[i] == (HAS[i] != 0), "the walk visits everything");
}
VP_ENTRY(h_chain) {
    int n = (int)vp_fix(0, LK, KN), i, j; zt_table *t; static const size_t hints[] = { 1, 3, 4 };
    KIND = (int)vp_case(0, 3); HN = 0;
    for (i = 0; i <= LK; i++) { LKEY[i].id = LKEY2[i].id = i; HAS[i] = 0; }
    t = zt_table_init("t", lh, kc, hints[vp_case(0, 2)], ZT_TABLE_SIZE_USE_HINT, NULL); VP_ASSUME(t != NULL);
    for (i = 0; i < n; i++) { VP_CHECK(zt_table_set(t, &LKEY[i], sizeof(struct key), (void *)(long)(100 + i), 77) == 0, "setting a new key succeeds"); HAS[i] = 100 + i; HN++; }
    lcheck(t, n);
    for (j = 0; j < 2; j++) {
        void *d;
        i = (int)vp_case(0, n); errno = 0;
        d = zt_table_del(t, &LKEY2[i], sizeof(struct key));
        VP_CHECK(d == (void *)HAS[i] && (d || errno == ENOENT), "deleting returns the datum, or ENOENT");
        if (HAS[i]) HN--;
        HAS[i] = 0;
        lcheck(t, n);
    }
    VP_CHECK(zt_table_set(t, &LKEY[i], sizeof(struct key), (void *)500L, 77) == 0, "a deleted key can be set"); HAS[i] = 500; HN++;
    VP_CHECK(zt_table_set(t, &LKEY2[i], sizeof(struct key), (void *)600L, 77) == 1, "setting a key that is there fails");
    lcheck(t, n);
    zt_table_destroy(t);
    VP_REACH();
}
/* the supplied hash and comparison functions agree: equal keys hash alike, and comparison is equality of what the key denotes */
VP_ENTRY(h_buff) {
    size_t n = vp_case(0, 4), m = vp_case(0, 4), i; unsigned char *a = vp_buf(n), *b = vp_buf(m); int eq = n == m;
    for (i = 0; i < n && i < m; i++) eq &= a[i] == b[i];
    VP_CHECK(!!zt_table_compare_buff(a, n, b, m, NULL) == eq, "buffers are equal when all their bytes are");
    if (n == m && eq) VP_CHECK(zt_table_hash_buff(a, n, NULL) == zt_table_hash_buff(b, m, NULL), "equal buffers hash alike");
    VP_REACH();
}
VP_ENTRY(h_string) {
    size_t n = vp_case(0, 3), m = vp_case(0, 3), i; char *a = vp_buf(n + 1), *b = vp_buf(m + 1); int eq = n == m;
    for (i = 0; i < n; i++) VP_ASSUME(a[i] != 0);
    for (i = 0; i < m; i++) VP_ASSUME(b[i] != 0);
    a[n] = 0; b[m] = 0;
    for (i = 0; i < n && i < m; i++) eq &= a[i] == b[i];
    VP_CHECK(!!zt_table_compare_string(a, n, b, m, NULL) == eq, "strings are equal when all their characters are");
    if (eq) { VP_CHECK(zt_table_hash_string(a, n, NULL) == zt_table_hash_string(b, m, NULL), "equal strings hash alike");
              VP_CHECK(zt_table_compare_string_case(a, n, b, m, NULL), "equal strings are equal without regard to case"); }
    VP_CHECK(!!zt_table_compare_string_case(a, n, b, m, NULL) == (strcasecmp(a, b) == 0), "comparison without regard to case");
    VP_REACH();
}
VP_ENTRY(h_int) {
    uint64_t a = vp_u64(), b = vp_u64(); size_t n = vp_case(1, 8); uint64_t mask = n == 8 ? ~0ull : (1ull << 8 * n) - 1;
    VP_ASSUME((a & ~mask) == 0 && (b & ~mask) == 0);
    VP_CHECK(!!zt_table_compare_int((void *)a, n, (void *)b, n, NULL) == (a == b), "integer keys are equal when their values are");
    VP_REACH();
}
/* ---- C11: the set algebra over small integers ---- */
#define SN 4
static zt_set *mk(unsigned bits, int rev) { int i; zt_set *s = zt_set_init(zt_table_compare_int, NULL, NULL);
    for (i = 0; i < SN; i++) { int e = rev ? SN - 1 - i : i; if (bits >> e & 1) VP_CHECK(zt_set_insert(s, (void *)(long)(e * 5), sizeof(long)) == 0, "inserting a new element succeeds"); } return s; }
static unsigned got; static int stopat2;
static int gather(void *d, void *p) { long e = (long)d; VP_CHECK(p == (void *)&got && e >= 0 && e % 5 == 0 && e / 5 < SN && !(got >> e / 5 & 1), "the walk visits only members, once"); got |= 1u << e / 5; return 0; }
static void is(zt_set *s, unsigned bits, const char *m) {
    int i, n = 0; (void)m;
    for (i = 0; i < SN; i++) { VP_CHECK(zt_set_is_member(s, (void *)(long)(i * 5), sizeof(long)) == (int)(bits >> i & 1), "membership"); n += bits >> i & 1; }
    got = 0; VP_CHECK(zt_set_for_each(s, gather, &got) == 0 && got == bits, "the walk visits every member");
    VP_CHECK(s->length == n && zt_set_size(s) == n, "the size is the number of members");
}
VP_ENTRY(h_algebra) {
    unsigned a = vp_fix(0, (1 << SN) - 1, KA), b = vp_case(0, (1 << SN) - 1); zt_set *s = mk(a, 0), *t = mk(b, 1), *r;
    r = mk(0, 0); zt_set_union(r, s, t); is(r, a | b, "union"); zt_set_destroy(r);
    r = mk(0, 0); zt_set_intersection(r, s, t); is(r, a & b, "intersection"); zt_set_destroy(r);
    r = mk(0, 0); zt_set_difference(r, s, t); is(r, a & ~b, "difference"); zt_set_destroy(r);
    VP_CHECK(zt_set_is_subset(s, t) == ((a & ~b) == 0), "subset");
    VP_CHECK(zt_set_is_equal(s, t) == (a == b), "equality");
    is(s, a, "left"); is(t, b, "right");
    /* into a set that already holds something */
    { unsigned c = vp_case(0, 2) * 5; r = mk(c, 0); zt_set_union(r, s, t); is(r, a | b | c, "union"); zt_set_intersection(r, s, t); is(r, a | b | c, "intersection"); zt_set_destroy(r);
      r = mk(c, 0); zt_set_difference(r, s, t); is(r, (a & ~b) | c, "difference"); zt_set_destroy(r); }
    zt_set_destroy(s); zt_set_destroy(t);
    VP_REACH();
}
static unsigned destroyed;
static void destroyer(void *d) { destroyed += 1u << (4 * ((long)d / 5)); }
VP_ENTRY(h_sethist) {
    int i; unsigned m = 0; zt_set *s = zt_set_init(zt_table_compare_int, destroyer, NULL);
    for (i = 0; i < STEPS; i++) {
        int op = vp_case(0, 1), e = vp_case(0, SN - 1); void *p = (void *)(long)(e * 5);
        if (op == 0) { VP_CHECK(zt_set_insert(s, p, sizeof(long)) == (int)(m >> e & 1), "inserting says whether the element was there"); m |= 1u << e; }
        else { void *q = p; int r = zt_set_remove(s, &q);
               if (m >> e & 1) VP_CHECK(r == 0 && q == p, "removing a member succeeds and gives it back");
               else VP_CHECK(q == NULL, "removing what is not a member gives nothing back");
               m &= ~(1u << e); }
        is(s, m, "history");
    }
    destroyed = 0;
    zt_set_destroy(s);
    { unsigned want = 0; for (i = 0; i < SN; i++) if (m >> i & 1) want += 1u << 4 * i; VP_CHECK(destroyed == want, "destroying a set destroys each member once"); }
    VP_REACH();
}

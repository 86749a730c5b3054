/* pool.c - C13: memory pools, pool groups and heaps */
#include <zt.h>
#include "vp.h"
#ifndef KC
# define KC 0
#endif
#ifndef STEPS
# define STEPS VP_PICK(4, 10)
#endif
#define NL 12
static unsigned char *L[NL]; static int ln, sn; static unsigned char tagof[NL];
static size_t ES;                                   /* size asked for */
static void mark(unsigned char *p, unsigned char t) { if (ES) { p[0] = t; p[ES / 2] = t; p[ES - 1] = t; } }   /* overlap shows as a lost mark */
static void kept(void) {
    int i, j;
    for (i = 0; i < ln; i++) {
        if (ES) VP_CHECK(L[i][0] == tagof[i] && L[i][ES / 2] == tagof[i] && L[i][ES - 1] == tagof[i], "an element keeps its contents until it is released");
        for (j = 0; j < i; j++) VP_CHECK(L[i] != L[j], "elements in use do not overlap");
    }
}
static int never, asked, answer; static int cbdata;
static int rtest(size_t t, size_t f, size_t c, int flags, void *d) { (void)t; (void)f; (void)c; VP_CHECK(flags == (never ? POOL_NEVER_FREE : 0) && d == &cbdata, "the release test gets the flags and data of the pool"); asked++; return answer; }
static void stats(zt_mem_pool *p) {
    zt_mem_pool_stats s;
    VP_CHECK(zt_mem_pool_get_stats(p, &s) == ZT_PASS, "statistics can be had");
    VP_CHECK(s.pages == s.page_allocs - s.page_frees, "pages there are the pages allocated and not freed");
    VP_CHECK(s.elt_size >= ES && s.elts_per_page > 0, "an element is as large as asked for");
    VP_CHECK(s.free_pages <= s.pages, "free pages are pages");
    VP_CHECK((s.pages - s.free_pages) * s.elts_per_page >= (size_t)ln && (s.pages - s.free_pages) <= (size_t)ln, "pages in use are those with an element in use");
    VP_CHECK(s.flags == (never ? POOL_NEVER_FREE : 0), "flags");
}
static void release(int i) { void *p = L[i]; L[i] = L[ln - 1]; tagof[i] = tagof[ln - 1]; ln--; zt_mem_pool_release(&p); }
/* any sequence of allocations and releases in pools whose pages hold 1, 2, 3 elements */
VP_ENTRY(h_history) {
    int i, k = vp_fix(0, 11, KC), epp = 1 + k % 3, mode = k / 3; zt_mem_pool *p; unsigned char t = 1;
#ifdef VP_ZTV
    uint64_t live;
    zt_mem_pool *warm = zt_mem_pool_init(NULL, 1, 5000, NULL, NULL, 0); zt_mem_pool_destroy(&warm);
    live = vp_live();
#endif
    ES = 3000; ln = 0; never = mode == 1; asked = 0; answer = mode & 1;     /* modes: default test; default, never free; own test says no; own test says yes */
    p = zt_mem_pool_init("history", epp, ES, mode >= 2 ? rtest : NULL, mode >= 2 ? &cbdata : NULL, never ? POOL_NEVER_FREE : 0);
    VP_ASSUME(p != NULL);
    VP_CHECK(zt_mem_pool_get("history") == p && zt_mem_pool_get("histor") == NULL, "a pool is found by its name");
    stats(p);
    for (i = 0; i < STEPS; i++) {
        int op = vp_case(0, ln + 1);
        if (op == 0) { if (ln == NL) break; L[ln] = zt_mem_pool_alloc(p); VP_CHECK(L[ln] != NULL, "allocation succeeds"); tagof[ln] = t; mark(L[ln], t); ln++; t++; }
        else if (op <= ln) { zt_mem_pool_stats s, u; zt_mem_pool_get_stats(p, &s); asked = 0; release(op - 1); zt_mem_pool_get_stats(p, &u);
            VP_CHECK(u.pages <= s.pages, "releasing adds no page");
            if (mode == 1 || mode == 2) VP_CHECK(u.pages == s.pages, "no page is freed when the release test says so");
            else VP_CHECK(u.pages == s.pages - (u.pages - u.free_pages < s.pages - s.free_pages), "a page all of whose elements are free is freed when the release test says so");
            if (mode >= 2) VP_CHECK(asked == (u.pages - u.free_pages < s.pages - s.free_pages), "the release test is asked when a page becomes free"); }
        else { zt_mem_pool_stats u; zt_mem_pool_release_free_pages(p); zt_mem_pool_get_stats(p, &u); VP_CHECK(u.free_pages == 0, "release_free_pages frees them all"); }
        kept(); stats(p);
    }
    if (ln) { zt_mem_pool *q = p; VP_CHECK(zt_mem_pool_destroy(&q) == -1 && q == p, "a pool with elements in use is not destroyed");
        kept(); stats(p); VP_CHECK(zt_mem_pool_get("history") == p, "and stays usable");
        L[ln] = zt_mem_pool_alloc(p); tagof[ln] = 200; mark(L[ln], 200); ln++; kept(); stats(p); }
    while (ln) { release(0); kept(); stats(p); }
    VP_CHECK(zt_mem_pool_destroy(&p) == 0 && p == NULL, "a pool without elements in use is destroyed");
    VP_CHECK(zt_mem_pool_get("history") == NULL, "and no longer found");
#ifdef VP_ZTV
    VP_CHECK(vp_live() == live, "destroying a pool gives back everything");
#endif
    VP_REACH();
}
/* the layout of pages: element sizes from nothing to more than a page */
VP_ENTRY(h_layout) {
    static const size_t sizes[] = { 0, 1, 5, 8, 13, 24, 100, 500, 1000, 2031, 2032, 5001 }; static const int elts[] = { 0, 1, 2, 7 };
    zt_mem_pool *p; zt_mem_pool_stats s; unsigned char **e; size_t i, n; int k = vp_fix(0, 11, KC), ne = elts[vp_case(0, 3)];
    ES = sizes[k]; never = 0; ln = 0;
    p = zt_mem_pool_init(NULL, ne, ES, NULL, NULL, 0); VP_ASSUME(p != NULL);
    stats(p); zt_mem_pool_get_stats(p, &s);
    VP_CHECK(s.requested_elts == (size_t)ne && s.actual_elts >= (size_t)ne && s.pages >= 1, "statistics of a new pool");
    VP_CHECK(s.free_pages == s.pages, "all its pages are free");
    n = s.elts_per_page + 1; e = malloc(n * sizeof(*e)); VP_ASSUME(e != NULL);
    /* every element of a page, and one more: all are memory of their own, writable over their whole size */
    for (i = 0; i < n; i++) { e[i] = zt_mem_pool_alloc(p); VP_CHECK(e[i] != NULL && ((uintptr_t)e[i] & 7) == 0, "elements are aligned"); if (ES) { e[i][0] = i; e[i][ES - 1] = i; } }
    for (i = 0; i < n && ES; i++) VP_CHECK(e[i][0] == (unsigned char)i && (ES == 1 || e[i][ES - 1] == (unsigned char)i), "elements do not overlap");
    zt_mem_pool_get_stats(p, &s);
    VP_CHECK(s.pages - s.free_pages == 2, "one more element than a page holds takes a second page");
    for (i = n; i-- > 0; ) { void *q = e[i]; zt_mem_pool_release(&q); }
    zt_mem_pool_get_stats(p, &s); VP_CHECK(s.pages == s.free_pages, "all are free again");
    VP_CHECK(zt_mem_pool_destroy(&p) == 0, "destroying");
    VP_REACH(); free(e);
}
/* groups: a request is served by the first pool whose elements are large enough */
VP_ENTRY(h_group) {
    int n = vp_case(1, 3), named = vp_case(1, 3), i; size_t req = vp_range(0, 30), z[3]; zt_mem_pool_desc d[4]; static char *names[] = { "g0", "g1", "g2" }; zt_mem_pool_group *g; unsigned char *p; size_t best;
#ifdef VP_ZTV
    uint64_t live;
    zt_mem_pool *warm = zt_mem_pool_init(NULL, 1, 5000, NULL, NULL, 0); zt_mem_pool_destroy(&warm);
    live = vp_live();
#endif
    memset(d, 0, sizeof d);
    if (named > n) named = n;
    for (i = 0; i < n; i++) { z[i] = 3000 + vp_case(0, 2) * 1000; d[i].name = i < named ? names[i] : NULL; d[i].elts = 1; d[i].size = z[i]; }
    g = zt_mem_pool_group_init(d, n); VP_ASSUME(g != NULL);
    for (i = 0; i < named; i++) VP_CHECK(zt_mem_pool_get(names[i]) != NULL, "each described pool is there");
    req = vp_case(0, 2) * 1000 + 2999 + vp_case(0, 1);
    for (i = 0; i < named && z[i] < req; i++) ;
    if (i < named) {
        zt_mem_pool_stats a, b; void *v; int j;
        p = zt_mem_pool_group_alloc(g, req);
        VP_CHECK(p != NULL, "a request some pool can serve is served");
        p[0] = 1; p[req - 1] = 2;
        for (j = 0; j < named; j++) { zt_mem_pool_get_stats(zt_mem_pool_get(names[j]), &a); VP_CHECK((a.pages - a.free_pages == 1) == (j == i), "by the first pool whose elements are large enough"); }
        best = i; (void)best; (void)b;
        v = p; zt_mem_pool_group_release(&v);
        for (j = 0; j < named; j++) { zt_mem_pool_get_stats(zt_mem_pool_get(names[j]), &a); VP_CHECK(a.pages == a.free_pages, "and given back to it"); }
    }
    VP_CHECK(zt_mem_pool_group_destroy(g) == 0, "destroying a group");
    for (i = 0; i < named; i++) VP_CHECK(zt_mem_pool_get(names[i]) == NULL, "its pools are gone");
#ifdef VP_ZTV
    VP_CHECK(vp_live() == live, "destroying a group gives back everything");
#endif
    VP_REACH();
}
VP_ENTRY(h_heap) {
    size_t n = vp_size(100), k; int nm = vp_case(0, 1); zt_mem_heap *h; uint8_t *d, *src = vp_buf(n);
#ifdef VP_ZTV
    uint64_t live = vp_live();
#endif
    h = zt_mem_heap_init(nm ? "heap" : NULL, n); VP_ASSUME(h != NULL);
    VP_CHECK(strcmp(zt_mem_heap_get_name(h), nm ? "heap" : "*unknown*") == 0, "the name of a heap");
    d = zt_mem_heap_get_data(h);
    if (n) memcpy(d, src, n);
    VP_FORALL(k, n) VP_CHECK(d[k] == src[k], "a heap has room for the size asked for");
    VP_CHECK(strcmp(zt_mem_heap_get_name(h), nm ? "heap" : "*unknown*") == 0, "using it leaves its name alone");
    zt_mem_heap_destroy(&h);
    VP_CHECK(h == NULL && zt_mem_heap_get_name(NULL) == NULL, "destroying");
#ifdef VP_ZTV
    VP_CHECK(vp_live() == live, "destroying a heap gives back everything");
#endif
    VP_REACH(); free(src);
}

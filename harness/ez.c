/* ez.c - C14: hierarchical pools own what was put into them */
#include <zt.h>
#include "vp.h"
#ifndef STEPS
# define STEPS VP_PICK(4, 12)
#endif
#ifndef K0
# define K0 0
#endif
#define NP 5
#define NC 20
static zt_ez_mempool *P[NP]; static int par[NP], np;
static unsigned char *C[NC]; static int owner[NC], freed[NC], cbk[NC], nc; static size_t len[NC];
static char stat0[NC];
static void note(void *d) { int i; for (i = 0; i < nc; i++) if (d == C[i]) { freed[i]++; if (cbk[i] == 1) free(d); return; } VP_CHECK(0, "the free callback gets memory of the pool"); }
static int under(int p, int r) { for (; p >= 0; p = par[p]) if (p == r) return 1; return 0; }
static void kept(void) { int i; for (i = 0; i < nc; i++) { VP_CHECK(freed[i] == 0 || P[owner[i]] == NULL, "nothing is freed while its pool lives"); if (P[owner[i]] && cbk[i] != 3 && len[i]) VP_CHECK(C[i][0] == (unsigned char)(i + 1) && C[i][len[i] - 1] == (unsigned char)(i + 1), "memory keeps its contents while its pool lives"); } }
static void destroy(int r) {
    int i;
    zt_ez_mempool_destroy(P[r]);
    for (i = 0; i < np; i++) if (P[i] && i != r && under(i, r)) P[i] = NULL;
    P[r] = NULL;
    for (i = 0; i < nc; i++) if (cbk[i] == 1 || cbk[i] == 2) VP_CHECK(freed[i] == (P[owner[i]] == NULL), "the free callback is called exactly once, when the pool or one above it is destroyed");
}
VP_ENTRY(h_history) {
    int i, j; 
#ifdef VP_ZTV
    uint64_t live = vp_live();
#endif
    np = 1; nc = 0; P[0] = zt_ez_mempool_init(NULL); par[0] = -1; VP_ASSUME(P[0] != NULL);
    /* every tree of up to four pools */
    { static const signed char shape[10][3] = { { -1, -1, -1 }, { 0, -1, -1 }, { 0, 0, -1 }, { 0, 1, -1 }, { 0, 0, 0 }, { 0, 0, 1 }, { 0, 0, 2 }, { 0, 1, 0 }, { 0, 1, 1 }, { 0, 1, 2 } }; int k = vp_fix(0, 9, K0);
      for (i = 0; i < 3 && shape[k][i] >= 0; i++) { P[np] = zt_ez_mempool_init(P[(int)shape[k][i]]); VP_ASSUME(P[np] != NULL); par[np] = shape[k][i]; np++; } }
    /* each with something in it */
    for (i = 0; i < np; i++) { C[nc] = (unsigned char *)&stat0[nc]; len[nc] = 1; cbk[nc] = 2; owner[nc] = i; freed[nc] = 0; C[nc][0] = nc + 1; VP_CHECK(zt_ez_mempool_add_buffer(P[i], C[nc], 1, note) == 0, "adding a buffer succeeds"); nc++; }
    for (i = 0; i < STEPS; i++) {
        int op = vp_case(0, 5), p = vp_case(0, np - 1);
        if (P[p] == NULL) continue;
        if (op < 5 && nc == NC) continue;
        if (op == 0) { if (np == NP) continue; P[np] = zt_ez_mempool_init(P[p]); VP_ASSUME(P[np] != NULL); par[np] = p; np++; }
        else if (op <= 2) {                                   /* 1: own callback, which frees; 3: no callback */
            len[nc] = op == 1 ? 5 : 1; cbk[nc] = op == 1 ? 1 : 0; owner[nc] = p; freed[nc] = 0;
            C[nc] = zt_ez_mempool_alloc(P[p], len[nc], op == 1 ? note : NULL); VP_ASSUME(C[nc] != NULL);
            for (j = 0; j < (int)len[nc]; j++) VP_CHECK(C[nc][j] == 0, "memory from the pool is zero");
            C[nc][0] = C[nc][len[nc] - 1] = nc + 1; nc++;
        }
        else if (op == 3) {                                   /* somebody else's memory, with a callback that frees nothing */
            C[nc] = (unsigned char *)&stat0[nc]; len[nc] = 1; cbk[nc] = 2; owner[nc] = p; freed[nc] = 0; C[nc][0] = nc + 1;
            VP_CHECK(zt_ez_mempool_add_buffer(P[p], C[nc], 1, note) == 0, "adding a buffer succeeds"); nc++;
            VP_CHECK(zt_ez_mempool_add_buffer(P[p], NULL, 1, note) == -1, "adding nothing fails");
        }
        else if (op == 4) {
            int e = p & 1; char *s = zt_ez_mempool_strdup(P[p], e ? "" : "abc");
            VP_CHECK(s != NULL && strcmp(s, e ? "" : "abc") == 0, "strdup gives a copy of the string");
            C[nc] = (unsigned char *)s; cbk[nc] = 3; owner[nc] = p; freed[nc] = 0; len[nc] = 0; nc++;
        }
        else if (p > 0) destroy(p);
        kept();
        for (j = 0; j < nc; j++) if (cbk[j] == 3 && P[owner[j]]) VP_CHECK(C[j][0] == 0 || strcmp((char *)C[j], "abc") == 0, "a string keeps its contents while its pool lives");
    }
    destroy(0);
#ifdef VP_ZTV
    VP_CHECK(vp_live() == live, "destroying a pool gives back everything in it and below it");
#endif
    VP_REACH();
}
static int CALLS; static void *LAST; static void once(void *d) { CALLS++; LAST = d; free(d); }
VP_ENTRY(h_size) {
    int with = (int)vp_case(0, 1);
    size_t n = vp_size(200), k; zt_ez_mempool *p = zt_ez_mempool_init(NULL); uint8_t *d, *src; VP_ASSUME(p != NULL);
#ifdef VP_ZTV
    uint64_t live = vp_live();
#endif
    CALLS = 0;
    src = vp_buf(n);
    d = zt_ez_mempool_alloc(p, n, with ? once : NULL); VP_ASSUME(d != NULL);
    VP_FORALL(k, n) VP_CHECK(d[k] == 0, "memory from the pool is zero");
    memcpy(d, src, n);
    VP_FORALL(k, n) VP_CHECK(d[k] == src[k], "memory has the size asked for");
    VP_CHECK(CALLS == 0, "kept while the pool lives");
    zt_ez_mempool_destroy(p); free(src);
    VP_CHECK(CALLS == with && (!with || LAST == d), "the callback is called once, with the memory");
#ifdef VP_ZTV
    VP_CHECK(vp_live() == live - 1, "destroying gives back everything");
#endif
    VP_REACH();
}

/* gc.c - C31: the collector releases what cannot be reached, and nothing else */
#include <zt.h>
#include "zt_gc.h"
#include "vp.h"
#ifndef KN
# define KN 3
#endif
#define NV VP_PICK(KN, 6)
struct value { zt_gc_collectable_t mark; uint64_t refs; };
static struct value V[6];
static int REG[6], PROT[6], FREED[6], MARKS, NEVER;      /* registered (or protected), protected, times released */
static zt_gc_t *G;
/* what the program can reach: protected values and what they refer to */
static uint64_t reach(void) {
    uint64_t r = 0, i, k;
    for (i = 0; i < NV; i++) if (PROT[i] && REG[i]) r |= (uint64_t)1 << i;
    for (k = 0; k < NV; k++) for (i = 0; i < NV; i++) if (r >> i & 1) r |= V[i].refs;
    return r;
}
static void mark(zt_gc_t *g, void *data, void *v) {
    struct value *x = v; uint64_t i;
    VP_CHECK(g == G && data == (void *)V, "the callback gets the collector and the program's data");
    VP_CHECK(x >= V && x < V + NV && REG[x - V] && !FREED[x - V], "only values known to the collector and not released are marked");
    MARKS++;
    for (i = 0; i < NV; i++) if (x->refs >> i & 1) zt_gc_mark(g, &V[i]);
}
static uint64_t LIVE;       /* what may not be released */
static void release(zt_gc_t *g, void *data, void **v) {
    struct value *x = *v; uint64_t i = (uint64_t)(x - V);
    VP_CHECK(g == G && data == (void *)V, "the callback gets the collector and the program's data");
    VP_CHECK(x >= V && x < V + NV && REG[i], "only values known to the collector are released");
    VP_CHECK(!FREED[i], "a value is released once");
    VP_CHECK(!NEVER, "nothing is released while collecting is disabled");
    VP_CHECK(!(LIVE >> i & 1), "a value the program can reach is not released");
    FREED[i]++; REG[i] = 0;
    V[i].mark.list.next = V[i].mark.list.prev = NULL;       /* the memory is gone */
}
static void gone(int i) { uint64_t j; V[i].refs = 0; for (j = 0; j < NV; j++) V[j].refs &= ~((uint64_t)1 << i); }
/* a step of the program (values it uses are reachable ones) */
static uint64_t known(void) { uint64_t k = 0, i; for (i = 0; i < NV; i++) if (REG[i]) k |= (uint64_t)1 << i; return k; }
#ifndef KOP
# define KOP 0
#endif
static void step(int op) {
    uint64_t i = op == 9 ? NV - 1 : vp_case(0, NV - 1), j; uint64_t r = reach();
    LIVE = r;
    switch (op) {
        case 0: break;
        case 1: if (r >> i & 1) { zt_gc_protect(G, &V[i]); PROT[i] = 1; } break;
        case 2: if (PROT[i] && REG[i]) { zt_gc_unprotect(G, &V[i]); PROT[i] = 0; } break;
        case 3: if (REG[i] && (r >> i & 1)) { zt_gc_unregister(G, &V[i]); REG[i] = PROT[i] = 0; gone((int)i); } break;
        case 4: j = vp_case(0, NV - 1); if ((r >> i & 1) && (r >> j & 1)) { V[i].refs |= (uint64_t)1 << j; zt_gc_mark(G, &V[j]); } break;   /* a reference is stored: with the write barrier */
        case 5: V[i].refs = 0; break;
        case 6: zt_gc_disable(G); NEVER = 1; zt_gc_collect(G, 1); NEVER = 0; zt_gc_enable(G); break;
        case 7: MARKS = 0; LIVE = reach(); zt_gc_collect(G, 0); VP_CHECK(MARKS <= 1, "a step marks no more values than asked for"); break;
        case 8: if (r >> i & 1) { zt_gc_protect(G, &V[i]); zt_gc_unprotect(G, &V[i]); PROT[i] = 0; } break;
        case 9: j = vp_case(0, NV - 2);      /* a new value that takes over what a value referred to */
                if (!REG[i] && !FREED[i] && (r >> j & 1)) {
                    V[i].refs = V[j].refs & ~((uint64_t)1 << i); V[j].refs = (uint64_t)1 << i;
                    V[i].mark.colour = VP_PICK(KN, 3) < 4 && vp_case(0, 1) ? 1 : 0; zt_gc_prepare(G, &V[i]); REG[i] = 1; LIVE = reach(); zt_gc_register(G, &V[i]);
                }
                break;
        default: break;
    }
}
static void full(void) { LIVE = reach(); zt_gc_collect(G, 1); }
static void forget(void) { uint64_t i; for (i = 0; i < 6; i++) { REG[i] = PROT[i] = FREED[i] = 0; V[i].refs = 0; V[i].mark.colour = 0; } MARKS = NEVER = 0; LIVE = 0; }
#ifndef KSTEPS
# define KSTEPS (int)vp_case(0, 2)
#endif
/* one cycle with one step of the program in the middle of it */
#ifndef KP
# define KP 1
#endif
VP_ENTRY(h_cycle) {
    uint64_t i, p = vp_fix(0, VP_PICK((1u << KN) - 1, 63), KP), r, k; int op = (int)vp_fix(0, 9, KOP), n;
    forget();
    G = zt_gc_init(V, mark, release, 1, 0);
    zt_gc_disable(G);
    for (i = 0; i < NV - (op == 9); i++) { zt_gc_prepare(G, &V[i]); zt_gc_register(G, &V[i]); REG[i] = 1; }
    for (i = 0; i < NV; i++) V[i].refs = VP_PICK((uint64_t)1 << (REG[i] ? vp_case(0, KN) : KN) & (((uint64_t)1 << KN) - 1), vp_u8() & 63) & known();   /* one value, or none */
    NEVER = 1; LIVE = known(); zt_gc_enable(G);          /* values just registered are kept for a cycle */
    zt_gc_collect(G, 1); NEVER = 0;
    for (i = 0; i < NV - (op == 9); i++) if (p >> i & 1) { zt_gc_protect(G, &V[i]); PROT[i] = 1; }
    for (n = VP_PICK(KSTEPS, (int)vp_case(0, 3)); n > 0; n--) { MARKS = 0; LIVE = reach(); zt_gc_collect(G, 0); VP_CHECK(MARKS <= 1, "a step marks no more values than asked for"); }
    step(op);
    for (n = VP_PICK(0, (int)vp_range(0, 6)); n > 0; n--) step((int)vp_range(0, 9));
    full();
    full(); full();
    r = reach();
    for (i = 0; i < NV; i++) VP_CHECK(!REG[i] || (r >> i & 1), "what cannot be reached is released after two collections");
    for (i = 0; i < NV; i++) VP_CHECK(!(r >> i & 1) || !FREED[i], "what can be reached is kept");
    k = known(); LIVE = 0;
    zt_gc_destroy(G);
    for (i = 0; i < NV; i++) VP_CHECK(FREED[i] <= 1 && REG[i] == 0 && (!(k >> i & 1) || FREED[i] == 1), "destroying the collector releases every value left, once");
    free(G);
    VP_REACH();
}

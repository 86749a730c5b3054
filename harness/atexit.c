/* atexit.c - C33: what the program asked to be called when it exits */
#include <zt.h>
#include "vp.h"
/* the file under test as it is; the C library's list of exit handlers is replaced by one the test can run */
static int vp_atexit(void (*fn)(void));
#define atexit(f) vp_atexit(f)
#include "zt_atexit.c"
#undef atexit
#ifndef KN
# define KN 3
#endif
#ifndef KM
# define KM 1
#endif
#define MAX 10
static void (*EX[16])(void); static int NEX;                 /* the C library's handlers: last one first, each once */
static int vp_atexit(void (*fn)(void)) { VP_CHECK(NEX < 16, "no more handlers than callbacks"); EX[NEX++] = fn; return 0; }
static void leave(void) { while (NEX > 0) { NEX--; EX[NEX](); } }
/* what is still to be called: (function, data) pairs, last one first */
struct want { int f; void *d; };
static struct want W[MAX]; static int NW, MADE, EXITING, MORE; static char DATA[4];
static void fa(void *d); static void fb(void *d);
static void ask(void) {
    struct want w; uint64_t c = vp_range(0, 2);
    w.f = (int)vp_range(0, 1); w.d = c == 2 ? NULL : &DATA[c];
    W[NW++] = w; MADE++;
    zt_atexit(w.f ? fb : fa, w.d);
}
static void called(int f, void *d) {
    VP_CHECK(EXITING, "nothing is called before the program exits");
    VP_CHECK(NW > 0, "nothing is called twice");
    NW--;
    VP_CHECK(W[NW].f == f && W[NW].d == d, "the one asked for last comes first, with its data");
    if (MORE > 0 && vp_range(0, 1)) { uint64_t i, n = vp_case(1, 2); MORE--; for (i = 0; i < n; i++) ask(); }
}
static void fa(void *d) { called(0, d); }
static void fb(void *d) { called(1, d); }
VP_ENTRY(h_history) {
    uint64_t i, n = vp_fix(0, 5, KN);
    NEX = NW = MADE = EXITING = 0; MORE = KM;
    for (i = 0; i < n; i++) ask();
    EXITING = 1;
    leave();
    VP_CHECK(NW == 0, "everything asked for has been called");
    VP_REACH();
}
#ifdef STEP
/* any number of callbacks: a stack whose first element is known and whose rest is opaque (KS: 0 none, 1 one element, 2 two, 3 more) */
static zt_stack_t REST, REST2; static zt_atexit_cb *TOP; static int CALLS;
static void step(void *d) {
    CALLS++;
    VP_CHECK(CALLS == 1 && d == &DATA[1], "the first element's function is called, with its data");
    VP_CHECK(cb_stack.next == (KS == 1 ? &cb_stack : &REST), "it is off the stack by then, and the rest is as it was");
    if (KS >= 2) { VP_CHECK(REST.prev == &cb_stack && REST.next == (KS == 2 ? &cb_stack : &REST2), "the rest is as it was"); VP_REACH(); VP_ASSUME(0); }
}
static void below(unsigned s) {        /* a stack of s elements (3: three or more), TOP the first; the others are not to be looked at */
    NEX = 0; CALLS = 0; cb_stack.next = cb_stack.prev = &cb_stack;
    if (s >= 1) { TOP = calloc(1, sizeof *TOP); VP_ASSUME(TOP != NULL); TOP->fn = step; TOP->data = &DATA[1]; cb_stack.next = cb_stack.prev = &TOP->member; TOP->member.next = TOP->member.prev = &cb_stack; }
    if (s >= 2) { TOP->member.next = &REST; REST.prev = &TOP->member; REST.next = &cb_stack; cb_stack.prev = &REST; }
    if (s >= 3) { REST.next = &REST2; REST2.prev = NULL; REST2.next = &cb_stack; cb_stack.prev = &REST2; }
}
VP_ENTRY(h_push) {
    zt_atexit_cb *n;
    below(KS);
    zt_atexit(fa, &DATA[2]);
    VP_CHECK(NEX == (KS == 0), "one handler is registered with the C library for the first callback");
    n = zt_stack_data(cb_stack.next, zt_atexit_cb, member);
    VP_CHECK(n->fn == fa && n->data == &DATA[2], "the new callback is the first");
    VP_CHECK(n->member.prev == &cb_stack && n->member.next == (KS ? &TOP->member : &cb_stack), "in front of the others");
    if (KS) VP_CHECK(TOP->member.prev == &n->member && TOP->fn == step && TOP->data == &DATA[1], "which stay as they were");
    else VP_CHECK(cb_stack.prev == &n->member, "the only one");
    if (KS >= 2) VP_CHECK(TOP->member.next == &REST && REST.prev == &TOP->member, "which stay as they were");
    VP_REACH();
}
VP_ENTRY(h_call) {
    below(KS);
    zt_atexit(step, &DATA[1]);         /* (only to have the handler; taken off again) */
    below(KS);
    _atexit_call();
    VP_CHECK(KS < 2 && CALLS == KS && cb_stack.next == &cb_stack && cb_stack.prev == &cb_stack, "when none is left it returns");
    if (KS < 2) VP_REACH();
}
#endif

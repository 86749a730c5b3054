/* lists.c - C07: intrusive lists, stacks, queues.  C08: cons lists. */
#include <zt.h>
#include "vp.h"
#ifndef KN
# define KN 3
#endif
#ifndef KM
# define KM 3
#endif
/* ---- C07: a list of any length, seen through the links an operation may touch ----
 * Shapes: 0 elements, 1, 2, or at least 3 (then the links into the middle lead to nodes x and y that stand for whatever is there,
 * possibly the same node): every operation that leaves x's and y's links alone acts the same on any middle. */
struct li { zt_elist_t *h, *f, *l, *x, *y; int n; };
static zt_elist_t *node(void) { zt_elist_t *p = malloc(sizeof(*p)); VP_ASSUME(p != NULL); p->prev = p->next = NULL; return p; }
static struct li any_list(unsigned shape) {
    struct li s; zt_elist_t *h = node();
    s.h = h; s.x = s.y = NULL; s.n = shape;
    switch (shape) {
        case 0: s.f = s.l = h; h->next = h->prev = h; break;
        case 1: s.f = s.l = node(); h->next = h->prev = s.f; s.f->next = s.f->prev = h; break;
        case 2: s.f = node(); s.l = node(); h->next = s.f; s.f->prev = h; s.f->next = s.l; s.l->prev = s.f; s.l->next = h; h->prev = s.l; break;
        case 3: s.f = node(); s.l = node(); s.x = s.y = node(); h->next = s.f; s.f->prev = h; s.f->next = s.x; s.x->prev = s.f; s.x->next = s.l; s.l->prev = s.x; s.l->next = h; h->prev = s.l; break;
        default: s.f = node(); s.l = node(); s.x = node(); s.y = node(); h->next = s.f; s.f->prev = h; s.f->next = s.x; s.x->prev = s.f; s.y->next = s.l; s.l->prev = s.y; s.l->next = h; h->prev = s.l;
                 s.x->next = NULL; s.y->prev = NULL; break;   /* the middle: not to be followed */
    }
    return s;
}
static void link2(zt_elist_t *a, zt_elist_t *b) { VP_CHECK(a->next == b && b->prev == a, "neighbours point at each other"); }
/* the links of the part from the first element on, and of everything behind it, are as in s */
static void rest_kept(struct li *s) {
    if (s->n >= 2) { if (s->n == 2) link2(s->f, s->l); else { link2(s->f, s->x); link2(s->y, s->l); } }
    if (s->n == 4) VP_CHECK(s->x->next == NULL && s->y->prev == NULL, "the middle is not touched");
}
VP_ENTRY(h_add) {
    struct li s = any_list(vp_case(0, 4)); zt_elist_t *e = node(); int w = vp_case(0, 3);
    VP_CHECK(zt_elist_empty(s.h) == (s.n == 0), "empty means no elements");
    switch (w) {
        case 0: zt_elist_add(s.h, e); break;
        case 1: zt_elist_add_tail(s.h, e); break;
        case 2: zt_stack_push(s.h, e); break;
        default: zt_queue_enqueue(s.h, e); break;
    }
    if (w == 1) { link2(s.l, e); link2(e, s.h); if (s.n) link2(s.h, s.f); }
    else { link2(s.h, e); link2(e, s.f); if (s.n) link2(s.l, s.h); }
    rest_kept(&s);
    VP_CHECK(!zt_elist_empty(s.h), "not empty any more");
    VP_REACH();
}
VP_ENTRY(h_remove) {
    struct li s = any_list(vp_case(1, 4)); int w = vp_case(0, 5); zt_elist_t *r;
    if (w == 0) { zt_elist_remove(s.f); r = s.f; }
    else if (w == 1) { zt_elist_remove(s.l); r = s.l; }
    else if (w == 2) { r = zt_stack_pop(s.h); VP_CHECK(r == s.f, "pop takes the first"); }
    else if (w == 3) { r = zt_queue_dequeue(s.h); VP_CHECK(r == s.l, "dequeue takes the last"); }
    else { VP_ASSUME(s.n == 3); zt_elist_remove(s.x); r = s.x; }
    /* what remains is linked around the removed element */
    if (s.n == 1) { VP_CHECK(zt_elist_empty(s.h), "empty again"); link2(s.h, s.h); }
    else if (r == s.f) { link2(s.h, s.n == 2 ? s.l : s.x); if (s.n > 2) link2(s.y, s.l); link2(s.l, s.h); }
    else if (r == s.l) { link2(s.n == 2 ? s.f : s.y, s.h); if (s.n > 2) link2(s.f, s.x); link2(s.h, s.f); }
    else { link2(s.f, s.l); link2(s.h, s.f); link2(s.l, s.h); }
    if (s.n == 4) VP_CHECK(s.x->next == NULL && s.y->prev == NULL, "the middle is not touched");
    VP_REACH();
}
VP_ENTRY(h_empty_take) {
    struct li s = any_list(0);
    VP_CHECK(zt_stack_pop(s.h) == NULL, "pop of an empty stack is NULL");
    VP_CHECK(zt_queue_dequeue(s.h) == NULL, "dequeue of an empty queue is NULL");
    link2(s.h, s.h);
    { zt_elist_t *e = node(); zt_elist_reset(e); link2(e, e); VP_CHECK(zt_elist_empty(e), "reset makes an empty list"); }
    VP_REACH();
}
VP_ENTRY(h_join) {
    struct li s = any_list(vp_case(0, 4)), t = any_list(vp_case(0, 4));
    zt_elist_join(s.h, t.h);
    if (t.n == 0) { link2(s.h, s.f); link2(s.l, s.h); }
    else { link2(s.h, t.f); link2(t.l, s.f); if (s.n) link2(s.l, s.h); }
    rest_kept(&s); rest_kept(&t);
    VP_REACH();
}
/* whole histories over a stack and a queue (public operations only) */
struct el { int v; zt_elist_t m; };
#ifndef STEPS
# define STEPS VP_PICK(5, 40)
#endif
VP_ENTRY(h_history) {
    static struct el e[64]; zt_elist_t h, o, *p, *q; struct el *seq[64], *tmp[64]; int n = 0, i, j, used = 0;
    zt_elist_reset(&h);
    for (i = 0; i < STEPS; i++) {
        int op = vp_case(0, 5);
        if (op <= 1) {
            struct el *x = &e[used++]; x->v = used;
            if (op == 0) { zt_elist_add(&h, &x->m); for (j = n; j > 0; j--) seq[j] = seq[j - 1]; seq[0] = x; }
            else { zt_elist_add_tail(&h, &x->m); seq[n] = x; }
            n++;
        } else if (op == 2) {
            p = zt_stack_pop(&h);
            VP_CHECK(n ? zt_stack_data(p, struct el, m) == seq[0] : p == NULL, "pop returns the first element, NULL when empty");
            if (n) { for (j = 1; j < n; j++) seq[j - 1] = seq[j]; n--; }
        } else if (op == 3) {
            p = zt_queue_dequeue(&h);
            VP_CHECK(n ? zt_queue_data(p, struct el, m) == seq[n - 1] : p == NULL, "dequeue returns the last element, NULL when empty");
            if (n) n--;
        } else if (op == 4) {                       /* take one out of the middle */
            if (n > 1) { zt_elist_remove(&seq[1]->m); for (j = 2; j < n; j++) seq[j - 1] = seq[j]; n--; }
        } else {                                    /* join a list of 0..2 new elements in front */
            int k = vp_case(0, 2);
            zt_elist_reset(&o);
            for (j = 0; j < k; j++) { tmp[j] = &e[used++]; tmp[j]->v = used; zt_elist_add_tail(&o, &tmp[j]->m); }
            zt_elist_join(&h, &o);
            for (j = n - 1; j >= 0; j--) seq[j + k] = seq[j];
            for (j = 0; j < k; j++) seq[j] = tmp[j];
            n += k;
        }
        if (used > 60) break;
        VP_CHECK(zt_elist_empty(&h) == (n == 0), "empty means no elements");
        j = 0; zt_elist_for_each(&h, p) { VP_CHECK(j < n && zt_elist_data(p, struct el, m) == seq[j], "walking forward gives the sequence"); j++; }
        VP_CHECK(j == n, "and all of it");
        j = n; for (p = zt_elist_get_prev(&h); p != &h; p = zt_elist_get_prev(p)) { j--; VP_CHECK(j >= 0 && zt_elist_data(p, struct el, m) == seq[j], "walking backward gives it reversed"); }
        j = 0; zt_elist_for_each_safe(&h, p, q) { VP_CHECK(j < n && zt_elist_data(p, struct el, m) == seq[j], "the safe walk gives the sequence"); j++; }
        VP_CHECK(j == n, "and all of it");
    }
    VP_REACH();
}
/* ---- C08 */
#ifndef MAXN
# define MAXN VP_PICK(6, 24)
#endif
static zt_llist mk(int n, uint64_t *it) {
    zt_llist l = NULL; int i;
    for (i = n - 1; i >= 0; i--) l = zt_llist_cons((void *)it[i], l);
    return l;
}
static void is_list(zt_llist l, const uint64_t *it, int n, const char *m) {
    int i;
    for (i = 0; i < n; i++) { VP_CHECK(l != NULL && (uint64_t)zt_llist_head(l) == it[i], m); l = zt_llist_tail(l); }
    VP_CHECK(l == NULL, m);
}
#define LN vp_fix(0, MAXN, KN)
VP_ENTRY(h_basic) {
    uint64_t it[64], x; int n = LN, i; zt_llist l, p, t;
    for (i = 0; i < n; i++) it[i] = vp_u64();
    it[n] = 0; l = mk(n, it);
    is_list(l, it, n, "cons puts in front");
    for (i = 0; i < n; i++) { VP_CHECK((uint64_t)zt_llist_nth(l, i) == it[i], "nth is the n-th item"); is_list(zt_llist_nthtail(l, i), it + i + 1, n - i - 1, "nthtail is the list behind the n-th item"); }
    x = vp_u64();
    p = zt_llist_push((void *)x, &l);
    VP_CHECK(p == l && (uint64_t)zt_llist_head(l) == x, "push puts the item in front");
    is_list(zt_llist_tail(l), it, n, "and leaves the rest");
    VP_CHECK((uint64_t)zt_llist_pop(&l) == x, "pop takes what was pushed last");
    is_list(l, it, n, "and leaves the rest");
    p = zt_llist_ppop(&l);
    if (n == 0) VP_CHECK(p == NULL && l == NULL && zt_llist_pop(&l) == NULL, "nothing to pop");
    else {
        VP_CHECK((uint64_t)zt_llist_head(p) == it[0], "ppop takes the first pair"); is_list(l, it + 1, n - 1, "and leaves the rest");
        VP_CHECK(zt_llist_ppush(p, &l) == l, "ppush returns the list"); is_list(l, it, n, "ppush puts the pair back");
    }
    VP_REACH();
    zt_llist_free(l);
}
VP_ENTRY(h_reverse) {
    uint64_t it[64], rv[64]; int n = LN, i; zt_llist l, r;
    for (i = 0; i < n; i++) rv[n - 1 - i] = it[i] = vp_u64();
    l = mk(n, it);
    r = zt_llist_reverse(l);
    is_list(r, rv, n, "reverse holds the items backwards");
    is_list(l, it, n, "reverse leaves its argument alone");
    r = zt_llist_nreverse(r);
    is_list(r, it, n, "nreverse holds the items backwards");
    VP_REACH();
    zt_llist_free(r); zt_llist_free(l);
}
VP_ENTRY(h_split) {
    uint64_t it[64]; int n = LN, i, h; zt_llist l, r;
    VP_ASSUME(n >= 2);
    for (i = 0; i < n; i++) it[i] = vp_u64();
    l = mk(n, it);
    r = zt_llist_split(l);
    for (h = 0; l; l = zt_llist_tail(l), h++) VP_CHECK(h < n && (uint64_t)zt_llist_head(l) == it[h], "the first half is a prefix");
    VP_CHECK(h > 0 && h < n, "neither half is empty");
    is_list(r, it + h, n - h, "the second half is the rest");
    VP_REACH();
}
/* "comes after" */
static int after(void *a, void *b) { return (uint64_t)a > (uint64_t)b; }
static uint64_t cnt(const uint64_t *a, int n, uint64_t v) { uint64_t c = 0; int i; for (i = 0; i < n; i++) c += a[i] == v; return c; }
VP_ENTRY(h_sort) {
    uint64_t it[64], o[64], v; int n = LN, i = 0, k; zt_llist l, p;
    for (i = 0; i < n; i++) it[i] = VP_PICK(vp_u64(), vp_u8());
    l = zt_llist_sort(mk(n, it), after);
    for (i = 0, p = l; p; p = zt_llist_tail(p), i++) { VP_CHECK(i < n, "sorting keeps the number of items"); o[i] = (uint64_t)zt_llist_head(p); }
    VP_CHECK(i == n, "sorting keeps the number of items");
    for (i = 1; i < n; i++) VP_CHECK(!after((void *)o[i - 1], (void *)o[i]), "no item comes after its successor");
    for (k = 0; k < n; k++) VP_CHECK(cnt(o, n, it[k]) == cnt(it, n, it[k]), "the same items, each as often");
    (void)v;
    VP_REACH();
    zt_llist_free(l);
}
VP_ENTRY(h_merge) {
    uint64_t a[64], b[64], o[64]; int n = LN, m = vp_fix(0, MAXN, KM), i, k; zt_llist p, l;
    for (i = 0; i < n; i++) { a[i] = VP_PICK(vp_u64(), vp_u8()); VP_ASSUME(i == 0 || a[i] >= a[i - 1]); }
    for (i = 0; i < m; i++) { b[i] = VP_PICK(vp_u64(), vp_u8()); VP_ASSUME(i == 0 || b[i] >= b[i - 1]); }
    l = zt_llist_nmerge(mk(n, a), mk(m, b), after);
    for (i = 0, p = l; p; p = zt_llist_tail(p), i++) { VP_CHECK(i < n + m, "merging keeps the number of items"); o[i] = (uint64_t)zt_llist_head(p); }
    VP_CHECK(i == n + m, "merging keeps the number of items");
    for (i = 1; i < n + m; i++) VP_CHECK(o[i] >= o[i - 1], "merging ordered lists gives an ordered list");
    for (k = 0; k < n; k++) VP_CHECK(cnt(o, n + m, a[k]) == cnt(a, n, a[k]) + cnt(b, m, a[k]), "with the items of both");
    VP_REACH();
    zt_llist_free(l);
}

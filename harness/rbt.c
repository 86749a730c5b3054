/* rbt.c - C09: red-black tree = ordered set */
#include <zt.h>
#include "vp.h"
#ifndef KH
# define KH 2
#endif
#ifndef KX
# define KX 0
#endif
#ifndef MAXN
# define MAXN 15
#endif
struct nd { zt_rbt_node n; int key; };
static struct nd T[64]; static int used;
static int cmp(zt_rbt_node *a, zt_rbt_node *b) {
    int x = zt_rbt_data(a, struct nd, n)->key, y = zt_rbt_data(b, struct nd, n)->key;
    return x < y ? -1 : x > y;
}
/* every red-black tree of black height h */
static zt_rbt_node *gen(int h, int mayred, zt_rbt_node *parent) {
    struct nd *x; int red;
    if (h == 0) { if (!mayred || !vp_case(0, 1)) return NULL; red = 1; }
    else red = mayred ? vp_case(0, 1) : 0;
    VP_ASSUME(used < MAXN);
    x = &T[used++];
    x->n.parent = parent; x->n.colour = red ? zt_rbt_red : zt_rbt_black;
    x->n.left = gen(red ? h : h - 1, !red, &x->n);
    x->n.right = gen(red ? h : h - 1, !red, &x->n);
    return &x->n;
}
static int rank_;
static void number(zt_rbt_node *x, zt_rbt_node **order) {
    if (x == NULL) return;
    number(x->left, order);
    order[rank_] = x; zt_rbt_data(x, struct nd, n)->key = 2 * ++rank_;
    number(x->right, order);
}
/* black height, or a failed check; collects the nodes in order */
static int seen; static zt_rbt_node *walk[64];
static int ok(zt_rbt_node *x, zt_rbt_node *parent) {
    int a, b;
    if (x == NULL) return 0;
    VP_CHECK(seen < 60, "no more nodes than there are");
    VP_CHECK(x->parent == parent, "parent links");
    VP_CHECK(x->colour == zt_rbt_black || ((x->left == NULL || x->left->colour == zt_rbt_black) && (x->right == NULL || x->right->colour == zt_rbt_black)), "no red node has a red child");
    a = ok(x->left, x);
    walk[seen++] = x;
    b = ok(x->right, x);
    VP_CHECK(a == b, "every path has the same number of black nodes");
    return a + (x->colour == zt_rbt_black);
}
static void tree_is(zt_rbt_node *head, zt_rbt_node **order, int n) {
    int i;
    seen = 0;
    ok(head, NULL);
    VP_CHECK(head == NULL || head->colour == zt_rbt_black, "the root is black");
    VP_CHECK(seen == n, "the tree holds exactly the elements put in and not removed");
    for (i = 0; i < n; i++) VP_CHECK(walk[i] == order[i], "in order");
}
static zt_rbt_node *head, *order[64]; static int N;
static void any_tree(void) {
    used = 0; rank_ = 0;
    head = gen(vp_fix(0, VP_PICK(9, 3), KH), 0, NULL);
    number(head, order);
    N = rank_;
}
VP_ENTRY(h_insert) {
    int p, i; static struct nd e;
    any_tree();
    p = vp_case(0, VP_PICK(N, 63)); VP_ASSUME(p <= N);
    e.key = 2 * p + 1;
    VP_CHECK(zt_rbt_insert(&head, &e.n, cmp) == NULL, "inserting a new key succeeds");
    for (i = N; i > p; i--) order[i] = order[i - 1];
    order[p] = &e.n; N++;
    tree_is(head, order, N);
    VP_REACH();
}
VP_ENTRY(h_insert_dup) {
    int p; static struct nd e;
    any_tree(); VP_ASSUME(N > 0);
    p = vp_case(0, VP_PICK(N - 1, 63)); VP_ASSUME(p < N);
    e.key = 2 * p + 2;
    VP_CHECK(zt_rbt_insert(&head, &e.n, cmp) == order[p], "inserting a key that is there returns its element");
    tree_is(head, order, N);
    VP_REACH();
}
VP_ENTRY(h_remove) {
    int p, i;
    any_tree(); VP_ASSUME(N > 0);
    p = vp_case(0, VP_PICK(N - 1, 63)); VP_ASSUME(p < N);
    VP_CHECK(zt_rbt_remove(&head, order[p]) == order[p], "remove returns the element");
    for (i = p; i + 1 < N; i++) order[i] = order[i + 1];
    N--;
    tree_is(head, order, N);
    VP_REACH();
}
VP_ENTRY(h_find) {
    int i; static struct nd e; zt_rbt_node *x, *y;
    any_tree();
    for (i = 0; i <= 2 * N + 1; i++) {
        e.key = i;
        VP_CHECK(zt_rbt_find(&head, &e.n, cmp) == (i > 0 && i % 2 == 0 ? order[i / 2 - 1] : NULL), "find returns the element with the key, NULL when there is none");
        VP_CHECK(zt_rbt_nfind(&head, &e.n, cmp) == (i <= 2 * N ? order[i <= 2 ? 0 : (i + 1) / 2 - 1] : NULL) || N == 0, "nfind returns the first element that is not less");
    }
    VP_CHECK(zt_rbt_min(&head) == (N ? order[0] : NULL) && zt_rbt_max(&head) == (N ? order[N - 1] : NULL), "min and max");
    i = 0;
    zt_rbt_for_each(&head, x) { VP_CHECK(i < N && x == order[i], "iteration visits the elements in order"); i++; }
    VP_CHECK(i == N, "and all of them");
    i = 0;
    zt_rbt_for_each_safe(&head, x, y) { VP_CHECK(i < N && x == order[i], "safe iteration visits the elements in order"); i++; }
    VP_CHECK(i == N, "and all of them");
    VP_REACH();
}
/* whole histories through the public interface */
#ifndef STEPS
# define STEPS VP_PICK(4, 60)
#endif
VP_ENTRY(h_history) {
    static struct nd e[64]; int in[64], i, j, n; zt_rbt_node *r;
    head = NULL;
    for (i = 0; i < 64; i++) in[i] = 0;
    for (i = 0; i < STEPS; i++) {
        int k = vp_case(0, VP_PICK(STEPS - 1, 31));
        e[k].key = k;
        if (!in[k]) { VP_CHECK(zt_rbt_insert(&head, &e[k].n, cmp) == NULL, "inserting a new key succeeds"); in[k] = 1; }
        else { VP_CHECK(zt_rbt_remove(&head, &e[k].n) == &e[k].n, "remove returns the element"); in[k] = 0; }
        for (n = j = 0; j < 64; j++) if (in[j]) order[n++] = &e[j].n;
        tree_is(head, order, n);
    }
    VP_REACH();
}

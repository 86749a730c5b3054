L = dict(src="lists.c", repo_srcs=["zt_malloc.c"])
prop("C07", "proof", explanation="operations touch only the links next to the head; lists of any length are covered by the five shapes of those links, the middle being opaque")
C = dict(kind="proof", claim="lists of any length (0, 1, 2, 3 or more elements; the middle opaque)", **L)
unit("C07", "add", entry="h_add", fns=["zt_elist_add", "zt_elist_add_tail", "zt_elist_add2", "zt_elist_empty", "zt_stack_push", "zt_queue_enqueue"], **C)
unit("C07", "remove", entry="h_remove", fns=["zt_elist_remove", "zt_elist_remove2", "zt_stack_pop", "zt_queue_dequeue"], **C)
unit("C07", "empty_take", entry="h_empty_take", fns=["zt_stack_pop", "zt_queue_dequeue", "zt_elist_reset"], **C)
unit("C07", "join", entry="h_join", fns=["zt_elist_join"], **C)
unit("C07", "history", entry="h_history", fns=[], kind="bounded", quick_defs=["STEPS=4"], thorough_defs=["STEPS=5"], bound="every history of 4 operations from an empty list", search=3, **L)
prop("C08", "other", explanation="contracts discharged for arbitrary items in lists up to the stated lengths (list walks are unwound, not cut by an invariant)")
D = dict(kind="bounded", search=3, **L)
N = lambda a, b: [["KN=%d" % n] for n in range(a, b + 1)]
unit("C08", "basic", entry="h_basic", fns=["zt_llist_cons", "zt_llist_nth", "zt_llist_nthtail", "zt_llist_push", "zt_llist_pop", "zt_llist_ppop", "zt_llist_ppush", "zt_llist_free"], variants=N(0, 6), bound="lists of 0..6 arbitrary items", **D)
unit("C08", "reverse", entry="h_reverse", fns=["zt_llist_reverse", "zt_llist_nreverse"], variants=N(0, 6), bound="lists of 0..6 arbitrary items", **D)
unit("C08", "split", entry="h_split", fns=["zt_llist_split"], variants=N(2, 6), bound="lists of 2..6 arbitrary items", **D)
unit("C08", "sort", entry="h_sort", fns=["zt_llist_sort", "zt_llist_split", "zt_llist_nmerge"], variants=N(0, 5), thorough_variants=N(0, 6), bound="lists of 0..5 arbitrary items", **D)
unit("C08", "merge", entry="h_merge", fns=["zt_llist_nmerge"], variants=[["KN=%d" % n, "KM=%d" % m] for n in range(4) for m in range(4)], bound="ordered lists of 0..3 arbitrary items each", **D)

R = dict(src="rbt.c", repo_srcs=["zt_tree.c", "zt_malloc.c"], kind="bounded")
prop("C09", "other", explanation="contracts discharged on every red-black tree up to the stated size (the operations only depend on the shape, the colours and the outcome of comparisons)")
def T(lo, quick3, thorough3): return dict(variants=[["KH=%d" % h] for h in range(lo, 3)] + [["KH=3", "MAXN=%d" % quick3]], thorough_variants=[["KH=%d" % h] for h in range(lo, 3)] + [["KH=3", "MAXN=%d" % thorough3]],
    bound="every tree of black height up to 2 (up to 15 nodes) and of black height 3 with up to %d nodes" % quick3, thorough_bound="every tree of black height up to 2 (up to 15 nodes) and of black height 3 with up to %d nodes" % thorough3)
unit("C09", "insert", entry="h_insert", fns=["zt_rbt_insert", "zt_rbt_insert_colour", "zt_rbt_set", "zt_rbt_set_blackred"], **T(0, 11, 12), **R)
unit("C09", "insert_dup", entry="h_insert_dup", fns=["zt_rbt_insert"], **T(1, 9, 11), **R)
unit("C09", "remove", entry="h_remove", fns=["zt_rbt_remove", "zt_rbt_remove_colour"], **T(1, 11, 12), **R)
unit("C09", "find", entry="h_find", fns=["zt_rbt_find", "zt_rbt_nfind", "zt_rbt_minmax", "zt_rbt_next"], **T(0, 10, 12), **R)
unit("C09", "history", entry="h_history", fns=[], quick_defs=["STEPS=5"], thorough_defs=["STEPS=6"], bound="every history of 5 insertions and removals of 5 keys", search=4, **R)

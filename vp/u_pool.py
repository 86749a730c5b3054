P = dict(src="pool.c", repo_srcs=["zt_mem.c", "zt_atexit.c", "zt_malloc.c"], kind="bounded", search=3)
prop("C13", "other", explanation="contracts discharged for every history of up to 6 operations on pools whose pages hold 1, 2 or 3 elements, under every release policy; page layout for the listed element sizes; heaps of any size proved")
unit("C13", "history", entry="h_history", variants=[["KC=%d" % i] for i in range(12)], quick_defs=["STEPS=6"], thorough_defs=["STEPS=8"], fns=["zt_mem_pool_init", "zt_mem_pool_alloc", "zt_mem_pool_release", "zt_mem_pool_release_free_pages", "zt_mem_pool_destroy", "zt_mem_pool_get", "zt_mem_pool_get_stats", "zt_mem_page_alloc", "zt_mem_page_destroy", "zt_default_release_test"],
     bound="every history of 6 operations, 1 to 3 elements per page, default, never-free and supplied release tests", thorough_bound="every history of 8 operations, 1 to 3 elements per page, default, never-free and supplied release tests", **P)
unit("C13", "layout", entry="h_layout", variants=[["KC=%d" % i] for i in range(12)], unroll=400, fns=["x_calculate_page_data", "zt_mem_page_alloc", "zt_mem_pool_alloc"], bound="element sizes 0, 1, 5, 8, 13, 24, 100, 500, 1000, 2031, 2032, 5001, filling a page and one more element", **P)
unit("C13", "group", entry="h_group", fns=["zt_mem_pool_group_init", "zt_mem_pool_group_alloc", "zt_mem_pool_group_destroy"], bound="groups of up to 3 pools of 3 sizes", **P)
unit("C13", "heap", entry="h_heap", fns=["zt_mem_heap_init", "zt_mem_heap_destroy", "zt_mem_heap_get_data", "zt_mem_heap_get_name"], claim="heaps of any size", **dict(P, kind="proof"))

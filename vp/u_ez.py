P = dict(src="ez.c", repo_srcs=["zt_ez_mempool.c", "zt_malloc.c"], search=3)
prop("C14", "other", explanation="contracts discharged for every tree of up to four pools and every 2 (thorough: 3) further operations; allocations of any size proved")
unit("C14", "tree", entry="h_history", kind="bounded", variants=[["K0=%d" % i] for i in range(10)], quick_defs=["STEPS=2"], thorough_defs=["STEPS=3"], fns=["zt_ez_mempool_init", "zt_ez_mempool_alloc", "zt_ez_mempool_add_buffer", "zt_ez_mempool_strdup", "zt_ez_mempool_destroy", "free_chunks", "pool_append", "chunk_append"],
     bound="every tree of up to 4 pools followed by every 2 operations", thorough_bound="every tree of up to 4 pools followed by every 3 operations", **P)
unit("C14", "alloc", entry="h_size", kind="proof", fns=["zt_ez_mempool_alloc", "zt_ez_mempool_chunk_init"], claim="allocations of any size", **P)

prop("C20", "proof", explanation="unit array is decided for key arrays of given lengths (all key values) only; every other unit is for all inputs")
P = dict(src="mt.c", repo_srcs=["zt_random.c"], unroll=1400)
unit("C20", "seed", entry="h_seed", kind="proof", fns=["zt_random_srandom"], search=1, claim="every seed: the whole state", **P)
unit("C20", "array", entry="h_array", kind="bounded", quick_variants=[["KLEN=%d" % i] for i in (1, 2, 4, 623, 624, 625, 1250)], thorough_variants=[["KLEN=%d" % i] for i in (1, 2, 3, 4, 5, 7, 8, 16, 31, 64, 100, 311, 312, 313, 500, 622, 623, 624, 625, 626, 700, 1000, 1247, 1248, 1249, 1250)],
     bound="key arrays of 7 (thorough 26) lengths, all key values", fns=["zt_random_initstate"], search=2, **P)
unit("C20", "generate", entry="h_generate", kind="proof", fns=["zt_random_uint32"], search=1, claim="from every state, the next 624 values of the recurrence and the number returned", **P)
unit("C20", "next", entry="h_next", kind="proof", fns=["zt_random_uint32"], search=1, claim="every state and position", **P)
unit("C20", "unseeded", entry="h_unseeded", kind="proof", defs=["UNSEEDED"], fns=["zt_random_uint32", "zt_random_srandom"], search=1, claim="every state without the seeded mark, every clock value", **P)
unit("C20", "run", entry="h_run", kind="bounded", bound="the first 630 numbers of one seed (search on the compiled code: up to 2000 numbers of any seed)", fns=["zt_random_srandom", "zt_random_uint32"], search=2, **P)

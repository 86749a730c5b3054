T = dict(src="table.c", repo_srcs=["zt_table.c", "zt_hash.c", "zt_mem.c", "zt_atexit.c", "zt_malloc.c", "zt_set.c"], kind="bounded", search=3)
prop("C10", "other", explanation="contracts discharged for every table that up to three insertions can build, every operation from there, hash values that collide, differ or exceed 32 bits, and several numbers of buckets; the pool functions are used through their contract (C13)")
unit("C10", "map", entry="h_history", variants=[["PAT=%d" % i] for i in range(6)], quick_defs=["STEPS=1"], thorough_defs=["STEPS=2"], fns=["zt_table_init", "zt_table_set", "zt_table_get", "zt_table_del", "zt_table_copy", "zt_table_for_each", "zt_table_destroy"],
     bound="every sequence of up to 3 insertions over 3 keys followed by 1 operation", thorough_bound="every sequence of up to 3 insertions over 3 keys followed by 2 operations", **T)
unit("C10", "chain", entry="h_chain", variants=[["KN=%d" % i] for i in range(1, 9)], thorough_variants=[["KN=%d" % i] for i in range(12)], fns=["zt_table_set", "zt_table_get", "zt_table_del", "zt_table_for_each"], unroll=40,
     bound="up to 8 keys in one, a few or many buckets, any two of them deleted, one set again", thorough_bound="up to 11 keys", **T)
unit("C10", "buffer_keys", entry="h_buff", fns=["zt_table_compare_buff", "zt_table_hash_buff", "zt_hash32_buff"], bound="all buffers of 0..4 bytes", **T)
unit("C10", "string_keys", entry="h_string", fns=["zt_table_compare_string", "zt_table_compare_string_case", "zt_table_hash_string", "zt_hash32_cstr"], bound="all strings of 0..3 characters", **T)
unit("C10", "integer_keys", entry="h_int", fns=["zt_table_compare_int"], **dict(T, kind="proof", claim="all integer keys of 1 to 8 bytes"))
prop("C11", "other", explanation="contracts discharged for every pair of sets over a universe of 4 elements and every history of 4 operations; tables through their contract at 4 buckets (C10), pools through theirs (C13)")
unit("C11", "algebra", entry="h_algebra", variants=[["SMALLTABLE", "KA=%d" % a] for a in range(16)], fns=["zt_set_union", "zt_set_intersection", "zt_set_difference", "zt_set_is_subset", "zt_set_is_equal", "zt_set_insert", "zt_set_is_member", "zt_set_for_each", "zt_set_init", "zt_set_destroy"], bound="every pair of sets over 4 elements, with an empty result set or one that holds something", **T)
unit("C11", "history", entry="h_sethist", fns=["zt_set_insert", "zt_set_remove", "zt_set_is_member", "zt_set_destroy"], variants=[["SMALLTABLE"]], quick_defs=["STEPS=3"], thorough_defs=["STEPS=5"], bound="every history of 3 operations over 4 elements", thorough_bound="every history of 5 operations over 4 elements", **T)

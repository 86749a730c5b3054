P = dict(src="ptrarr.c", repo_srcs=["zt_ptr_array.c", "zt_malloc.c"], search=3)
prop("C12", "other", explanation="resize, copy, add and index access proved for every array; removal, concatenation and freeing discharged for every small array (removing permutes elements, its multiset argument is enumerated, not proved)")
PC = dict(P, kind="proof", cut=["zt_ptr_array_copy_data:0"], claim="every array: any size, count and contents")
unit("C12", "resize", entry="h_resize", fns=["zt_ptr_array_init", "zt_ptr_array_resize", "zt_ptr_array_copy_data"], **PC)
unit("C12", "copy_data", entry="h_copy", fns=["zt_ptr_array_copy_data"], **PC)
unit("C12", "add", entry="h_add", fns=["zt_ptr_array_add", "zt_ptr_array_resize", "zt_ptr_array_get_idx"], **PC)
unit("C12", "index", entry="h_index", fns=["zt_ptr_array_get_idx", "zt_ptr_array_move_idx_to_idx"], **PC)
PS = dict(P, kind="bounded")
unit("C12", "del", entry="h_del", variants=[["SMALL", "CN=%d" % i] for i in range(6)], fns=["zt_ptr_array_del", "zt_ptr_array_add", "zt_ptr_array_free"], bound="every array of up to 5 elements of 3 values", **PS)
unit("C12", "cat", entry="h_cat", variants=[["SMALL", "CN=%d" % i] for i in range(4)], fns=["zt_ptr_array_cat"], bound="every two arrays of up to 3 elements of 3 values", **PS)
unit("C12", "grow", entry="h_grow", variants=[["SMALL"]], fns=["zt_ptr_array_add", "zt_ptr_array_resize"], bound="up to 66 additions", **PS)
unit("C12", "free", entry="h_free", variants=[["SMALL"]], fns=["zt_ptr_array_free"], bound="every array of up to 3 elements of 3 values", **PS)

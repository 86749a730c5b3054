prop("C29", "bounded")
P = dict(src="opts.c", repo_srcs=["zt_opts.c", "zt_malloc.c"], kind="bounded")
def A(*l): return ["KARGC=%d" % (len(l) + 1)] + ["KL%d=%d" % (i + 1, n) for i, n in enumerate(l)]
Q = [A()] + [A(n) for n in range(8)] + [A(n, m) for n in range(6) for m in range(5)] + [A(n, m, k) for n in (2, 3) for m in (2, 3) for k in (1, 2)]
unit("C29", "parse", entry="h_parse", fns=["zt_opt_process_args", "zt_opt_get_value"], quick_variants=Q, thorough_variants=Q + [A(n, m, k) for n in range(5) for m in range(5) for k in range(4)] + [A(7, 3), A(8), A(9)],
     bound="up to two arguments of up to 5 and 4 characters (one of up to 7, three of up to 3), any characters; five definitions: short, long and both, with and without a value, one long name the beginning of another", search=5, **P)
unit("C29", "values", entry="h_values", fns=["zt_opt_long", "zt_opt_bool_int", "zt_opt_string", "zt_opt_string_array", "zt_opt_flag_int"], variants=[["KN=%d" % k] for k in range(3)], bound="numbers of up to two digits (search: four), words for truth values and others, strings of up to 2 characters, up to 2 strings of an array", search=3, **P)
unit("C29", "validate", entry="h_validate", fns=["zt_opt_validate_default"], bound="up to two definitions", **P)
unit("C29", "missing", entry="h_missing", fns=["zt_opt_long", "zt_opt_intmax", "zt_opt_bool_int", "zt_opt_string", "zt_opt_string_array"], bound="each callback, short and long, without a value", search=1, **P)

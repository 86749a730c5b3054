prop("C22", "proof")
P = dict(src="time.c", repo_srcs=[])
V = [["KV=%d" % i] for i in range(3)]
unit("C22", "add", entry="h_add", kind="proof", variants=V, fns=["zt_add_time"], search=1, claim="all tidy operands; the result apart or over either operand", **P)
unit("C22", "sub", entry="h_sub", kind="proof", variants=V, fns=["zt_sub_time"], search=1, claim="all tidy operands; the result apart or over either operand", **P)
unit("C22", "diff", entry="h_diff", kind="proof", variants=V, fns=["zt_diff_time"], search=1, claim="all tidy operands; the result apart or over either operand", **P)
unit("C22", "cmp", entry="h_cmp", kind="proof", fns=["zt_cmp_time"], search=1, claim="all tidy operands", **P)
unit("C22", "time", entry="h_time", kind="proof", variants=[["CUT", "KN=2000000000"]], cut=["zt_time:0"], fns=["zt_time", "zt_time_calibrate"], confirm_by="time", search=2, claim="any number of calls, any clock readings, calibrated before or not (calls by induction)", **P)

prop("C33", "proof", explanation="one registration and one turn of the exit loop on a stack of any height (the rest opaque) are proved; the loop keeps no other state, so any history is a sequence of these steps; short histories are executed as well")
P = dict(src="atexit.c", repo_srcs=["zt_malloc.c"])
unit("C33", "push", entry="h_push", kind="proof", variants=[["STEP", "KS=%d" % i] for i in range(4)], fns=["zt_atexit"], claim="a stack of any height", **P)
unit("C33", "call", entry="h_call", kind="proof", variants=[["STEP", "KS=%d" % i] for i in range(2)], fns=["_atexit_call"], claim="the last callback, and none left", **P)
unit("C33", "turn", entry="h_call", kind="proof", variants=[["STEP", "KS=%d" % i] for i in range(2, 4)], fns=["_atexit_call"], claim="one turn of the exit loop on a stack of any height", **P)
unit("C33", "history", entry="h_history", kind="bounded", variants=[["KN=%d" % n, "KM=%d" % m] for n in range(4) for m in range(2)], bound="up to 3 callbacks; one callback asks for one or two more while the program exits", fns=["zt_atexit", "_atexit_call"], search=3, **P)

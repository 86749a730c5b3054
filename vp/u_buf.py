B = dict(src="buf.c", repo_srcs=["zt_malloc.c"])
P = dict(B, kind="proof", confirm_by="history", claim="from every valid representation state, for all sizes and contents: result, contents and the representation invariant")
prop("C06", "proof", explanation="each operation is proved against the queue contract from an arbitrary state satisfying the representation invariant, and shown to re-establish it, so it holds after every history")
unit("C06", "add", entry="h_add", fns=["zt_buf_add", "zt_buf_expand", "zt_buf_reserve", "zt_buf_get", "zt_buf_length", "zt_buf_unused_sz", "zt_buf_new", "zt_buf_free"], **P)
unit("C06", "drain", entry="h_drain", fns=["zt_buf_drain"], **P)
unit("C06", "remove", entry="h_remove", fns=["zt_buf_remove", "zt_buf_drain"], **P)
unit("C06", "reserve", entry="h_reserve", fns=["zt_buf_reserve", "zt_buf_expand"], **P)
unit("C06", "add_buf", entry="h_add_buf", fns=["zt_buf_add_buf"], **P)
unit("C06", "iov", entry="h_iov", fns=["zt_buf_iov_add", "zt_buf_iov_len"], defs=["IOVC"], cut=["zt_buf_iov_add:0", "zt_buf_iov_len:0"], src="buf.c", repo_srcs=["zt_malloc.c"], kind="proof", search=3, claim="vectors of any number of pieces (loop by induction, zt_buf_add by its contract, proved by unit add)")
unit("C06", "history", entry="h_history", fns=[], kind="bounded", defs=[], quick_defs=[], variants=[["STEPS=2"]] , thorough_variants=[["STEPS=2"], ["STEPS=3"]], bound="every history of 2 operations from a new buffer, sizes 0,1,7,500,1024,1500, any contents", search=6, **B)

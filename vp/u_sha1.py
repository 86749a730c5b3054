prop("C17", "proof", explanation="unit data repeats the composition of the proved pieces for messages of given lengths (all contents); the pieces themselves (compression, forming blocks, padding, initial state) are proved for every message")
P = dict(src="sha1.c", repo_srcs=["zt_sha1.c", "zt_cstr.c"], unroll=300)
unit("C17", "block", entry="h_block", kind="proof", quick_variants=[["NB=2"]], thorough_variants=[["NB=1"], ["NB=2"], ["NB=5"]], fns=["_sha1_transform"], search=2, claim="the compression function, for every state and block, against the standard's definition; the data is not written", **P)
unit("C17", "update", entry="h_update", kind="proof", variants=[["KV=%d" % i, "UPD"] for i in range(8)], cut=["zt_sha1_update:0"], fns=["zt_sha1_update"], confirm_by="chunks", search=2, claim="from any position in the message, data of any length: exactly its whole blocks are transformed in order, the rest is kept, the length is counted", **P)
unit("C17", "final", entry="h_final", kind="proof", variants=[["KV=%d" % i, "FIN"] for i in range(64)], fns=["zt_sha1_finalize", "zt_sha1_update"], confirm_by="chunks", search=1, claim="padding and digest from any position, state and octets left over", **P)
unit("C17", "init", entry="h_init", kind="proof", fns=["zt_sha1_init"], search=1, claim="the initial state", **P)
unit("C17", "data", entry="h_data", kind="bounded", quick_variants=[["KN=%d" % i] for i in (3, 119)], thorough_variants=[["KN=%d" % i] for i in (0, 1, 2, 3, 10, 31, 54, 55, 56, 57, 62, 63, 64, 65, 100, 118, 119, 120, 127, 128, 129, 150, 191, 192, 250, 300)],
     bound="all messages of 2 (thorough 26) lengths, at once and in three chunks", fns=["zt_sha1_data", "zt_sha1_init", "zt_sha1_update", "zt_sha1_finalize"], search=2, **P)
unit("C17", "chunks", entry="h_chunks", kind="bounded", bound="one message in one cut; the search on the compiled code runs messages up to 1000 octets in random chunks", defs=["KCH=2"], fns=["zt_sha1_update", "zt_sha1_finalize"], search=3, **P)
unit("C17", "text", entry="h_text", kind="proof", fns=["zt_sha1_tostr"], search=1, claim="all digests", **P)
unit("C17", "back", entry="h_back", kind="proof", variants=[["KX=%d" % i] for i in range(20)], fns=["zt_str_tosha1"], search=1, claim="any value of each octet (the octets are converted one by one)", **P)

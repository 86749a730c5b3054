prop("C16", "proof", explanation="unit any decides every length; unit short repeats it for short inputs without loop annotations and adds continuing a hash (which follows from the definition)")
P = dict(src="hash.c", repo_srcs=["zt_hash.c"])
F = ["zt_hash32_buff", "zt_hash32_cstr", "zt_hash64_buff", "zt_hash64_cstr"]
unit("C16", "any", entry="h_any", kind="proof", variants=[["KV=%d" % i, "CUTS"] for i in range(4)], cut=[f + ":0" for f in F], fns=F, confirm_by="short", search=3, claim="buffers and strings of every length (loop by induction over the defining sequence)", **P)
unit("C16", "short", entry="h_short", kind="bounded", bound="up to 4 octets (thorough 8), without loop annotations", quick_defs=["KL=4"], thorough_defs=["KL=8"], variants=[["KV=%d" % i] for i in range(4)], fns=F, search=2, **P)
unit("C16", "fold", entry="h_fold", kind="proof", variants=[["KV=%d" % i] for i in range(1, 32)], fns=["ZT_HASH24_MASK", "ZT_HASH16_MASK", "ZT_HASH8_MASK", "ZT_HASH4_MASK", "ZT_HASH_SUB32_MASK"], search=2, claim="every hash value and width", **P)

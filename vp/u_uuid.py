prop("C18", "other", explanation="the hexadecimal formats are proved for every UUID and every text; the base 62 formats are checked on chosen UUIDs and, for acceptance, every text of the length, and searched on the compiled code")
P = dict(src="uuid.c", repo_srcs=["zt_uuid.c", "zt_cstr.c", "zt_sha1.c", "zt_random.c", "zt_malloc.c"])
HEX = [["KV=0"], ["KV=1"]]
B62 = [["KV=%d" % k, "KB=%d" % b] for k in (2, 3) for b in (1, 2, 3, 4, 5)]
BB = "base 62: 4 to 16 UUIDs near each of 5 values of the halves (0, digit boundaries, 2^63, 2^64 - 1); search: any UUID"
unit("C18", "tostr", entry="h_tostr", kind="proof", variants=HEX, fns=["zt_uuid_tostr", "_zt_uuid_fillstr"], search=2, claim="every UUID, standard and short text", **P)
unit("C18", "fillstr", entry="h_fillstr", kind="proof", variants=HEX, fns=["zt_uuid_fillstr", "_flagToSize"], search=2, claim="every UUID, every buffer up to 60 octets, standard and short text", **P)
unit("C18", "back", entry="h_back", kind="proof", defs=["CONTRACTS"], variants=HEX, fns=["zt_uuid_fromstr", "zt_uuid_isvalid", "zt_uuid_cmp"], search=2, claim="every UUID, standard and short text", **P)
unit("C18", "tostr62", entry="h_tostr", kind="bounded", bound=BB, variants=B62, fns=["zt_uuid_tostr", "base62_encode_int64"], search=3, **P)
unit("C18", "fillstr62", entry="h_fillstr", kind="bounded", bound=BB, variants=B62, fns=["zt_uuid_fillstr", "base62_encode_int64"], search=2, **P)
unit("C18", "back62", entry="h_back", kind="bounded", bound=BB, defs=["CONTRACTS"], variants=B62, fns=["zt_uuid_fromstr", "base62_decode_int64"], search=3, **P)
unit("C18", "valid", entry="h_reject", kind="proof", defs=["CONTRACTS", "WHAT=0"], variants=[["KV=%d" % k, "KD=%d" % d] for k in range(4) for d in range(4)], fns=["zt_uuid_isvalid"], search=2, claim="every text of the format's length, and of lengths beside it", **P)
unit("C18", "accept", entry="h_reject", kind="proof", defs=["CONTRACTS", "WHAT=1", "ISVALID"], variants=[["KV=%d" % k, "KD=%d" % d] for k in range(2) for d in range(4)], fns=["zt_uuid_fromstr"], search=3, confirm_by="valid", claim="every text, standard and short format: read exactly when valid, and the UUID it stands for", **P)

prop("C19", "proof")
unit("C19", "uuid5", entry="h_uuid5", kind="proof", defs=["MAKE"], fns=["zt_uuid5"], search=2, claim="every namespace and name (SHA-1 by its contract, C17)", **P)
unit("C19", "badns", entry="h_badns", kind="proof", fns=["zt_uuid5"], search=1, claim="every other namespace number", **P)
unit("C19", "uuid4", entry="h_uuid4", kind="proof", defs=["MAKE"], fns=["zt_uuid4", "zt_uuid4_get_ctx"], search=1, claim="whatever the generator gives (C20)", **P)

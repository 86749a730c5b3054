prop("C01", "proof")
prop("C02", "proof")
S = dict(repo_srcs=["zt_base.c", "zt_malloc.c"], fns=["zt_base_encode", "zt_base_decode"])
B = dict(src="base.c", **S)
MAXN = {0: 7, 1: 7, 2: 7, 3: 11, 4: 11, 5: 4}


def grid(lo=0, ws=range(6)):
    """every codec definition x every input size up to two whole groups and a partial one"""
    return [["KW=%d" % w, "KN=%d" % n, "N=11"] for w in ws for n in range(lo, MAXN[w] + 1)]


def allv(ws):
    return [["KW=%d" % w, "KR=%d" % r] for w in ws for r in range({0: 4, 1: 4, 2: 4, 3: 8, 4: 8, 5: 2}[w])]


unit("C01", "encode_all_sizes", src="base_all.c", entry="h_encode_all", kind="proof", claim="for every input size and content: text, size and padding are exactly RFC 4648 (encoder loop by induction)",
     variants=allv([0, 3, 5]), thorough_variants=allv(range(6)), **S)
unit("C01", "roundtrip", entry="h_roundtrip", kind="bounded", variants=grid(), bound="every input of 0..7 (base64), 0..11 (base32), 0..4 (base16) bytes, every codec", search=8, max_len=220, **B)
unit("C02", "alloc", entry="h_alloc", kind="bounded", variants=[["KW=%d" % w, "KN=%d" % n, "N=5"] for w in range(6) for n in range(1, 6)], bound="every input of 1..5 bytes", search=3, max_len=220, **B)
unit("C02", "enc_size", entry="h_enc_size", kind="proof", variants=[["KW=%d" % w] for w in range(6)], **B)
unit("C02", "decode_any", entry="h_decode_any", kind="bounded", variants=[["KW=%d" % w, "KN=%d" % n, "N=5"] for w in range(6) for n in range(1, 6)], thorough_variants=[["KW=%d" % w, "KN=%d" % n, "N=8"] for w in range(6) for n in range(1, 8)], bound="every text of up to 5 characters", search=8, max_len=220, **B)

S = dict(src="cstr.c", repo_srcs=["zt_cstr.c", "zt_malloc.c", "zt_ptr_array.c"], kind="bounded", search=4, max_len=120)


def one(hi, lo=0):
    return [["KL=%d" % n] for n in range(lo, hi + 1)]


def two(pairs, lo=0):
    return [["KL=%d" % n, "KM=%d" % m] for n, m in pairs]


def sq(a, b, lo=0, lom=0):
    return two([(n, m) for n in range(lo, a + 1) for m in range(lom, b + 1)])


def x2(v):
    return [d + ["KX=%d" % x] for d in v for x in (0, 1)]


prop("C03", "other", explanation="contracts discharged for every content of buffers up to the stated sizes (loops unwound, not cut by an invariant)")
unit("C03", "binary_to_hex", entry="h_hex", fns=["zt_binary_to_hex", "zt_hex_to_binary"], variants=one(4), thorough_variants=one(8), thorough_defs=["N=8"], bound="0..4 bytes, every room 0..11", **S)
unit("C03", "hex_to_binary", entry="h_unhex", fns=["zt_hex_to_binary"], variants=one(6), quick_defs=["N=3"], thorough_variants=one(9), thorough_defs=["N=5"], bound="every text of 0..6 characters, every room 0..5", **S)
unit("C03", "hexdump_long", entry="h_hexdump_long", fns=["zt_hexdump"], variants=[["KL=4200"]], unroll=80000, bound="67200 bytes of fixed contents (the addresses of 4200 lines)", **S)
unit("C03", "hexdump", entry="h_hexdump", fns=["zt_hexdump", "zt_hexdump_str"], variants=[["KL=%d" % n] for n in (0, 1, 15, 16, 17, 31, 32, 33)], thorough_variants=one(34), bound="every content of 0, 1, 15..17, 31..33 bytes", **S)

prop("C25", "other", explanation="contracts discharged for every content, every index pair, of strings up to the stated lengths")
unit("C25", "sub", entry="h_sub", fns=["zt_cstr_sub", "zt_cstr_len", "zt_cstr_pos"], variants=one(4), thorough_variants=one(7), bound="strings of 0..4 characters", **S)
unit("C25", "reverse", entry="h_reverse", fns=["zt_cstr_reverse"], variants=one(4), thorough_variants=one(7), bound="strings of 0..4 characters", **S)
unit("C25", "dup", entry="h_dup", fns=["zt_cstr_dup"], variants=one(3), thorough_variants=one(5), bound="strings of 0..3 characters, 0..3 copies", **S)
unit("C25", "cat", entry="h_cat", fns=["zt_cstr_cat"], variants=x2(sq(3, 3)), bound="strings of 0..3 characters", **S)
unit("C25", "catv", entry="h_catv", fns=["zt_cstr_catv"], variants=x2(two([(0, 2), (2, 0), (3, 3)])), thorough_variants=x2(sq(4, 4)), bound="strings of 0..3 characters, three slices", **S)
unit("C25", "map", entry="h_map", fns=["zt_cstr_map"], variants=two([(0, 1), (1, 1), (2, 1), (2, 2), (3, 0)]), thorough_variants=sq(3, 3), bound="strings of 0..3 characters, maps of 0..2 pairs", **S)
unit("C25", "cmp", entry="h_cmp", fns=["zt_cstr_cmp"], variants=x2(sq(3, 3)), bound="strings of 0..3 characters", **S)
unit("C25", "copy", entry="h_copy", fns=["zt_cstr_copy"], variants=one(4), bound="strings of 0..4 characters, room 0..6", **S)

prop("C26", "other", explanation="contracts discharged for every content, every index pair, of strings up to the stated lengths")
unit("C26", "chr", entry="h_chr", fns=["zt_cstr_chr", "zt_cstr_rchr"], variants=one(4), bound="strings of 0..4 characters", **S)
unit("C26", "set", entry="h_set", fns=["zt_cstr_upto", "zt_cstr_rupto", "zt_cstr_any", "zt_cstr_rany"], variants=sq(3, 2), thorough_variants=sq(4, 3), bound="strings of 0..3 characters, sets of 0..2", **S)
unit("C26", "find", entry="h_find", fns=["zt_cstr_find", "zt_cstr_rfind"], variants=sq(4, 3), thorough_variants=sq(5, 4), bound="strings of 0..4 characters, patterns of 0..3", **S)
unit("C26", "spn", entry="h_spn", fns=["zt_cstr_rspn", "zt_cstr_rcspn"], variants=sq(4, 2), bound="strings of 0..4 characters, sets of 0..2", **S)
unit("C26", "chomp", entry="h_chomp", fns=["zt_cstr_chomp"], variants=one(8), thorough_defs=["N=8"], quick_defs=["N=8"], bound="strings of 0..8 characters", **S)
unit("C26", "strip", entry="h_strip", fns=["zt_cstr_strip", "zt_cstr_rspn"], variants=one(6), quick_defs=["N=6"], thorough_defs=["N=8"], thorough_variants=one(8), bound="strings of 0..6 characters", **S)

prop("C27", "proof")
unit("C27", "display_len", entry="h_intlen", fns=["zt_cstr_int_display_len"], claim="every int", **dict(S, kind="proof"))
unit("C27", "itoa", entry="h_itoa", fns=["zt_cstr_itoa", "zt_cstr_int_display_len"], variants=[["KD=%d" % d, "KS=%d" % s, "KM=1"] for d in range(10, 0, -1) for s in (0, 1)],
     thorough_variants=[["KD=%d" % d, "KS=%d" % s, "KM=%d" % m] for d in range(10, 0, -1) for s in (0, 1) for m in (0, 1, 3)],
     claim="every int (split by digit count and sign), at the stated offsets, with room none / one short / exact / plenty", **dict(S, kind="proof"))

prop("C28", "other", explanation="contracts discharged for every path up to the stated lengths")
unit("C28", "dirname", entry="h_dirname", fns=["zt_cstr_dirname"], variants=one(5), quick_defs=["N=5"], thorough_defs=["N=7"], thorough_variants=one(7), bound="paths of 0..5 characters, room 1..7", **S)
unit("C28", "any_path", entry="h_dirname_any", fns=["zt_cstr_dirname", "zt_cstr_basename"], variants=one(5), quick_defs=["N=5"], bound="paths of 0..5 characters, room 1..7", **S)
unit("C28", "basename", entry="h_basename", fns=["zt_cstr_basename"], variants=sq(4, 2), thorough_defs=["N=5"], thorough_variants=sq(5, 3), bound="paths of 0..4 characters, suffixes of 0..2", **S)
unit("C28", "append", entry="h_append", fns=["zt_cstr_path_append", "zt_cstr_abspath"], variants=sq(4, 4, 1, 1), bound="parts of 1..4 characters", **S)

prop("C32", "other", explanation="contracts discharged for every content of strings up to the stated lengths")
unit("C32", "split", entry="h_split", fns=["zt_cstr_split", "zt_cstr_split_free"], variants=sq(5, 2, 0, 1), quick_defs=["N=6"], thorough_defs=["N=8"], thorough_variants=sq(6, 3, 0, 1), bound="strings of 0..5 characters, 1..2 delimiters", **S)
unit("C32", "cut", entry="h_cut", fns=["zt_cstr_cut"], variants=one(6), quick_defs=["N=6"], bound="strings of 0..6 characters", **S)
unit("C32", "tok", entry="h_tok", fns=["zt_cstr_tok"], variants=one(6), quick_defs=["N=6"], bound="strings of 0..6 characters", **S)

prop("C21", "other", explanation="tables holding one network of any length and address, asked for any network; two and three networks of the listed lengths and any addresses; tables holding networks of all lengths; another table made before or after, destroyed or not; contents bounded, addresses arbitrary")
P = dict(src="ipv4.c", repo_srcs=["zt_mem.c", "zt_atexit.c", "zt_malloc.c"], unroll=600)
H = dict(entry="h_history", kind="bounded", fns=["zt_ipv4_tbl_init", "zt_ipv4_tbl_add_frm_str", "zt_ipv4_tbl_add_node", "zt_ipv4_tbl_search_from_str", "zt_ipv4_tbl_search_node", "ipv4_tbl_addr_cmp", "zt_ipv4_tbl_destroy"], **P)
unit("C21", "one", variants=[["KN=1", "KL0=%d" % l, "KSZ=%d" % s, "KT=%d" % t] for l, s, t in ((0, 2, 0), (1, 1, 1), (8, 4, 2), (24, 0, 0), (31, 3, 3), (32, 2, 0))],
     thorough_variants=[["KN=1", "KL0=%d" % l, "KSZ=%d" % (1 + l % 4), "KT=%d" % (l % 4)] for l in range(33)], bound="one network, of each of the lengths listed in the variants (thorough: every length), any addresses, looking for a network of any length", search=4, **H)
unit("C21", "more", variants=[["KN=2", "KL0=16", "KSZ=2", "KT=1", "KLIST=0,15,16,17,32"], ["KN=2", "KL0=32", "KSZ=3", "KT=3", "KLIST=1,31,32"], ["KN=3", "KL0=16", "KSZ=1", "KT=2", "KLIST=16,24"], ["KN=3", "KL0=24", "KSZ=2", "KT=0", "KLIST=8,24"]],
     thorough_variants=[["KN=2", "KL0=16", "KSZ=2", "KT=1", "KLIST=0,1,15,16,17,24,31,32"], ["KN=2", "KL0=32", "KSZ=3", "KT=3", "KLIST=1,31,32"], ["KN=3", "KL0=16", "KSZ=3", "KT=3", "KLIST=0,8,16,17,32"]], bound="two or three networks of the listed lengths, any addresses, while another table is made and destroyed", **H)
unit("C21", "all", entry="h_all", kind="bounded", bound="networks of all 32 lengths, one in the other", fns=["zt_ipv4_tbl_search_from_str", "zt_ipv4_tbl_search_node"], search=2, **P)
unit("C21", "within", entry="h_cmp", kind="proof", claim="every pair of networks", fns=["ipv4_tbl_addr_cmp"], search=1, **P)
unit("C21", "text", entry="h_text", kind="bounded", variants=[["KA=%d" % a, "KB=%d" % b] for a, b in ((0, 0), (1, 1), (7, 0), (7, 2), (9, 3), (15, 0), (15, 4), (16, 0), (16, 3), (18, 2))], bound="any text of up to 18 characters before a slash and up to 3 digits after it", fns=["zt_ipv4_str2net"], search=2, **P)

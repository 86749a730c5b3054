prop("C30", "other", explanation="one operation with any of the listed texts, two operations, and circles of references through three, from an empty configuration; ini files whose value is any text of up to 3 (thorough 4) characters of those that make numbers, strings, quotes, comments and blanks; lines and block names of 1018 to 1030 characters")
P = dict(src="cfg.c", repo_srcs=["zt_cfg.c", "zt_malloc.c"], kind="bounded", unroll=1100)
S = dict(entry="h_store", fns=["zt_cfg_set", "zt_cfg_get", "zt_cfg_close", "zt_cfg_priv_set", "zt_cfg_priv_get", "zt_cfg_priv_destructor", "cfg_insert_bvv", "get_type", "add_block", "add_variable", "get_block", "get_variable"], **P)
unit("C30", "set", variants=[["STEPS=1"]], bound="one setting: integers from -99 to 99, sixteen texts", search=4, **S)
def L(t): return "KLIST=" + ",".join('"%s"' % x for x in t.split(","))
unit("C30", "again", variants=[["STEPS=2", "KVARS=0,1,3", "KNUM=-7,0", L("pq,a.x")], ["STEPS=2", "KVARS=0,3", "KNUM=31", L("yes,aa.xx,No,a.z")], ["STEPS=2", "KVARS=1,2", "KNUM=9", L("-12,aa.x,'p q',a.xx")]],
     thorough_variants=[["STEPS=2", "KNUM=-7,0", L("pq,a.x,aa.xx,yes")], ["STEPS=2", "KNUM=31", L("aa.x,a.xx,No,a.z")], ["STEPS=2", "KNUM=9223372036854775807,(-9223372036854775807-1)", L("-12,aa.x,'p q',0x1f")]],
     bound="two settings of the listed variables, integers and texts", **S)
unit("C30", "circles", variants=[["STEPS=3", "KVARS=0,3", "KNUM=5", L("a.x,aa.xx")], ["STEPS=3", "KVARS=%d,%d" % (0, 1), "KNUM=5", L("a.x,a.xx")]], thorough_variants=[["STEPS=4", "KVARS=0,3", "KNUM=5", L("a.x,aa.xx")], ["STEPS=3", "KVARS=0,1,3", "KNUM=5", L("a.x,a.xx,aa.xx")]],
     bound="three settings of variables that may refer to each other and themselves", **S)
F = ["zt_cfg_ini", "parse_cfg", "parse_file", "parse_line", "parse_block", "cfg_discard_line", "cfg_discard_whitespace", "get_type", "cfg_insert_bvv"]
unit("C30", "value", entry="h_value", fns=F, variants=[["KV=%d" % k, "KE=%d" % e] for k in range(3) for e in range(4)] + [["KV=3", "KE=%d" % e] for e in (1, 2)],
     thorough_variants=[["KV=%d" % k, "KE=%d" % e] for k in range(4) for e in range(4)] + [["KV=4", "KE=1"]], bound="values of up to 3 characters of 9, at the end of the file or not", search=3, **P)
unit("C30", "limits", entry="h_limits", fns=F, variants=[["KF=%d" % i] for i in range(6)], bound="lines and block names of 1018 to 1030 characters", search=1, **P)

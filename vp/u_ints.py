prop("C15", "proof")
def both(name, entry, n, claim, fns):
    for a in (False, True):
        unit("C15", name + ("_asserts" if a else ""), "ints.c", entry, "proof", variants=[["KO=%d" % i] for i in range(n)], asserts=a, repo_srcs=[], search=2, fns=fns,
             claim=claim + (" with assertions compiled in: reported exactly when there is no result" if a else " with assertions compiled out: exact whenever there is a result"))
both("addsubmul", "h_ops", 22, "add, sub and mul of every type and all operands,", ["zt_%s_%s" % (t, o) for o in ("add", "sub", "mul") for t in ("char", "short", "int", "uchar", "ushort", "uint")] + ["zt_long_add", "zt_long_sub", "zt_ulong_add", "zt_ulong_sub"])
both("div", "h_div", 6, "division of every type and all operands,", ["zt_%s_div" % t for t in ("char", "short", "int", "uchar", "ushort", "uint")])

prop("C31", "bounded")
P = dict(src="gc.c", repo_srcs=["zt_gc.c", "zt_malloc.c"])
F = ["zt_gc_register", "zt_gc_collect", "zt_gc_mark", "zt_gc_protect", "zt_gc_unprotect", "zt_gc_unregister", "zt_gc_enable", "zt_gc_disable", "zt_gc_free_white", "zt_gc_switch", "zt_gc_destroy"]
V9 = [["KN=%d" % n, "KP=%d" % p, "KSTEPS=%d" % k, "KOP=9"] for n in (3, 4) for p in range(1 << (n - 1)) for k in (0, 1, 2)]
V3 = [["KN=3", "KP=%d" % p, "KOP=%d" % o] for p in range(8) for o in range(9)]
unit("C31", "cycle", entry="h_cycle", kind="bounded", bound="3 values (4 for the last and some subsets and operations; thorough: for all), each referring to any one or none, any subset protected, 0 to 2 steps of a scan, then one operation of the program (protect, unprotect, unregister, store a reference, clear, disable, step, register a new value that takes over a reference), then collections; search: 6 values, any references, up to 7 operations",
     quick_variants=V3 + V9 + [["KN=4", "KP=3", "KSTEPS=1", "KOP=%d" % o] for o in (1,)],
     thorough_variants=V3 + [["KN=4", "KP=%d" % p, "KSTEPS=%d" % k, "KOP=%d" % o] for p in range(16) for k in range(4) for o in range(9)], fns=F, search=6, **P)

A = dict(repo_srcs=["zt_array.c", "zt_malloc.c"], src="array.c", kind="proof", search=3, variants=[["KZ=%d" % z] for z in (1, 2, 3, 4, 8, 16, 24, 40)], claim="arrays of any length, any contents, element sizes 1, 2, 3, 4, 8, 16, 24 and 40")
prop("C05", "proof")
unit("C05", "put_get", entry="h_put", fns=["zt_array_new", "zt_array_put", "zt_array_get", "zt_array_elem_copy", "zt_array_length", "zt_array_size", "zt_array_data", "zt_array_free"], **A)
unit("C05", "resize", entry="h_resize", fns=["zt_array_resize", "zt_array_set_length"], quick_variants=[["KZ=%d" % z] for z in (1, 2, 4, 8, 16)], **A)
unit("C05", "copy", entry="h_copy", fns=["zt_array_copy"], **A)
unit("C05", "with", entry="h_with", fns=["zt_array_with", "zt_array_set_data", "zt_array_set_length"], **A)
B = dict(repo_srcs=["zt_bstream.c", "zt_array.c", "zt_malloc.c"], kind="proof", search=3)
prop("C04", "proof")
TV = [["KT=%d" % t, "KF=%d" % f] for t in range(7) for f in (0, 1)]
FV = [["KF=0"], ["KF=1"]]
unit("C04", "write_typed", src="bstream.c", entry="h_write", fns=["zt_bstream_write", "_array_put", "zt_bstream_rewind"] + ["zt_bstream_write_" + t for t in ("byte", "uint8", "uint16", "uint32", "uint64", "float", "double")], variants=TV, claim="any stream, position, byte order and value, for each type", **B)
unit("C04", "read_typed", src="bstream.c", entry="h_read", fns=["zt_bstream_read", "_array_get"] + ["zt_bstream_read_" + t for t in ("byte", "uint8", "uint16", "uint32", "uint64", "float", "double")], variants=TV, claim="any stream, position and byte order, for each type", **B)
unit("C04", "clone", src="bstream.c", entry="h_clone", fns=["zt_bstream_clone", "zt_bstream_is_empty", "zt_bstream_free"], variants=FV, claim="any stream", **B)
unit("C04", "truncate", src="bstream.c", entry="h_truncate", fns=["zt_bstream_truncate"], variants=FV, claim="any stream", **B)
N = dict(src="bstream_n.c", variants=FV, cut=["_array_put:0", "_array_put:1", "_array_get:0", "_array_get:1"], claim="any number of bytes (byte loops by induction)")
unit("C04", "write_n", entry="h_write_n", fns=["zt_bstream_write", "_array_put"], **N, **B)
unit("C04", "read_n", entry="h_read_n", fns=["zt_bstream_read", "_array_get"], **N, **B)

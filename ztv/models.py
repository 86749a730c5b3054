"""models.py - what ztv assumes about code outside libzt: libc, LLVM intrinsics, the contract vocabulary."""
import z3


def register(Z):
    is_c, bv, simp, boolv, Ptr, NULL, DEAD, M64, Unsupported = Z.is_c, Z.bv, Z.simp, Z.boolv, Z.Ptr, Z.NULL, Z.DEAD, Z.M64, Z.Unsupported
    EXT, LLVMI, NOPS = Z.EXT, Z.LLVMI, Z.NOPS

    def cstr(E, st, p):
        out = b""
        i = 0
        while True:
            b = E.rbyte(st, p.o, st.mem[p.o], E.padd(p.off, i))
            if not is_c(b):
                return out.decode("latin1") + "..."
            if b == 0:
                return out.decode("latin1")
            out += bytes([b])
            i += 1

    # ---------------------------------------------------------------- contract vocabulary
    def vin(n):
        def f(E, st, fr, I, a):
            v = E.fresh("in%d" % len(st.inputs), 8 * n)
            st.inputs.append(("v", n, v))
            return v
        return f
    for nm, n in (("vp_u8", 1), ("vp_u16", 2), ("vp_u32", 4), ("vp_u64", 8)):
        EXT[nm] = vin(n)

    def vrange(E, st, fr, I, a):
        lo, hi = a
        if not (is_c(lo) and is_c(hi)):
            s = simp(bv(hi, 64) - bv(lo, 64))
            v = E.fresh("in%d" % len(st.inputs), 64)
            st.inputs.append(("v", 8, v))
            if not E.assume(st, z3.ULE(v, bv(s, 64))):
                return DEAD
            return simp(bv(lo, 64) + v)
        s = hi - lo
        n = 1 if s <= 0xff else 2 if s <= 0xffff else 4 if s <= 0xffffffff else 8
        v = E.fresh("in%d" % len(st.inputs), 64)
        st.inputs.append(("v", n, v))
        if s != M64:
            if not E.assume(st, z3.ULE(v, z3.BitVecVal(s, 64))):
                return DEAD
        return simp(bv(lo, 64) + v)
    EXT["vp_range"] = vrange

    def vfix(E, st, fr, I, a):
        lo, hi, k = a
        s = hi - lo
        n = 1 if s <= 0xff else 2 if s <= 0xffff else 4 if s <= 0xffffffff else 8
        st.inputs.append(("v", n, k - lo))
        return k
    EXT["vp_fix"] = vfix

    def vcase(E, st, fr, I, a):
        """a value in [lo,hi], one path per value"""
        lo, hi = a
        if not (is_c(lo) and is_c(hi) and lo <= hi and hi - lo < 4096):
            raise Unsupported("vp_case bounds")
        if st.decide is None:
            raise Z.NeedCase(lo, hi)
        v, st.decide = st.decide, None
        s = hi - lo
        n = 1 if s <= 0xff else 2
        st.inputs.append(("v", n, v - lo))
        return v
    EXT["vp_case"] = vcase

    def vassume(E, st, fr, I, a):
        c = a[0]
        if is_c(c):
            return None if c else DEAD
        return None if E.assume(st, boolv(c)) else DEAD
    EXT["vp_assume"] = vassume

    def vcheck(E, st, fr, I, a):
        c = a[0]
        msg = cstr(E, st, a[1])
        return None if E.oblige(st, (1 if c else 0) if is_c(c) else boolv(c), "postcondition", msg) else DEAD
    EXT["vp_check"] = vcheck

    def vreach(E, st, fr, I, a):
        if not E.dry:
            E.reached += 1
        return None
    EXT["vp_reach"] = vreach

    def vbuf(E, st, fr, I, a):
        """n arbitrary bytes, in an object of exactly n bytes"""
        n = a[0]
        p = E.newobj(st, "buf%d" % len(st.inputs), n, "heap")
        c = st.mem[p.o]
        if c.mode == "d":
            if n <= 64:
                for i in range(n):
                    v = E.fresh("in%d" % len(st.inputs), 8)
                    st.inputs.append(("v", 1, v))
                    c.cells[i] = (1, v)
                return p
            c.mode, c.cells, c.base, c.ups = "l", None, E.fresharr("buf"), ()
        st.inputs.append(("buf", 0, (c.base, n)))
        return p
    EXT["vp_buf"] = vbuf

    def vbytes(E, st, fr, I, a):
        p = E.newobj(st, "bytes", a[0], "heap")
        c = st.mem[p.o]
        c.mode, c.cells, c.base, c.ups = "l", None, E.fresharr("bytes"), ()
        return p
    EXT["vp_bytes"] = vbytes

    def vghost(E, st, fr, I, a):
        fam, ix = a
        f = E.fam.get(fam)
        if f is None:
            f = E.fam[fam] = z3.Array("ghost%d" % fam, z3.BitVecSort(64), z3.BitVecSort(64))
        return simp(z3.Select(f, bv(ix, 64)))
    EXT["vp_ghost"] = vghost

    def vlive(E, st, fr, I, a):
        return sum(1 for o, c in st.mem.items() if c.alive and E.objs[o].kind == "heap")
    EXT["vp_live"] = vlive

    def vsym(E, st, fr, I, a):
        return 0 if is_c(a[0]) else 1
    EXT["vp_is_symbolic"] = vsym

    def vobjsize(E, st, fr, I, a):
        return E.objs[a[0].o].size if a[0].o else 0
    EXT["vp_objsize"] = vobjsize

    # ---------------------------------------------------------------- allocation
    def malloc(E, st, fr, I, a):
        return E.newobj(st, "heap@" + E.where(st), a[0], "heap")
    EXT["malloc"] = malloc

    def calloc(E, st, fr, I, a):
        n = a[0] * a[1] if is_c(a[0]) and is_c(a[1]) else simp(bv(a[0], 64) * bv(a[1], 64))
        return E.newobj(st, "heap@" + E.where(st), n, "heap", "zero")
    EXT["calloc"] = calloc

    def free(E, st, fr, I, a):
        p = E.norm(st, a[0])
        if p.o == 0:
            if is_c(p.off) and p.off == 0:
                return None
            E.oblige(st, 0 if is_c(p.off) else p.off == 0, "memory", "free of an invalid pointer")
            return None
        o = E.objs[p.o]
        if o.kind != "heap":
            return None if E.oblige(st, 0, "memory", "free of a pointer that is not from malloc") else DEAD
        if not st.mem[p.o].alive:
            return None if E.oblige(st, 0, "memory", "double free") else DEAD
        if not E.oblige(st, int(p.off == 0) if is_c(p.off) else p.off == 0, "memory", "free of the start of an allocation"):
            return DEAD
        for f in st.frames:
            for c in f.cuts:
                if p.o < c.mark:
                    raise Unsupported("free inside a cut loop")
        E.w(st, p.o).alive = False
        return None
    EXT["free"] = free

    def realloc(E, st, fr, I, a):
        p, n = E.norm(st, a[0]), a[1]
        if p.o == 0:
            return malloc(E, st, fr, I, [n])
        if not st.mem[p.o].alive or E.objs[p.o].kind != "heap":
            E.oblige(st, 0, "memory", "realloc of an invalid pointer")
            return DEAD
        if not E.oblige(st, int(p.off == 0) if is_c(p.off) else p.off == 0, "memory", "realloc of the start of an allocation"):
            return DEAD
        q = malloc(E, st, fr, I, [n])
        old = E.objs[p.o].size
        if is_c(old) and is_c(n):
            m = min(old, n)
        else:
            m = simp(z3.If(z3.ULT(bv(old, 64), bv(n, 64)), bv(old, 64), bv(n, 64)))
        if not E.memcpy(st, q, Ptr(p.o, 0), m):
            return DEAD
        for f in st.frames:
            for c in f.cuts:
                if p.o < c.mark:
                    raise Unsupported("realloc inside a cut loop")
        E.w(st, p.o).alive = False
        return q
    EXT["realloc"] = realloc

    def abort_(E, st, fr, I, a):
        E.oblige(st, 0, "abort", "abort() is not reached under the precondition")
        return DEAD
    EXT["abort"] = EXT["__assert_fail"] = EXT["exit"] = abort_

    # ---------------------------------------------------------------- memory
    def memcpy(E, st, fr, I, a):
        return a[0] if E.memcpy(st, a[0], a[1], a[2]) else DEAD
    EXT["memcpy"] = EXT["memmove"] = memcpy

    def memset(E, st, fr, I, a):
        return a[0] if E.memset(st, a[0], a[1], a[2]) else DEAD
    EXT["memset"] = memset

    def bzero(E, st, fr, I, a):
        return None if E.memset(st, a[0], 0, a[1]) else DEAD
    EXT["bzero"] = bzero
    LLVMI["llvm.memcpy"] = LLVMI["llvm.memmove"] = memcpy
    LLVMI["llvm.memset"] = memset

    def nop(E, st, fr, I, a):
        return None
    for k in ("llvm.va_end", "llvm.assume", "llvm.stackrestore", "llvm.experimental", "llvm.prefetch"):
        LLVMI[k] = nop

    def vastart(E, st, fr, I, a):
        vals, tys = fr.va
        p = E.newobj(st, "varargs@" + fr.fn.name, max(8, sum((max(8, t.size) + 7) // 8 * 8 for t in tys)), "stack")
        fr.allocas.append(p.o)
        off = 0
        for v, t in zip(vals, tys):
            if t.k == "fp" and t.w == 80:
                off = (off + 15) // 16 * 16
                E.objs[p.o].size += 16
            if not E.store(st, Ptr(p.o, off), v, t):
                return DEAD
            off += (max(8, t.size) + 7) // 8 * 8
        i32, ptr = E.ity(32), Z.ir.Ty()
        ptr.k, ptr.w, ptr.store, ptr.size = "ptr", 64, 8, 8
        q = a[0]
        E.store(st, q, 48, i32)
        E.store(st, Ptr(q.o, E.padd(q.off, 4)), 176, i32)
        E.store(st, Ptr(q.o, E.padd(q.off, 8)), p, ptr)
        E.store(st, Ptr(q.o, E.padd(q.off, 16)), NULL, ptr)
        return None
    LLVMI["llvm.va_start"] = vastart

    def vacopy(E, st, fr, I, a):
        return None if E.memcpy(st, a[0], a[1], 24) else DEAD
    LLVMI["llvm.va_copy"] = vacopy

    def minmax(kind):
        def f(E, st, fr, I, a):
            w = I.ty.w
            c = E.icmp(st, kind, a[0], a[1], I.ty)
            return E.ite(c, a[0], a[1], I.ty)
        return f
    for n, k in (("umin", "ult"), ("umax", "ugt"), ("smin", "slt"), ("smax", "sgt")):
        LLVMI["llvm." + n] = minmax(k)

    def labs(E, st, fr, I, a):
        w = I.ty.w
        c = E.icmp(st, "slt", a[0], 0, I.ty)
        return E.ite(c, E.binop(st, "sub", 0, a[0], w), a[0], I.ty)
    LLVMI["llvm.abs"] = labs
    EXT["abs"] = EXT["labs"] = labs

    def bswap(E, st, fr, I, a):
        w = I.ty.w
        if is_c(a[0]):
            return int.from_bytes(a[0].to_bytes(w // 8, "little"), "big")
        return z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, a[0]) for i in range(w // 8)])
    LLVMI["llvm.bswap"] = bswap

    def expect(E, st, fr, I, a):
        return a[0]
    LLVMI["llvm.expect"] = expect
    EXT["__builtin_expect"] = expect
    LLVMI["llvm.objectsize"] = lambda E, st, fr, I, a: M64
    LLVMI["llvm.is.constant"] = lambda E, st, fr, I, a: 0
    LLVMI["llvm.stacksave"] = lambda E, st, fr, I, a: NULL

    def fsh(left):
        def f(E, st, fr, I, a):
            w = I.ty.w
            A, B, C = bv(a[0], w), bv(a[1], w), bv(a[2], w)
            s = z3.URem(C, z3.BitVecVal(w, w))
            s2 = z3.ZeroExt(w, s)
            x = z3.Concat(A, B)
            return simp(z3.Extract(2 * w - 1, w, x << s2) if left else z3.Extract(w - 1, 0, z3.LShR(x, s2)))
        return f
    LLVMI["llvm.fshl"] = fsh(True)
    LLVMI["llvm.fshr"] = fsh(False)

    def ovf(op, signed):
        def f(E, st, fr, I, a):
            w = I.ty.fields[0].w
            A, B = bv(a[0], w), bv(a[1], w)
            ext = z3.SignExt if signed else z3.ZeroExt
            x, y = ext(w, A), ext(w, B)
            r = x + y if op == "add" else x - y if op == "sub" else x * y
            lo = z3.Extract(w - 1, 0, r)
            return [simp(lo), simp(ext(w, lo) != r)]
        return f
    for op in ("add", "sub", "mul"):
        LLVMI["llvm.u%s.with.overflow" % op] = ovf(op, False)
        LLVMI["llvm.s%s.with.overflow" % op] = ovf(op, True)

    # ---------------------------------------------------------------- ctype tables, errno
    import ctypes
    libc = ctypes.CDLL(None)

    def ctab(fname, elt, n, lo):
        def f(E, st, fr, I, a):
            key = "ctab_" + fname
            oid = E.glob.get(key)
            if oid is None:
                p = E.newobj(None, key, (n + lo) * elt, "global", "zero")
                c = E.mem0[p.o]
                fn = getattr(libc, fname)
                T = {2: ctypes.c_uint16, 4: ctypes.c_int32}[elt]
                fn.restype = ctypes.POINTER(ctypes.POINTER(T))
                t = fn()[0]
                tb = []
                for i in range(-lo, n):
                    tb += list((t[i] & ((1 << (8 * elt)) - 1)).to_bytes(elt, "little"))
                c.table = tb
                E.objs[p.o].ro = True
                q = E.newobj(None, key + "_p", 8, "global", "zero")
                E.mem0[q.o].cells[0] = (8, Ptr(p.o, lo * elt))
                E.glob[key] = q.o
                E.glob[key + "_t"] = p.o
                oid = q.o
            for k in (oid, E.glob[key + "_t"]):
                if k not in st.mem:
                    st.mem[k] = E.mem0[k].clone(None)
            return Ptr(oid, 0)
        return f
    EXT["__ctype_b_loc"] = ctab("__ctype_b_loc", 2, 256, 128)
    EXT["__ctype_tolower_loc"] = ctab("__ctype_tolower_loc", 4, 256, 128)
    EXT["__ctype_toupper_loc"] = ctab("__ctype_toupper_loc", 4, 256, 128)

    def casemap(lo, hi, d):
        def f(E, st, fr, I, a):
            v = a[0]
            if is_c(v):
                return (v + d) & 0xffffffff if lo <= v <= hi else v
            return z3.If(z3.And(z3.UGE(v, lo), z3.ULE(v, hi)), v + d, v)
        return f
    EXT["tolower"] = casemap(65, 90, 32)
    EXT["toupper"] = casemap(97, 122, -32)

    def errno_(E, st, fr, I, a):
        oid = E.glob.get("errno")
        if oid is None:
            p = E.newobj(None, "errno", 4, "global", "zero")
            oid = E.glob["errno"] = p.o
        if oid not in st.mem:
            st.mem[oid] = E.mem0[oid].clone(None)
        return Ptr(oid, 0)
    EXT["__errno_location"] = errno_

    for n in ("_zt_log_assertion", "_zt_log_abort", "fflush", "printf", "fprintf", "puts", "putchar", "perror", "vfprintf", "fputs", "fputc", "fwrite",
              "zt_log_lprintf", "zt_log_printf", "zt_log_logger"):
        NOPS[n] = 0

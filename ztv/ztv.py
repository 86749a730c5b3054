#!/usr/bin/env python3-vt
"""ztv.py - deductive verifier for the LLVM IR that clang emits for the real libzt sources.

A proof unit is a C function (the contract: preconditions VP_ASSUME, a call of the real code, postconditions
VP_CHECK).  ztv executes it symbolically over z3 bit-vectors: every memory access, division, abort and VP_CHECK is
an obligation that must be unsatisfiable to violate.  A loop is either executed to its end (complete whenever the
path conditions bound it) or cut by induction on its iteration number k: linear header variables are inferred, guard
facts and no-wrap facts are candidates kept only if inductive (Houdini), and the unit's own invariant
(vp_inv__FUNC__N(k), plain C over the contract's objects) must hold initially and be preserved.
"""
import argparse, json, struct, sys, time, ctypes, os, re, subprocess, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3
import ir
import sweep

CVC5 = shutil.which("cvc5")

M64 = (1 << 64) - 1
sys.setrecursionlimit(20000)


class Unsupported(Exception):
    pass


class Stop(Exception):
    pass


class Ptr:
    __slots__ = ("o", "off")

    def __init__(self, o, off):
        self.o = o
        self.off = off

    def __repr__(self):
        return "Ptr(%s,%s)" % (self.o, self.off)


NULL = Ptr(0, 0)


def fps(w):
    return z3.Float32() if w == 32 else z3.Float64()


def fpx(v, w):
    """z3 floating point term of a value (python float, bits, or term)"""
    if isinstance(v, z3.FPRef):
        return v
    if isinstance(v, z3.BitVecRef):
        return z3.fpBVToFP(v, fps(w))
    n = struct.unpack("<Q", struct.pack("<d", v))[0] if w == 64 else struct.unpack("<I", struct.pack("<f", v))[0]
    return z3.fpBVToFP(z3.BitVecVal(n, w), fps(w))


class FPV:
    """floating point value: v is a python float, a bit vector with its representation, or a z3 floating point term"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Obj:
    __slots__ = ("id", "name", "size", "kind", "ro", "addr", "fn", "loc")


class Content:
    """bytes of one object: cells (exact layout) or an update list over a base array"""
    __slots__ = ("mode", "cells", "init", "base", "ups", "alive", "owner", "table", "fresh")

    def clone(self, owner):
        c = Content()
        c.mode, c.cells, c.init, c.base, c.ups, c.alive, c.owner, c.table, c.fresh = self.mode, dict(self.cells) if self.cells is not None else None, self.init, self.base, self.ups, self.alive, owner, self.table, self.fresh
        return c


class Mem(dict):
    """object id -> Content; globals appear on first use"""
    base = None

    def __missing__(self, k):
        c = self.base[k].clone(None)
        self[k] = c
        return c


class Frame:
    __slots__ = ("fn", "bb", "prev", "pc", "env", "ret", "cuts", "iters", "allocas", "va", "pure", "line")

    def clone(self):
        f = Frame()
        f.fn, f.bb, f.prev, f.pc, f.env, f.ret, f.cuts, f.iters, f.allocas, f.va, f.pure, f.line = self.fn, self.bb, self.prev, self.pc, dict(self.env), self.ret, list(self.cuts), dict(self.iters), list(self.allocas), self.va, self.pure, self.line
        return f


class State:
    __slots__ = ("frames", "mem", "pc", "inputs", "tok", "ins", "hist", "seq", "decide")

    def fork(self):
        s = State()
        s.frames = [f.clone() for f in self.frames]
        s.mem = Mem(self.mem)
        s.mem.base = self.mem.base
        s.pc = list(self.pc)
        s.inputs = list(self.inputs)
        s.ins = dict(self.ins)
        s.seq = self.seq
        s.decide = None
        self.tok = object()
        s.tok = object()
        return s


class Cut:
    __slots__ = ("header", "blocks", "dry", "col", "mark", "fn", "idx", "k", "check", "depth", "writes", "pc0")


def is_c(v):
    return type(v) is int


def bv(v, w):
    if type(v) is int:
        return z3.BitVecVal(v, w)
    if z3.is_bool(v):
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return v


def boolv(v):
    if type(v) is int:
        return z3.BoolVal(bool(v & 1))
    if z3.is_bool(v):
        return v
    return v != 0


def simp(v):
    if type(v) is int:
        return v
    v = z3.simplify(v)
    if z3.is_bv_value(v):
        return v.as_long()
    if z3.is_true(v):
        return 1
    if z3.is_false(v):
        return 0
    return v


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


class Engine:
    def __init__(self, mod, opt):
        self.m = mod
        self.opt = opt
        self.objs = {}
        self.nobj = 1
        self.nvar = 0
        self.fpbits = {}
        self.varnum = {}
        self.glob = {}
        self.fnobj = {}
        self.keep = []
        self.varcache = {}
        self.lazy = {}
        self.nsweep = 0
        self.sweeps = 2
        self.sweeper = None
        self.tsize = {}
        self.rawof = {}         # comparison -> its operands before simplification
        self.quot = {}
        self.dry = 0
        self.results = {}      # obligation name -> [count proved, status, info]
        self.viol = []
        self.unwind = []
        self.reached = 0
        self.paths = 0
        self.queries = 0
        self.qtime = 0.0
        self.unknowns = []
        self.executed = set()
        self.cutinfo = {}
        self.t0 = time.time()
        self.steps = 0
        self.assumed = set()
        self.externs = set()
        self.divc, self.divroot = {}, {}
        self.ncvc5 = 0
        self.mem0 = {}
        self.fam = {}
        self.qcache = {}
        self.tables = {}
        self.loopspec = set()
        self.noqf = False
        self.forks = {}
        for n in mod.fns:
            if n.startswith("vp_inv__"):
                p = n.split("__")
                self.loopspec.add(("__".join(p[1:-1]), int(p[-1])))
        for c in opt.cut or []:
            fn, i = c.rsplit(":", 1)
            self.loopspec.add((fn, -1 if i == "*" else int(i)))

    # ------------------------------------------------------------------ variables, solver
    def fresh(self, name, w):
        self.nvar += 1
        n = "%s!%d" % (name, self.nvar)
        v = z3.Bool(n) if w == 1 else z3.BitVec(n, w)
        return v

    def fresharr(self, name):
        self.nvar += 1
        return z3.Array("%s!%d" % (name, self.nvar), z3.BitVecSort(64), z3.BitVecSort(8))

    def vars(self, e):
        i = e.get_id()
        r = self.varcache.get(i)
        if r is not None:
            return r
        st = [e]
        while st:
            x = st[-1]
            xi = x.get_id()
            if xi in self.varcache:
                st.pop()
                continue
            ch = x.children()
            todo = [c for c in ch if c.get_id() not in self.varcache]
            if todo:
                st += todo
                continue
            s = frozenset()
            if not ch:
                if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    s = frozenset([x.decl().name()])
            else:
                ss = [self.varcache[c.get_id()] for c in ch]
                big = max(ss, key=len)
                if all(q <= big for q in ss):
                    s = big
                else:
                    s = frozenset().union(*ss)
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    s = s | frozenset(["fn:" + x.decl().name()])
            self.varcache[xi] = s
            self.keep.append(x)
            st.pop()
        return self.varcache[i]

    def slice(self, pc, extra):
        want = set()
        for e in extra:
            want |= self.vars(e)
        rest = list(pc)
        out = []
        ch = True
        while ch:
            ch = False
            nr = []
            for c in rest:
                vs = self.vars(c)
                if vs & want or not vs:
                    if not vs <= want:
                        want |= vs
                        ch = True
                    out.append(c)
                else:
                    nr.append(c)
            rest = nr
        return out

    def solve(self, cons, timeout=None, model=False):
        """quotients are variables whose exact definition is used only when a query cannot be answered without it"""
        if not self.lazy:
            return self.solve1(cons, timeout, model)
        names, defs, todo = set(), [], list(cons)
        while todo:
            for v in self.vars(todo.pop()):
                if v in self.lazy and v not in names:
                    names.add(v)
                    defs.append(self.lazy[v])
                    todo.append(self.lazy[v])
        if not defs:
            return self.solve1(cons, timeout, model)
        if not model:
            r, m = self.solve1(cons, timeout, False)
            if r == z3.unsat:
                return r, m
        return self.solve1(cons + defs, timeout, model)

    def solve1(self, cons, timeout=None, model=False):
        if self.opt.deadline and time.time() - self.t0 > self.opt.deadline:
            raise Stop("time limit")
        key = None
        if not model:
            key = frozenset(c.get_id() for c in cons)
            r = self.qcache.get(key)
            if r is not None:
                return r, None
        t = time.time()
        self.queries += 1
        tmo = timeout or self.opt.qtimeout
        qf = not self.noqf
        s = z3.SolverFor("QF_AUFBV") if qf else z3.Solver()
        first = min(tmo, 1.5) if qf and CVC5 else tmo
        s.set("timeout", int(first * 1000))
        for c in cons:
            s.add(c)
        r = s.check()
        if r == z3.unknown and not model and self.swept(cons):
            r = z3.unsat
        if r == z3.unknown and qf and CVC5:
            r, vals = self.cvc5(cons, max(tmo, 6), False)
            if r == z3.sat and model:
                r, vals = self.cvc5(cons, max(tmo, 6), True)
            if r != z3.unknown:
                self.ncvc5 += 1
            if r == z3.sat and model:
                s = z3.Solver()
                s.set("timeout", int(max(tmo, 20) * 1000))
                for c in cons:
                    s.add(c)
                for c in vals:
                    s.add(c)
                if s.check() != z3.sat:
                    r = z3.unknown
        if r == z3.unknown and tmo > 3:
            s = z3.Solver()
            s.set("timeout", int(tmo * 1000))
            for c in cons:
                s.add(c)
            r = s.check()
        dt = time.time() - t
        self.qtime += dt
        if self.opt.v and dt > 1:
            print("   [query %.1fs %s, %d constraints]" % (dt, r, len(cons)), file=sys.stderr)
            if os.environ.get("ZTV_DUMP"):
                s3 = z3.Solver()
                for c in cons:
                    s3.add(c)
                open(os.path.join(os.environ["ZTV_DUMP"], "q%d.smt2" % self.queries), "w").write("; %s %.1f\n(set-logic QF_AUFBV)\n" % (r, dt) + s3.to_smt2())
        if key is not None and r != z3.unknown:
            self.qcache[key] = r
            self.keep += cons
        return r, (s.model() if r == z3.sat and model else None)

    def swept(self, cons):
        """is the query the negation of an equality that can be proved from the inside out?"""
        for c in reversed(cons):
            x = self.rawof.get(c.arg(0).get_id()) if z3.is_not(c) else self.rawof.get(z3.simplify(z3.Not(c)).get_id())
            if x is not None and not z3.is_bv_value(x[1]) and not z3.is_bv_value(x[2]):
                w = self.sweeper = self.sweeper or sweep.Sweep()
                w.end = time.time() + (60 if self.sweeps >= 0 else 4)
                try:
                    r = w.equal(x[1], x[2])
                except z3.Z3Exception as e:     # no proof; a fresh start for the next one
                    if self.opt.v:
                        print("   [sweep gave up: %s]" % e, file=sys.stderr)
                    self.sweeper, r = None, False
                self.sweeps += 2 if r else -1
                self.nsweep += 1
                if self.opt.v:
                    print("   [sweep %s, %d queries, %d terms]" % (r, w.queries, len(w.rep)), file=sys.stderr)
                if r:
                    return True
        return False

    def cvc5(self, s, tmo, model):
        """second back end: cvc5 (CaDiCaL) on the same query"""
        s2 = z3.Solver()
        for c in s:
            s2.add(c)
        txt = "(set-logic QF_AUFBV)\n" + s2.to_smt2()
        if model:
            txt = "(set-option :produce-models true)\n" + txt + "(get-model)\n"
        try:
            p = subprocess.run([CVC5, "--lang=smt2", "--tlimit=%d" % int(tmo * 1000), "-"], input=txt, capture_output=True, text=True, timeout=tmo + 20)
        except subprocess.TimeoutExpired:
            return z3.unknown, []
        ans = p.stdout.split(None, 1)[0] if p.stdout.strip() else ""
        if self.opt.v and ans not in ("sat", "unsat"):
            print("   [cvc5] ", tmo, p.stdout[:300], p.stderr[:300], file=sys.stderr)
        if ans not in ("sat", "unsat") or "(error" in p.stdout.split("\n")[0]:
            return z3.unknown, []
        vals = []
        if self.opt.v and os.environ.get("ZTV_CVC"):
            print("   [cvc5]", ans, file=sys.stderr)
        if ans == "sat" and model:
            for n, w, v in re.findall(r"\(define-fun (\S+) \(\) \(_ BitVec (\d+)\) #b([01]+)\)", p.stdout):
                vals.append(z3.BitVec(n.strip("|"), int(w)) == z3.BitVecVal(int(v, 2), int(w)))
        return (z3.sat if ans == "sat" else z3.unsat), vals

    def feasible(self, st, c):
        """can c (a Bool) hold together with the path condition?"""
        c = simp(c)
        if is_c(c):
            return bool(c)
        i, j = c.get_id(), z3.simplify(z3.Not(c)).get_id()
        for x in st.pc:
            k = x.get_id()
            if k == i:
                return True
            if k == j:
                return False
        r, _ = self.solve(self.slice(st.pc, [c]) + [c], self.opt.ftimeout)
        return r != z3.unsat      # unknown: explore the path all the same (sound)

    def assume(self, st, c):
        """adds c; False if the path becomes infeasible"""
        if is_c(c):
            return bool(c)
        c = simp(c)
        if is_c(c):
            return bool(c)
        if not self.feasible(st, c):
            return False
        self.addpc(st, c)
        return True

    def addpc(self, st, c):
        if z3.is_and(c):
            for x in c.children():
                self.addpc(st, x)
        else:
            st.pc.append(c)

    def where(self, st):
        for f in reversed(st.frames):
            B = f.fn.bbs[f.bb]
            i = B.insts[min(f.pc, len(B.insts) - 1)]
            if i.line:
                return "%s:%d (%s)" % (i.file or f.fn.file, i.line, f.fn.name)
        return st.frames[-1].fn.name

    def oblige(self, st, c, kind, msg=""):
        """c must hold on every state reaching this point; afterwards it is assumed"""
        raw = None if is_c(c) else self.rawof.get(c.get_id())
        c = simp(c) if not is_c(c) else c
        if raw is not None and not is_c(c):
            self.rawof[c.get_id()] = (c,) + raw[1:]
        if self.dry:
            if is_c(c):
                return bool(c)
            self.addpc(st, c)
            return True
        # the innermost location inside the code under test
        name = "%s @ %s" % (msg or kind, self.where(st))
        r = self.results.setdefault(name, {"kind": kind, "proved": 0, "failed": 0, "unknown": 0})
        if is_c(c):
            if c:
                r["proved"] += 1
                return True
            self.fail(st, name, kind, None)
            r["failed"] += 1
            return False
        n = z3.Not(c)
        q, _ = self.solve(self.slice(st.pc, [n]) + [n])
        if q == z3.unsat:
            r["proved"] += 1
            self.addpc(st, c)
            return True
        if q == z3.sat:
            r["failed"] += 1
            self.fail(st, name, kind, n)
        else:
            r["unknown"] += 1
            self.unknowns.append(name)
        return self.assume(st, c)

    def fail(self, st, name, kind, neg):
        incut = any(f.cuts for f in st.frames) or st.seq
        v = {"name": name, "kind": kind, "incut": bool(incut), "inputs": None, "stack": [f.fn.name for f in st.frames]}
        if sum(1 for x in self.viol if x["name"] == name) < 2:
            r, m = self.solve(list(st.pc) + ([neg] if neg is not None else []), model=True)
            if r == z3.sat:
                v["inputs"] = self.model_inputs(st, m)
                vals = []
                for c in m.decls():
                    if c.arity() == 0 and z3.is_bv_value(m[c]):
                        vals.append("%s=0x%x" % (c.name(), m[c].as_long()))
                v["model"] = sorted(vals)[:60]
            elif r == z3.unsat:
                return
        self.viol.append(v)
        if len(self.viol) >= 12:
            raise Stop("many failures")

    def model_inputs(self, st, m):
        out = bytearray()
        for k, n, val in st.inputs:
            if k == "buf":      # n: size expr, val: base array
                sz = val[1] if is_c(val[1]) else m.eval(val[1], model_completion=True).as_long()
                if sz > 4096:
                    sz = 4096
                for i in range(sz):
                    out.append(m.eval(z3.Select(val[0], z3.BitVecVal(i, 64)), model_completion=True).as_long())
                continue
            x = val if is_c(val) else m.eval(bv(val, 8 * n if n > 0 else 64), model_completion=True).as_long()
            out += (x & M64).to_bytes(8, "little")[:n] if n <= 8 else b""
        return out.hex()

    # ------------------------------------------------------------------ memory
    def newobj(self, st, name, size, kind, init="undef"):
        o = Obj()
        o.id = self.nobj
        self.nobj += 1
        o.name, o.size, o.kind, o.ro, o.addr, o.fn = name, size, kind, False, None, None
        self.objs[o.id] = o
        c = Content()
        c.alive, c.owner, c.init, c.base, c.ups, c.table, c.fresh = True, st.tok if st else None, init, None, None, None, None
        if is_c(size) and size <= 1 << 20:
            c.mode, c.cells = "d", {}
        else:
            c.mode, c.cells = "l", None
            c.base = self.fresharr(name) if init == "undef" else z3.K(z3.BitVecSort(64), z3.BitVecVal(0, 8))
            c.ups = ()
        (st.mem if st else self.mem0)[o.id] = c
        return Ptr(o.id, 0)

    def addr(self, st, p):
        """integer address of a pointer"""
        if p.o == 0:
            return p.off
        o = self.objs[p.o]
        if o.addr is None:
            o.addr = z3.BitVec("addr!%d" % o.id, 64)
        a = o.addr
        lim = z3.BitVecVal(1 << 47, 64)
        c = z3.And(z3.UGT(a, z3.BitVecVal(4096, 64)), z3.ULT(a, lim), z3.Extract(3, 0, a) == 0)
        if not any(c.eq(x) for x in st.pc):
            if not any(a.decl().name() in self.vars(x) for x in st.pc):
                self.addpc(st, c)
        return simp(a + bv(p.off, 64))

    def w(self, st, oid):
        c = st.mem[oid]
        if c.owner is not st.tok:
            c = c.clone(st.tok)
            st.mem[oid] = c
        return c

    def frombytes(self, bs):
        if all(is_c(b) for b in bs):
            v = 0
            for i, b in enumerate(bs):
                v |= b << (8 * i)
            return v
        # whole value extracted back?
        b0 = bs[0]
        if not is_c(b0) and z3.is_app_of(b0, z3.Z3_OP_EXTRACT):
            src = b0.arg(0)
            if src.size() == 8 * len(bs):
                ok = True
                for i, b in enumerate(bs):
                    if is_c(b) or not z3.is_app_of(b, z3.Z3_OP_EXTRACT) or not b.arg(0).eq(src) or b.params() != [8 * i + 7, 8 * i]:
                        ok = False
                        break
                if ok:
                    return src
        if len(bs) == 1:
            return bs[0]
        return z3.simplify(z3.Concat(*[bv(b, 8) for b in reversed(bs)]))

    def byte_of(self, st, v, n, i):
        if isinstance(v, Ptr):
            v = self.addr(st, v)
        if isinstance(v, FPV):
            v = self.fp2int(v.v, n, st)
        if is_c(v):
            return (v >> (8 * i)) & 255
        if v.size() == 8:
            return v
        return z3.Extract(8 * i + 7, 8 * i, v)

    def fp2int(self, v, n, st=None):
        if isinstance(v, z3.FPRef):
            b = self.fpbits.get(v.get_id())
            if b is None:
                b = self.fpbits[v.get_id()] = (v, self.fresh("fpbits", 8 * n))
            self.addpc(st, z3.fpBVToFP(b[1], v.sort()) == v)
            return b[1]
        if isinstance(v, z3.BitVecRef):
            return v
        if n == 8:
            return struct.unpack("<Q", struct.pack("<d", v))[0]
        if n == 4:
            return struct.unpack("<I", struct.pack("<f", v))[0]
        raise Unsupported("fp80 bytes")

    def tolist(self, st, c, o):
        """cells -> base array + update list"""
        if c.mode == "l":
            return
        c.base = None
        ups = []
        if c.table is not None:
            c.base = ("table", c.table)
        elif c.init == "zero":
            c.base = z3.K(z3.BitVecSort(64), z3.BitVecVal(0, 8))
        else:
            c.base = self.fresharr(o.name)
        for off in sorted(c.cells):
            n, v = c.cells[off]
            for i in range(n):
                ups.append(("s", off + i, self.byte_of(st, v, n, i)))
        # fold concrete cells into the base where possible: keep as one dictionary update
        c.ups = (("d", {u[1]: u[2] for u in ups}),) if ups else ()
        c.cells = None
        c.mode = "l"

    def clearcells(self, st, c, off, n):
        cells = c.cells
        for s in range(off - 15, off + n):
            e = cells.get(s)
            if e is None:
                continue
            if s + e[0] <= off:
                continue
            if s >= off and s + e[0] <= off + n:
                del cells[s]
                continue
            del cells[s]
            for i in range(e[0]):
                if not (off <= s + i < off + n):
                    cells[s + i] = (1, self.byte_of(st, e[1], e[0], i))

    def rbyte(self, st, oid, c, off):
        """byte at a concrete or symbolic offset"""
        o = self.objs[oid]
        if c.mode == "d":
            if is_c(off):
                e = c.cells.get(off)
                if e is not None and e[0] == 1:
                    return self.byte_of(st, e[1], 1, 0)
                for s in range(off - 15, off + 1):
                    e = c.cells.get(s)
                    if e is not None and s + e[0] > off:
                        return self.byte_of(st, e[1], e[0], off - s)
                if c.table is not None:
                    return c.table[off]
                if c.init == "zero":
                    return 0
                v = self.fresh("undef_" + o.name, 8)
                # remember, so that two reads agree (on every clone made from here on)
                c2 = self.w(st, oid) if st.mem.get(oid) is c else c
                c2.cells[off] = (1, v)
                return v
            if c.table is not None and not c.cells:
                return self.tblread(c.table, off)
            c2 = self.w(st, oid) if st.mem.get(oid) is c else c
            self.tolist(st, c2, o)
            c = c2
        return self.lread(c.ups, len(c.ups), c.base, off)

    def tblread(self, table, off):
        key = (id(table), off.get_id())
        r = self.tables.get(key)
        if r is not None:
            return r
        n = len(table)
        bits = max(1, (n - 1).bit_length())
        sel = [simp(z3.Extract(i, i, off)) for i in range(bits)]

        def mux(lo, b):
            if lo >= n:
                return None
            if b < 0:
                return table[lo]
            s = sel[b]
            if is_c(s):
                return mux(lo + (s << b), b - 1)
            x = mux(lo, b - 1)
            y = mux(lo + (1 << b), b - 1)
            if y is None:
                return x
            if x is y or (is_c(x) and is_c(y) and x == y):
                return x
            if not is_c(x) and not is_c(y) and x.eq(y):
                return x
            return z3.If(s == 1, bv(y, 8), bv(x, 8))
        r = mux(0, bits - 1)
        self.tables[key] = r
        self.keep.append(off)
        return r

    def lread(self, ups, n, base, off):
        conds = []
        res = None
        for j in range(n - 1, -1, -1):
            u = ups[j]
            if u[0] == "s":
                d = simp(bv(off, 64) - bv(u[1], 64)) if not (is_c(off) and is_c(u[1])) else (off - u[1]) & M64
                if is_c(d):
                    if d == 0:
                        res = u[2]
                        break
                    continue
                conds.append((bv(off, 64) == bv(u[1], 64), u[2]))
            elif u[0] == "d":
                if is_c(off):
                    if off in u[1]:
                        res = u[1][off]
                        break
                    continue
                for kk, vv in u[1].items():
                    conds.append((off == z3.BitVecVal(kk, 64), vv))
            elif u[0] == "r":      # range copy: off, n, src content snapshot, soff
                _, o0, nn, src, so = u
                if is_c(off) and is_c(o0) and off < o0:     # the range was in bounds, it does not wrap
                    continue
                d = simp(bv(off, 64) - bv(o0, 64))
                inr = simp(z3.ULT(bv(d, 64), bv(nn, 64)))
                if is_c(inr) and not inr:
                    continue
                sidx = simp(bv(d, 64) + bv(so, 64))
                val = self.cread(src, sidx)
                if is_c(inr):
                    res = val
                    break
                conds.append((inr, val))
            elif u[0] == "f":      # fill: off, n, byte
                _, o0, nn, val = u
                if is_c(off) and is_c(o0) and off < o0:
                    continue
                d = simp(bv(off, 64) - bv(o0, 64))
                inr = simp(z3.ULT(bv(d, 64), bv(nn, 64)))
                if is_c(inr) and not inr:
                    continue
                if is_c(inr):
                    res = val
                    break
                conds.append((inr, val))
        if res is None:
            if isinstance(base, tuple):
                res = base[1][off] if is_c(off) else self.tblread(base[1], off)
            else:
                res = simp(z3.Select(base, bv(off, 64)))
        for c, v in reversed(conds):
            res = z3.If(c, bv(v, 8), bv(res, 8))
        return res

    def cread(self, snap, off):
        """byte of a snapshot (list mode)"""
        return self.lread(snap[0], len(snap[0]), snap[1], off)

    def inb(self, st, p, n, what, write=False):
        if p.o == 0:
            self.oblige(st, 0, "memory", what + " through a null or invalid pointer")
            return False
        if self.objs[p.o].kind == "fn":
            self.oblige(st, 0, "memory", what + " through a function pointer")
            return False
        o = self.objs[p.o]
        c = st.mem[p.o]
        if not c.alive:
            self.oblige(st, 0, "memory", what + " of freed or dead object " + o.name)
            return False
        if write and o.ro:
            self.oblige(st, 0, "memory", "write to constant object " + o.name)
            return False
        off = p.off
        if is_c(off) and is_c(o.size) and is_c(n):
            return self.oblige(st, 1 if off + n <= o.size else 0, "memory", what + " stays inside " + o.name)
        sz, nn, of = bv(o.size, 64), bv(n, 64), bv(off, 64)
        cond = z3.And(z3.ULE(nn, sz), z3.ULE(of, sz - nn))
        return self.oblige(st, cond, "memory", what + " stays inside " + o.name)

    def load(self, st, p, ty, checked=False):
        n = ty.store
        if ty.k in ("arr", "struct"):
            out = []
            for i in range(ty.n):
                el = ty.el if ty.k == "arr" else ty.fields[i]
                o = i * ty.el.size if ty.k == "arr" else ty.offs[i]
                out.append(self.load(st, Ptr(p.o, self.padd(p.off, o)), el))
            return out
        p = self.norm(st, p)
        if not checked and not self.inb(st, p, n, "read"):
            return None
        return self.rawload(st, p, ty, n)

    def padd(self, off, d):
        if is_c(off) and is_c(d):
            return (off + d) & M64
        return simp(bv(off, 64) + bv(d, 64))

    def norm(self, st, p):
        """an integer that is some object's address plus an offset becomes a pointer again"""
        if p.o == 0 and not is_c(p.off):
            for nm in self.vars(p.off):
                if nm.startswith("addr!"):
                    oid = int(nm[5:])
                    d = simp(p.off - self.objs[oid].addr)
                    if is_c(d) or nm not in self.vars(d):
                        return Ptr(oid, d)
        return p

    def rawload(self, st, p, ty, n):
        c = st.mem[p.o]
        off = p.off
        if c.mode == "d" and is_c(off):
            e = c.cells.get(off)
            if e is not None and e[0] == n:
                v = e[1]
                return self.conv(st, v, ty, n)
        if c.mode == "d" and not is_c(off) and c.cells and any(isinstance(e[1], Ptr) for e in c.cells.values()):
            if ty.k == "ptr" or c.table is not None or c.init == "undef" or self.objs[p.o].size > 4096:
                return self.ptrpick(st, p, ty, n)
            # an array inside a record that also holds pointers: select over the record's bytes
            ck = ("rec", id(c), len(c.cells))
            tb = self.tables.get(ck)
            if tb is None or tb[0] is not c or tb[2] != c.cells:
                l = [0] * self.objs[p.o].size
                for o2, (n2, v2) in c.cells.items():
                    for i in range(n2):
                        l[o2 + i] = self.byte_of(st, v2, n2, i)
                tb = self.tables[ck] = (c, l, dict(c.cells))
            v = self.frombytes([self.tblread(tb[1], self.padd(off, i)) for i in range(n)])
            return self.conv(st, v, ty, n)
        bs = []
        for i in range(n):
            bs.append(self.rbyte(st, p.o, st.mem[p.o], self.padd(off, i)))
        v = self.frombytes(bs)
        return self.conv(st, v, ty, n)

    def ptrpick(self, st, p, ty, n):
        """symbolic index into a table of pointers: only reached after the caller split the offset"""
        raise NeedSplit(p.off)

    def conv(self, st, v, ty, n):
        if ty.k == "ptr":
            if isinstance(v, Ptr):
                return v
            if isinstance(v, FPV):
                raise Unsupported("fp as pointer")
            return self.norm(st, Ptr(0, v))
        if ty.k == "int":
            if isinstance(v, Ptr):
                v = self.addr(st, v)
            if isinstance(v, FPV):
                v = self.fp2int(v.v, n, st)
            if ty.w == 1:
                return v & 1 if is_c(v) else (z3.Extract(0, 0, v) == 1)
            if ty.w < 8 * n:
                return v & ((1 << ty.w) - 1) if is_c(v) else z3.Extract(ty.w - 1, 0, v)
            return v
        if ty.k == "fp":
            if isinstance(v, FPV):
                return v
            if is_c(v):
                if ty.w == 64:
                    return FPV(struct.unpack("<d", struct.pack("<Q", v))[0])
                if ty.w == 32:
                    return FPV(struct.unpack("<f", struct.pack("<I", v))[0])
            if ty.w in (32, 64):
                return FPV(v)
            raise Unsupported("symbolic floating point load")
        raise Unsupported("load type " + ty.k)

    def store(self, st, p, v, ty):
        if ty.k in ("arr", "struct"):
            for i in range(ty.n):
                el = ty.el if ty.k == "arr" else ty.fields[i]
                o = i * ty.el.size if ty.k == "arr" else ty.offs[i]
                if not self.store(st, Ptr(p.o, self.padd(p.off, o)), v[i], el):
                    return False
            return True
        n = ty.store
        p = self.norm(st, p)
        if not self.inb(st, p, n, "write", True):
            return False
        if ty.k == "int" and ty.w != 8 * n:
            if ty.w == 1:
                v = v if is_c(v) else z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
            elif not is_c(v):
                v = z3.ZeroExt(8 * n - ty.w, v)
        self.rawstore(st, p, v, n)
        return True

    def touched(self, st, oid, off, n):
        for f in st.frames:
            for c in f.cuts:
                if oid < c.mark:
                    if is_c(off) and is_c(n) and st.mem[oid].mode == "d":
                        c.writes.add((oid, off, n))
                    else:
                        c.writes.add((oid, None, None))

    def rawstore(self, st, p, v, n):
        c = self.w(st, p.o)
        off = p.off
        self.touched(st, p.o, off, n)
        if c.mode == "d":
            if is_c(off):
                self.clearcells(st, c, off, n)
                c.cells[off] = (n, v)
                return
            if any(isinstance(e[1], Ptr) for e in c.cells.values()) or isinstance(v, Ptr):
                raise NeedSplit(off)
            self.tolist(st, c, self.objs[p.o])
        ups = list(c.ups)
        for i in range(n):
            b = self.byte_of(st, v, n, i)
            of = self.padd(off, i)
            ups = [u for u in ups if not (u[0] == "s" and self.same(u[1], of))] if len(ups) < 200 else ups
            ups.append(("s", of, b))
        c.ups = tuple(ups)

    def same(self, a, b):
        if is_c(a) or is_c(b):
            return is_c(a) and is_c(b) and a == b
        return a.eq(b)

    def snap(self, st, oid):
        """immutable list-mode view of an object's bytes"""
        c = st.mem[oid]
        if c.mode == "d":
            c2 = c.clone(None)
            self.tolist(st, c2, self.objs[oid])
            if c.table is None and c.init != "zero":   # keep undefined bytes consistent
                c3 = self.w(st, oid)
                if any(isinstance(e[1], Ptr) for e in c.cells.values()):
                    return (c2.ups, c2.base)
                c3.mode, c3.base, c3.ups, c3.cells = "l", c2.base, c2.ups, None
            return (c2.ups, c2.base)
        return (c.ups, c.base)

    def memcpy(self, st, d, s, n):
        if is_c(n) and n == 0:
            return True
        d, s = self.norm(st, d), self.norm(st, s)
        if not is_c(n):
            # a zero length copies nothing: the pointers need not be valid then
            nz = simp(n != 0)
            if not self.feasible(st, nz):
                return True
            if (d.o == 0 or s.o == 0):
                if not self.oblige(st, z3.Not(boolv(nz)) if not is_c(nz) else 1 - nz, "memory", "copy through a null or invalid pointer"):
                    return False
                return True
        if not self.inb(st, s, n, "copy source"):
            return False
        if not self.inb(st, d, n, "copy destination", True):
            return False
        cs, cd = st.mem[s.o], st.mem[d.o]
        if is_c(n) and is_c(d.off) and is_c(s.off) and cs.mode == "d" and cd.mode == "d":
            self.touched(st, d.o, d.off, n)
            items = []
            i = 0
            while i < n:
                e = cs.cells.get(s.off + i)
                if e is not None and i + e[0] <= n:
                    items.append((i, e[0], e[1]))
                    i += e[0]
                else:
                    items.append((i, 1, self.rbyte(st, s.o, st.mem[s.o], s.off + i)))
                    i += 1
                    cs = st.mem[s.o]
                    if cs.mode != "d":
                        raise Unsupported("mode change in copy")
            cd = self.w(st, d.o)
            self.clearcells(st, cd, d.off, n)
            for i, k, v in items:
                cd.cells[d.off + i] = (k, v)
            return True
        if is_c(n) and n <= 16:
            bs = [self.rbyte(st, s.o, st.mem[s.o], self.padd(s.off, i)) for i in range(n)]
            for i, b in enumerate(bs):
                self.rawstore(st, Ptr(d.o, self.padd(d.off, i)), b, 1)
            return True
        sn = self.snap(st, s.o)
        cd = self.w(st, d.o)
        self.touched(st, d.o, None, None)
        if cd.mode == "d":
            if any(isinstance(e[1], Ptr) for e in cd.cells.values()):
                raise Unsupported("symbolic copy over pointers")
            self.tolist(st, cd, self.objs[d.o])
        cd.ups = cd.ups + (("r", d.off, n, sn, s.off),)
        return True

    def memset(self, st, d, b, n):
        if is_c(n) and n == 0:
            return True
        d = self.norm(st, d)
        b = b & 255 if is_c(b) else b if b.size() == 8 else z3.Extract(7, 0, b)
        if not is_c(n) and d.o == 0:
            return self.oblige(st, n == 0, "memory", "fill through a null pointer")
        if not self.inb(st, d, n, "fill", True):
            return False
        c = self.w(st, d.o)
        if is_c(n) and is_c(d.off) and c.mode == "d":
            self.touched(st, d.o, d.off, n)
            if d.off == 0 and is_c(self.objs[d.o].size) and n == self.objs[d.o].size and is_c(b) and b == 0:
                c.cells = {}
                c.init = "zero"
                c.table = None
                return True
            self.clearcells(st, c, d.off, n)
            for i in range(n):
                c.cells[d.off + i] = (1, b)
            return True
        self.touched(st, d.o, None, None)
        if c.mode == "d":
            if any(isinstance(e[1], Ptr) for e in c.cells.values()):
                raise Unsupported("symbolic fill over pointers")
            self.tolist(st, c, self.objs[d.o])
        c.ups = c.ups + (("f", d.off, n, b),)
        return True

    # ------------------------------------------------------------------ globals
    def global_obj(self, st, name):
        oid = self.glob.get(name)
        if oid is None:
            v = self.m.gvs[name]
            t = self.m.ty(ir.GVTy(v))
            p = self.newobj(None, name, t.size, "global", "zero")
            o = self.objs[p.o]
            oid = self.glob[name] = p.o
            init = ir.GVInit(v)
            c = self.mem0[oid]
            if init:
                o.ro = bool(ir.GVConst(v)) and not name.startswith("vp_")
                self.ginit(c, 0, self.m.operand(init), t)
                if o.ro and all(is_c(e[1]) for e in c.cells.values()):
                    tb = [0] * t.size
                    for off, (n, x) in c.cells.items():
                        for i in range(n):
                            tb[off + i] = (x >> (8 * i)) & 255
                    c.table = tb
                    c.cells = {}
            else:
                c.init = "undef" if name not in ("stderr", "stdout", "stdin") else "zero"
                if name in ("stderr", "stdout", "stdin"):
                    q = self.newobj(None, name + "_file", 216, "extern", "zero")
                    c.cells[0] = (8, q)
        if oid not in st.mem:
            c = self.mem0[oid]
            st.mem[oid] = c.clone(None)
        return Ptr(oid, 0)

    def ginit(self, c, off, opd, t):
        k = opd[0]
        if k == "c":
            c.cells[off] = (t.store, opd[1] if t.k != "fp" else FPV(opd[1]))
        elif k == "null":
            c.cells[off] = (8, NULL)
        elif k in ("zero", "u"):
            return
        elif k == "str":
            for i, b in enumerate(opd[1]):
                c.cells[off + i] = (1, b)
        elif k == "agg":
            for i, o in enumerate(opd[1]):
                el = t.el if t.k == "arr" else t.fields[i]
                self.ginit(c, off + (i * t.el.size if t.k == "arr" else t.offs[i]), o, el)
        elif k in ("g", "f", "e"):
            s = State()
            s.mem, s.pc, s.frames, s.tok = self.mem0, [], [], None
            c.cells[off] = (8, self.val(s, None, opd))
        else:
            raise Unsupported("global initializer " + str(opd))

    def fn_ptr(self, name):
        oid = self.fnobj.get(name)
        if oid is None:
            o = Obj()
            o.id = self.nobj
            self.nobj += 1
            o.name, o.size, o.kind, o.ro, o.addr, o.fn = name, 0, "fn", True, None, name
            self.objs[o.id] = o
            oid = self.fnobj[name] = o.id
        return Ptr(oid, 0)

    # ------------------------------------------------------------------ values
    def val(self, st, fr, o):
        k = o[0]
        if k == "l":
            return fr.env[o[1]]
        if k == "c":
            return o[1] if type(o[1]) is int else FPV(o[1])
        if k == "null":
            return NULL
        if k == "g":
            return self.global_obj(st, o[1])
        if k == "f":
            return self.fn_ptr(o[1])
        if k == "u":
            return self.undef(o[1])
        if k == "zero":
            return self.zero(o[1])
        if k == "agg":
            return [self.val(st, fr, x) for x in o[1]]
        if k == "e":
            if o[1] == "gep":
                return self.gep(st, fr, o[2])
            if o[1] == "bin":
                op, a, b, t = o[2]
                return self.binop(st, op, self.val(st, fr, a), self.val(st, fr, b), t.w)
            a, ft, tt = o[2]
            return self.cast(st, o[1], self.val(st, fr, a), ft, tt)
        if k == "meta":
            return None
        raise Unsupported("operand " + str(o))

    def undef(self, t):
        if t.k == "int":
            return self.fresh("undef", t.w)
        if t.k == "ptr":
            return NULL
        if t.k == "arr":
            return [self.undef(t.el) for _ in range(t.n)]
        if t.k == "struct":
            return [self.undef(x) for x in t.fields]
        if t.k == "fp":
            return FPV(0.0)
        raise Unsupported("undef " + t.k)

    def zero(self, t):
        if t.k == "int":
            return 0
        if t.k == "ptr":
            return NULL
        if t.k == "fp":
            return FPV(0.0)
        if t.k == "arr":
            return [self.zero(t.el) for _ in range(t.n)]
        if t.k == "struct":
            return [self.zero(x) for x in t.fields]
        raise Unsupported("zero " + t.k)

    def gep(self, st, fr, g):
        if g[0] == "?":
            raise Unsupported(g[1])
        base, const, terms = g
        p = self.val(st, fr, base)
        off = self.padd(p.off, const) if const else p.off
        for o, w, sc in terms:
            v = self.val(st, fr, o)
            if isinstance(v, Ptr):
                v = self.addr(st, v)
            if is_c(v):
                off = self.padd(off, sgn(v, w) * sc & M64)
            else:
                e = v if w == 64 else z3.SignExt(64 - w, bv(v, w)) if w < 64 else z3.Extract(63, 0, v)
                if sc != 1:
                    e = e * sc
                off = self.padd(off, e)
        return Ptr(p.o, off)

    def binop(self, st, op, a, b, w):
        if isinstance(a, Ptr):
            a = self.addr(st, a)
        if isinstance(b, Ptr):
            b = self.addr(st, b)
        mask = (1 << w) - 1
        if is_c(a) and is_c(b):
            if op == "add":
                return (a + b) & mask
            if op == "sub":
                return (a - b) & mask
            if op == "mul":
                return (a * b) & mask
            if op == "and":
                return a & b
            if op == "or":
                return a | b
            if op == "xor":
                return a ^ b
            if op == "shl":
                return (a << b) & mask if b < w else 0
            if op == "lshr":
                return a >> b if b < w else 0
            if op == "ashr":
                return (sgn(a, w) >> min(b, w - 1)) & mask
            if op == "udiv":
                return a // b
            if op == "urem":
                return a % b
            x, y = sgn(a, w), sgn(b, w)
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0):
                q = -q
            if op == "sdiv":
                return q & mask
            if op == "srem":
                return (x - q * y) & mask
        if w == 1:
            A, B = boolv(a), boolv(b)
            if op == "and":
                return simp(z3.And(A, B))
            if op == "or":
                return simp(z3.Or(A, B))
            if op in ("xor", "add", "sub"):
                return simp(z3.Xor(A, B))
            raise Unsupported("i1 " + op)
        # cheap identities
        if is_c(b):
            if b == 0 and op in ("add", "sub", "or", "xor", "shl", "lshr", "ashr"):
                return a
            if b == 0 and op in ("and", "mul"):
                return 0
            if op == "and" and b == mask:
                return a
            if b == 1 and op in ("mul", "udiv", "sdiv"):
                return a
            if op in ("shl", "lshr") and b >= w:
                return 0
            if op == "udiv" and b & (b - 1) == 0:
                op, b = "lshr", b.bit_length() - 1
            elif op == "urem" and b & (b - 1) == 0:
                op, b = "and", b - 1
                if b == 0:
                    return 0
            elif op in ("udiv", "urem"):
                return self.divconst(st, a, b, w, op)
            elif op in ("sdiv", "srem") and 1 < b < 1 << (w - 2):
                return self.sdivconst(st, a, b, w, op)
        if is_c(a):
            if a == 0 and op in ("add", "or", "xor"):
                return b
            if a == 0 and op in ("and", "mul", "shl", "lshr", "ashr", "udiv", "urem"):
                return 0
        A, B = bv(a, w), bv(b, w)
        if op == "add":
            r = A + B
        elif op == "sub":
            r = A - B
        elif op == "mul":
            r = A * B
        elif op == "and":
            r = A & B
        elif op == "or":
            r = A | B
        elif op == "xor":
            r = A ^ B
        elif op == "shl":
            r = A << B
        elif op == "lshr":
            r = z3.LShR(A, B)
        elif op == "ashr":
            r = A >> B
        elif op in ("udiv", "urem", "sdiv", "srem"):
            return self.divnarrow(st, op, A, B, w)
        else:
            raise Unsupported(op)
        if not r.num_args():
            return r
        # a large term is left as it is: rewriting it pushes extractions through the whole of it
        n = 1 + sum(self.tsize.get(x.get_id(), 1) for x in r.children())
        if op in ("shl", "lshr", "and", "or", "xor") and any(z3.is_app_of(x, z3.Z3_OP_BADD) and self.tsize.get(x.get_id(), 1) > 3 for x in (A, B)):
            n += 1000
        v = simp(r) if n < 100 and all(x.num_args() <= 3 for x in r.children()) else r
        if not is_c(v):
            self.tsize[v.get_id()] = n
        return v

    def core(self, e, signed):
        """(x, n): e is x of n bits sign (zero) extended"""
        e = z3.simplify(e)
        if z3.is_bv_value(e):
            v, w = e.as_long(), e.size()
            if signed:
                sv = sgn(v, w)
                n = max(1, (sv if sv >= 0 else ~sv).bit_length() + 1)
            else:
                n = max(1, v.bit_length())
            n = min(n, w)
            return z3.BitVecVal(v & ((1 << n) - 1), n), n
        w = e.size()
        for n in (1, 8, 9, 16, 17, 32, 33, 64):
            if n < w:
                x = z3.simplify(z3.Extract(n - 1, 0, e))
                y = z3.simplify(z3.SignExt(w - n, x) if signed else z3.ZeroExt(w - n, x))
                if y.eq(e):
                    return x, n
        return e, e.size()

    def divnarrow(self, st, op, A, B, w):
        """division at the width the operands need, so that the same quotient taken at two widths is one term (b != 0 is an obligation of its own)"""
        s = op[0] == "s"
        A, B = z3.simplify(A), z3.simplify(B)
        (a, n), (b, m) = self.core(A, s), self.core(B, s)
        nonneg = lambda x: z3.is_bv_value(y := z3.simplify(z3.Extract(x.size() - 1, x.size() - 1, x))) and y.as_long() == 0
        if s and nonneg(a) and nonneg(b):       # both operands are not negative: the unsigned quotient
            s = False
            op = "u" + op[1:]
            (a, n), (b, m) = self.core(a, s), self.core(b, s)
        k = max(n, m) + (1 if s else 0)
        ext = (lambda x: z3.SignExt(k - x.size(), x) if k > x.size() else x) if s else (lambda x: z3.ZeroExt(k - x.size(), x) if k > x.size() else x)
        a, b = ext(a), ext(b)
        a, b = z3.simplify(a), z3.simplify(b)
        r = {"udiv": z3.UDiv, "urem": z3.URem, "sdiv": lambda x, y: x / y, "srem": z3.SRem}[op](a, b)
        if k > 8:
            dk = (op, a.get_id(), b.get_id())
            q = self.quot.get(dk)
            if q is None:
                q = self.quot[dk] = self.fresh(op, k)
                n = q.decl().name()
                self.lazy[n] = q == r
                self.varcache[q.get_id()] = frozenset([n]) | self.vars(a) | self.vars(b)
                self.keep += [q, a, b, r]
            r = q
        if op == "sdiv" and k > 8:
            # the quotient needs one bit less, but for the one that overflows
            f = z3.Or(z3.SignExt(1, z3.Extract(k - 2, 0, r)) == r, z3.And(a == z3.BitVecVal(-(1 << (k - 2)), k), b == z3.BitVecVal(-1, k)), b == 0)
            if not any(f.eq(x) for x in st.pc):
                self.addpc(st, f)
        if k < w:
            r = z3.SignExt(w - k, r) if s else z3.ZeroExt(w - k, r)
        elif k > w:
            r = z3.Extract(w - 1, 0, r)
        return r

    def divconst(self, st, a, c, w, op):
        """n = q*c + r, r < c: the same fact, kinder to the solver than a divider circuit"""
        key = (a.get_id(), c, w)
        e = self.divc.get(key)
        if e is None:
            q, r = self.fresh("q", w), self.fresh("r", w)
            C = z3.BitVecVal(c, w)
            ax = z3.And(a == q * C + r, z3.ULT(r, C), z3.ULE(q, z3.BitVecVal(((1 << w) - 1) // c, w)), z3.ULE(q * C, a))
            # chains: (x / c1) / c2 is 0 exactly when x < c1 * c2
            x, K = self.divroot.get((a.get_id(), 0), (a, 1))
            K *= c
            if K < 1 << w:
                self.divroot[(q.get_id(), 0)] = (x, K)
                ax = z3.And(*ax.children(), (q == 0) == z3.ULT(x, z3.BitVecVal(K, w)))
            e = self.divc[key] = (q, r, ax, a)
        if not any(e[2].arg(0).eq(x) for x in st.pc):
            self.addpc(st, e[2])
        return e[0] if op == "udiv" else e[1]

    def sdivconst(self, st, a, c, w, op):
        """a = q*c + r, |r| < c, r takes the sign of a (positive constant divisor)"""
        key = (a.get_id(), c, w, "s")
        e = self.divc.get(key)
        if e is None:
            q, r = self.fresh("q", w), self.fresh("r", w)
            C = z3.BitVecVal(c, w)
            hi = ((1 << (w - 1)) - 1) // c
            ax = [a == q * C + r, r < C, r > -C, z3.Implies(a >= 0, z3.And(r >= 0, q >= 0, q <= hi)), z3.Implies(a <= 0, z3.And(r <= 0, q <= 0, q >= -(((1 << (w - 1))) // c)))]
            x, K = self.divroot.get((a.get_id(), 1), (a, 1))
            K *= c
            if K < 1 << (w - 1):
                self.divroot[(q.get_id(), 1)] = (x, K)
                ax.append((q == 0) == z3.And(x < K, x > -K))
                ax.append(z3.Implies(x >= 0, z3.And(q >= 0, r >= 0)))
                ax.append(z3.Implies(x <= 0, z3.And(q <= 0, r <= 0)))
            e = self.divc[key] = (q, r, z3.And(*ax), a)
        if not any(e[2].arg(0).eq(x) for x in st.pc):
            self.addpc(st, e[2])
        return e[0] if op == "sdiv" else e[1]

    def cast(self, st, op, a, ft, tt):
        if op == "bitcast":
            if ft.k == tt.k:
                return a
            if ft.k == "int" and tt.k == "fp":
                return self.conv(st, a, tt, tt.store)
            if ft.k == "fp" and tt.k == "int":
                return self.fp2int(a.v, ft.store)
            raise Unsupported("bitcast")
        if op == "ptrtoint":
            v = self.addr(st, a)
            if tt.w == 64:
                return v
            return v & ((1 << tt.w) - 1) if is_c(v) else simp(z3.Extract(tt.w - 1, 0, v))
        if op == "inttoptr":
            if isinstance(a, Ptr):
                return a
            if ft.w < 64:
                a = a if is_c(a) else z3.ZeroExt(64 - ft.w, a)
            return self.norm(st, Ptr(0, a))
        if op == "trunc":
            if is_c(a):
                return a & ((1 << tt.w) - 1)
            if tt.w == 1:
                return simp(z3.Extract(0, 0, a) == 1)
            if self.tsize.get(a.get_id(), 1) >= 100:
                return z3.Extract(tt.w - 1, 0, a)
            return simp(z3.Extract(tt.w - 1, 0, a))
        if op == "zext":
            if is_c(a):
                return a
            if ft.w == 1:
                return z3.If(a, z3.BitVecVal(1, tt.w), z3.BitVecVal(0, tt.w))
            return z3.ZeroExt(tt.w - ft.w, a)
        if op == "sext":
            if is_c(a):
                return sgn(a, ft.w) & ((1 << tt.w) - 1)
            if ft.w == 1:
                return z3.If(a, z3.BitVecVal((1 << tt.w) - 1, tt.w), z3.BitVecVal(0, tt.w))
            return z3.SignExt(tt.w - ft.w, a)
        if op in ("uitofp", "sitofp"):
            if is_c(a):
                return FPV(float(a if op == "uitofp" else sgn(a, ft.w)))
            if tt.w not in (32, 64):
                raise Unsupported("symbolic int to fp80")
            return FPV((z3.fpToFPUnsigned if op == "uitofp" else z3.fpSignedToFP)(z3.RNE(), bv(a, ft.w), fps(tt.w)))
        if op in ("fptoui", "fptosi"):
            if not isinstance(a.v, float):
                return (z3.fpToUBV if op == "fptoui" else z3.fpToSBV)(z3.RTZ(), fpx(a.v, ft.w), z3.BitVecSort(tt.w))
            return int(a.v) & ((1 << tt.w) - 1)
        if op in ("fptrunc", "fpext"):
            if not isinstance(a.v, float):
                if tt.w not in (32, 64) or ft.w not in (32, 64):
                    raise Unsupported("symbolic fp80")
                return FPV(z3.fpFPToFP(z3.RNE(), fpx(a.v, ft.w), fps(tt.w)))
            if tt.w == 32:
                return FPV(struct.unpack("<f", struct.pack("<f", a.v))[0])
            return a
        raise Unsupported(op)

    def icmp(self, st, pred, a, b, t):
        if t.k == "ptr":
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                a, b = self.norm(st, a), self.norm(st, b)
                if a.o == b.o:
                    a, b, w = a.off, b.off, 64
                elif pred in ("eq", "ne"):
                    if a.o == 0 or b.o == 0:
                        z = a if a.o == 0 else b
                        if is_c(z.off):
                            return int(pred == "ne")    # no object lives at a literal address
                        # raw symbolic word against an object
                        a, b, w = self.addr(st, a), self.addr(st, b), 64
                    else:
                        return int(pred == "ne")        # distinct objects
                else:
                    a, b, w = self.addr(st, a), self.addr(st, b), 64
            else:
                raise Unsupported("ptr compare")
        else:
            w = t.w
            if isinstance(a, Ptr):
                a = self.addr(st, a)
            if isinstance(b, Ptr):
                b = self.addr(st, b)
        if is_c(a) and is_c(b):
            x, y = (sgn(a, w), sgn(b, w)) if pred[0] == "s" else (a, b)
            return int({"eq": x == y, "ne": x != y}.get(pred) if pred in ("eq", "ne") else
                       {"gt": x > y, "ge": x >= y, "lt": x < y, "le": x <= y}[pred[1:]])
        if w == 1:
            A, B = boolv(a), boolv(b)
            if pred == "eq":
                return simp(A == B)
            if pred == "ne":
                return simp(A != B)
            raise Unsupported("i1 " + pred)
        # (x zext/If) compared with a constant: keep booleans boolean
        if is_c(b) and pred in ("eq", "ne") and not is_c(a) and z3.is_app_of(a, z3.Z3_OP_ITE):
            r = z3.simplify(a == bv(b, w))
            if pred == "ne":
                r = z3.simplify(z3.Not(r))
            return simp(r)
        A, B = bv(a, w), bv(b, w)
        r = {"eq": lambda: A == B, "ne": lambda: A != B, "ugt": lambda: z3.UGT(A, B), "uge": lambda: z3.UGE(A, B), "ult": lambda: z3.ULT(A, B),
             "ule": lambda: z3.ULE(A, B), "sgt": lambda: A > B, "sge": lambda: A >= B, "slt": lambda: A < B, "sle": lambda: A <= B}[pred]()
        v = simp(r)
        if pred in ("eq", "ne") and w >= 8 and not is_c(v):
            for x in (v, z3.simplify(v)) if pred == "eq" else (z3.simplify(z3.Not(v)),):
                self.rawof[x.get_id()] = (x, A, B)
        return v

    def ite(self, c, a, b, ty, st=None):
        if is_c(c):
            return a if c else b
        c = boolv(c)
        if st is not None and (isinstance(a, (Ptr, FPV, list)) or isinstance(b, (Ptr, FPV, list))) and not (
                isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o):
            if not self.feasible(st, c):
                return b
            if not self.feasible(st, z3.Not(c)):
                return a
            raise NeedSplitB(c)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o:
                if self.same(a.off, b.off):
                    return a
                return Ptr(a.o, z3.If(c, bv(a.off, 64), bv(b.off, 64)))
            raise NeedSplitB(c)
        if isinstance(a, FPV) or isinstance(a, list):
            raise NeedSplitB(c)
        if ty.w == 1:
            return simp(z3.If(c, boolv(a), boolv(b)))
        if is_c(a) and is_c(b) and a == b:
            return a
        return z3.If(c, bv(a, ty.w), bv(b, ty.w))

    # ------------------------------------------------------------------ execution
    def frame(self, name, args):
        fn = self.m.fn(name)
        f = Frame()
        f.fn, f.bb, f.prev, f.pc, f.env, f.ret, f.cuts, f.iters, f.allocas, f.va, f.pure, f.line = fn, fn.entry, None, 0, {}, None, [], {}, [], None, False, 0
        for p, a in zip(fn.params, args):
            f.env[p] = a
        return f

    def run(self, entry):
        st = State()
        st.frames, st.mem, st.pc, st.inputs, st.tok, st.ins, st.seq = [], Mem(), [], [], object(), {}, 0
        st.decide = None
        st.mem.base = self.mem0
        st.frames.append(self.frame(entry, []))
        self.explore([st])

    def explore(self, work, done=None):
        """depth first over all feasible paths"""
        while work:
            st = work.pop()
            while True:
                r = self.step_block(st, work, done)
                if not r:
                    break

    def step_block(self, st, work, done):
        """executes instructions until a fork/termination; True = keep going with st"""
        while True:
            fr = st.frames[-1]
            I = fr.fn.bbs[fr.bb].insts[fr.pc]
            self.steps += 1
            if self.steps & 1023 == 0 and self.opt.deadline and time.time() - self.t0 > self.opt.deadline:
                raise Stop("time limit")
            op = I.op
            try:
                if op == "phi":
                    fr.pc += 1
                    continue
                r = self.exec(st, fr, I, work, done)
            except NeedSplit as e:
                self.split(st, e.off, work)
                return False
            except NeedCase as e:
                for v in range(e.hi, e.lo - 1, -1):
                    t = st.fork()
                    t.decide = v
                    work.append(t)
                return False
            except NeedSplitB as e:
                t = st.fork()
                if self.assume(t, z3.Not(e.c)):
                    work.append(t)
                if self.assume(st, e.c):
                    work.append(st)
                return False
            if r is None:
                fr.pc += 1
                continue
            if r == "jump":
                continue
            return r == "again"

    def split(self, st, off, work):
        """case split on the feasible values of a small symbolic offset"""
        vals = []
        cons = list(st.pc)
        while len(vals) <= 130:
            r, m = self.solve(self.slice(cons, [off == 0]) + [off != z3.BitVecVal(v, 64) for v in vals] + [off == off], model=True)
            if r == z3.unsat:
                break
            if r != z3.sat:
                raise Unsupported("offset split unknown")
            vals.append(m.eval(off, model_completion=True).as_long())
        else:
            raise Unsupported("offset split too wide")
        for v in sorted(vals, reverse=True):
            t = st.fork()
            c = off == z3.BitVecVal(v, 64)
            self.addpc(t, c)
            self.bindeq(t, off, v)
            work.append(t)

    def bindeq(self, st, e, v):
        """after e == v was assumed: replace e by v in the local environments"""
        V = z3.BitVecVal(v, e.size())
        for f in st.frames[-1:]:
            for k, x in f.env.items():
                if isinstance(x, Ptr):
                    if not is_c(x.off):
                        f.env[k] = Ptr(x.o, simp(z3.substitute(x.off, (e, V))) if e.get_id() != x.off.get_id() else v)
                elif z3.is_expr(x) and z3.is_bv(x):
                    pass

    def setv(self, fr, I, v):
        fr.env[I.id] = v

    def goto(self, st, fr, src, dst, work):
        """control transfer inside a function; returns 'jump', or False if the path ends"""
        fn = fr.fn
        while fr.cuts and dst not in fr.cuts[-1].blocks:
            c = fr.cuts.pop()
            if c.dry:
                return False
            st.seq = st.seq + 1
        if fr.cuts and fr.cuts[-1].header == dst:
            c = fr.cuts[-1]
            vals = [self.val(st, fr, I.x[src]) for I in fn.bbs[dst].phis]
            c.check(st, fr, vals)
            return False
        hd = fn.headers.get(dst)
        if hd is not None:
            inside = src in hd[1]
            if not inside and ((fn.name, hd[0]) in self.loopspec or (fn.name, -1) in self.loopspec):
                return self.start_cut(st, fr, src, dst, hd, work)
            if inside:
                n = fr.iters[dst] = fr.iters.get(dst, 0) + 1
                if n > self.opt.unroll:
                    w = "%s loop %d" % (fn.name, hd[0])
                    if self.dry:
                        raise Unsupported("unbounded inner loop " + w)
                    self.unwind.append(w)
                    if len(self.unwind) > 3:
                        raise Stop("unwinding " + w)
                    return False
            else:
                fr.iters[dst] = 0
        phis = fn.bbs[dst].phis
        if phis:
            vals = [self.val(st, fr, I.x[src]) for I in phis]
            for I, v in zip(phis, vals):
                fr.env[I.id] = v
        fr.prev, fr.bb, fr.pc = src, dst, len(phis)
        return "jump"

    def exec(self, st, fr, I, work, done):
        op = I.op
        V = lambda o: self.val(st, fr, o)
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr"):
            fr.env[I.id] = self.binop(st, op, V(I.ops[0]), V(I.ops[1]), I.ty.w)
            return None
        if op in ("udiv", "sdiv", "urem", "srem"):
            a, b = V(I.ops[0]), V(I.ops[1])
            w = I.ty.w
            if is_c(b):
                if not self.oblige(st, int(b != 0), "division", "divisor is not zero"):
                    return False
            elif not self.oblige(st, b != 0, "division", "divisor is not zero"):
                return False
            if op in ("sdiv", "srem") and not (is_c(b) and sgn(b, w) != -1):
                A, B = bv(a, w), bv(b, w)
                if not self.oblige(st, simp(z3.Not(z3.And(A == (1 << (w - 1)), B == (1 << w) - 1))), "division", "quotient is representable"):
                    return False
            fr.env[I.id] = self.binop(st, op, a, b, w)
            return None
        if op == "load":
            v = self.load(st, V(I.ops[0]), I.ty)
            if v is None:
                return False
            fr.env[I.id] = v
            return None
        if op == "store":
            if not self.store(st, V(I.ops[1]), V(I.ops[0]), I.x):
                return False
            return None
        if op == "gep":
            fr.env[I.id] = self.gep(st, fr, I.x)
            return None
        if op == "icmp":
            fr.env[I.id] = self.icmp(st, I.x[0], V(I.ops[0]), V(I.ops[1]), I.x[1])
            return None
        if op in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "uitofp", "sitofp", "fptoui", "fptosi", "fptrunc", "fpext"):
            fr.env[I.id] = self.cast(st, op, V(I.ops[0]), I.x, I.ty)
            return None
        if op == "br":
            c, tg = I.x
            if c is None:
                return self.goto(st, fr, fr.bb, tg[0], work)
            c = V(c)
            if is_c(c):
                return self.goto(st, fr, fr.bb, tg[0] if c & 1 else tg[1], work)
            c = boolv(c)
            nc = z3.Not(c)
            ft = self.feasible(st, c)
            ff = self.feasible(st, nc) if ft else True
            if ft and ff:
                wh = self.where(st)
                self.forks[wh] = self.forks.get(wh, 0) + 1
                t = st.fork()
                self.addpc(t, simp(nc))
                tf = t.frames[-1]
                if self.goto(t, tf, tf.bb, tg[1], work):
                    work.append(t)
                self.addpc(st, simp(c))
                return self.goto(st, fr, fr.bb, tg[0], work)
            return self.goto(st, fr, fr.bb, tg[0] if ft else tg[1], work)
        if op == "switch":
            o, dflt, cases, w = I.x
            v = V(o)
            if is_c(v):
                for cv, b in cases:
                    if cv == v:
                        return self.goto(st, fr, fr.bb, b, work)
                return self.goto(st, fr, fr.bb, dflt, work)
            bb = {}
            for cv, b in cases:
                bb.setdefault(b, []).append(v == z3.BitVecVal(cv, w))
            conds = [(z3.Or(cs) if len(cs) > 1 else cs[0], b) for b, cs in bb.items()]
            conds.append((z3.And([v != z3.BitVecVal(cv, w) for cv, _ in cases]) if cases else z3.BoolVal(True), dflt))
            for c, b in conds:
                if self.feasible(st, c):
                    t = st.fork()
                    self.addpc(t, simp(c) if not is_c(simp(c)) else z3.BoolVal(True))
                    tf = t.frames[-1]
                    if self.goto(t, tf, tf.bb, b, work):
                        work.append(t)
            return False
        if op == "select":
            fr.env[I.id] = self.ite(V(I.ops[0]), V(I.ops[1]), V(I.ops[2]), I.ty, st)
            return None
        if op == "alloca":
            n = V(I.ops[0])
            sz = I.x.size * n if is_c(n) else simp(bv(n, 64) * I.x.size)
            p = self.newobj(st, "local@%s:%d" % (fr.fn.name, I.line), sz, "stack")
            fr.allocas.append(p.o)
            fr.env[I.id] = p
            return None
        if op == "call":
            return self.call(st, fr, I, work, done)
        if op == "ret":
            v = V(I.ops[0]) if I.ops else None
            return self.ret(st, fr, v, work, done)
        if op == "extractvalue":
            v = V(I.ops[0])
            for i in I.x:
                v = v[i]
            fr.env[I.id] = v
            return None
        if op == "insertvalue":
            def ins(a, ix, x):
                a = list(a)
                a[ix[0]] = ins(a[ix[0]], ix[1:], x) if len(ix) > 1 else x
                return a
            fr.env[I.id] = ins(V(I.ops[0]), I.x, V(I.ops[1]))
            return None
        if op == "freeze":
            fr.env[I.id] = V(I.ops[0])
            return None
        if op == "unreachable":
            self.oblige(st, 0, "unreachable", "unreachable code")
            return False
        if op in ("fadd", "fsub", "fmul", "fdiv", "fneg", "frem"):
            a = V(I.ops[0]).v
            if op == "fneg":
                fr.env[I.id] = FPV(-a if isinstance(a, float) else z3.fpNeg(fpx(a, I.ty.w)))
                return None
            b = V(I.ops[1]).v
            if not (isinstance(a, float) and isinstance(b, float)):
                if I.ty.w not in (32, 64) or op == "frem":
                    raise Unsupported("symbolic fp80/frem")
                f = {"fadd": z3.fpAdd, "fsub": z3.fpSub, "fmul": z3.fpMul, "fdiv": z3.fpDiv}[op]
                fr.env[I.id] = FPV(f(z3.RNE(), fpx(a, I.ty.w), fpx(b, I.ty.w)))
                return None
            if I.ty.w == 80:
                raise Unsupported("fp80")
            r = {"fadd": lambda: a + b, "fsub": lambda: a - b, "fmul": lambda: a * b, "fdiv": lambda: a / b if b else float("nan"), "frem": lambda: __import__("math").fmod(a, b)}[op]()
            if I.ty.w == 32:
                r = struct.unpack("<f", struct.pack("<f", r))[0]
            fr.env[I.id] = FPV(r)
            return None
        if op == "fcmp":
            a, b = V(I.ops[0]).v, V(I.ops[1]).v
            p = I.x[0]
            if not (isinstance(a, float) and isinstance(b, float)):
                w = I.x[1].w if len(I.x) > 1 else 64
                A, B = fpx(a, w), fpx(b, w)
                un = z3.Or(z3.fpIsNaN(A), z3.fpIsNaN(B))
                base = {0: z3.BoolVal(False), 1: z3.fpEQ(A, B), 2: z3.fpGT(A, B), 3: z3.fpGEQ(A, B), 4: z3.fpLT(A, B), 5: z3.fpLEQ(A, B),
                        6: z3.Not(z3.fpEQ(A, B)), 7: z3.BoolVal(True)}[p & 7]
                fr.env[I.id] = simp(z3.And(base, z3.Not(un)) if p < 8 else z3.Or(base, un))
                return None
            un = a != a or b != b
            base = {0: False, 1: a == b, 2: a > b, 3: a >= b, 4: a < b, 5: a <= b, 6: a != b, 7: True}
            if p < 8:
                r = (base[p] and not un) if p not in (0,) else False
                if p == 7:
                    r = not un
            else:
                r = un or {8: False, 9: a == b, 10: a > b, 11: a >= b, 12: a < b, 13: a <= b, 14: a != b, 15: True}[p]
            fr.env[I.id] = int(bool(r))
            return None
        if op == "fence":
            return None
        raise Unsupported("instruction " + op + " in " + fr.fn.name)

    def ret(self, st, fr, v, work, done):
        for c in fr.cuts:
            if c.dry:
                return False
        if fr.cuts:
            st.seq += 1
        for oid in fr.allocas:
            self.w(st, oid).alive = False
        st.frames.pop()
        if fr.pure:
            done.append((st, v))
            return False
        if not st.frames:
            self.paths += 1
            return False
        p = st.frames[-1]
        if fr.ret is not None:
            p.env[fr.ret] = v
        p.pc += 1
        return "again"

    # ------------------------------------------------------------------ calls
    def call(self, st, fr, I, work, done):
        cv, npar, atys, byval = I.x
        if cv[0] == "f":
            name = cv[1]
        elif cv[0] == "l" or cv[0] == "e" or cv[0] == "g":
            p = self.norm(st, self.val(st, fr, cv))
            if p.o == 0 or self.objs[p.o].kind != "fn":
                self.oblige(st, 0, "memory", "call through an invalid function pointer")
                return False
            name = self.objs[p.o].fn
        else:
            raise Unsupported("call target " + str(cv))
        if name.startswith("llvm.dbg") or name.startswith("llvm.lifetime"):
            return None
        args = [self.val(st, fr, o) for o in I.ops]
        for j, sz in byval:
            q = self.newobj(st, "byval@%s" % fr.fn.name, sz, "stack")
            fr.allocas.append(q.o)
            if not self.memcpy(st, q, args[j], sz):
                return False
            args[j] = q
        rep = "vp_contract_" + name
        if rep in self.m.fns and name not in self.opt.noreplace and not any(f.fn.name == rep for f in st.frames):
            self.assumed.add(name)
            name = rep
        ext = EXT.get(name)
        if ext is None and name.startswith("llvm."):
            for k in LLVMI:
                if name.startswith(k):
                    ext = LLVMI[k]
                    break
        if ext is not None:
            r = ext(self, st, fr, I, args)
            if r is DEAD:
                return False
            if I.ty.k != "void":
                fr.env[I.id] = r
            return None
        v = self.m.fns.get(name)
        if v is None or self.m.fn(name).decl:
            if name in NOPS:
                self.externs.add(name)
                if I.ty.k != "void":
                    fr.env[I.id] = self.zero(I.ty) if NOPS[name] == 0 else self.undef(I.ty)
                return None
            raise Unsupported("external function " + name)
        fn = self.m.fn(name)
        if name.startswith("spec_") or name.startswith("vp_pure_"):
            # specification functions are evaluated on all paths and merged
            fr.env[I.id] = self.pure(st, name, args, fn.ret)
            return None
        self.executed.add((name, fn.file))
        if len(st.frames) > self.opt.depth:
            if self.dry:
                raise Unsupported("recursion")
            self.unwind.append("recursion " + name)
            if len(self.unwind) > 3:
                raise Stop("recursion")
            return False
        f = self.frame(name, args)
        f.ret = I.id if I.ty.k != "void" else None
        f.va = (args[npar:], atys[npar:])
        st.frames.append(f)
        return "again"

    def pure(self, st, name, args, rty):
        """value of a side-effect-free C function: one ite over its paths"""
        key = None
        base = st.fork()
        f = self.frame(name, args)
        f.pure = True
        base.frames.append(f)
        n0 = len(base.pc)
        done = []
        self.dry += 1
        try:
            self.explore([base], done)
        finally:
            self.dry -= 1
        if not done:
            raise Unsupported("specification function %s has no result" % name)
        res = None
        for s, v in reversed(done):
            # facts introduced by constant division are definitions: keep them
            delta = []
            for c in s.pc[n0:]:
                delta.append(c)
            defs = [e[2] for e in self.divc.values()]
            if res is None:
                res = v
            else:
                cond = z3.And(delta) if len(delta) > 1 else delta[0] if delta else z3.BoolVal(True)
                if isinstance(v, Ptr):
                    raise Unsupported("pointer specification with several paths")
                res = self.ite(cond, v, res, rty)
        # definitions made inside must reach the caller's path condition
        seen = {c.get_id() for c in st.pc}
        for s, v in done:
            for c in s.pc[n0:]:
                if c.get_id() not in seen and self.isdef(c):
                    seen.add(c.get_id())
                    st.pc.append(c)
        return res

    def isdef(self, c):
        vs = self.vars(c)
        if vs and all(x.startswith("addr!") for x in vs):
            return True
        if not hasattr(self, "_defids"):
            self._defids = {}
        for key, e in self.divc.items():
            for x in e[2].children():
                self._defids[x.get_id()] = 1
        return c.get_id() in self._defids

    # ------------------------------------------------------------------ loops by induction
    def phival(self, x0, c, k, w):
        if isinstance(x0, Ptr):
            if c == 0:
                return x0
            return Ptr(x0.o, simp(bv(x0.off, 64) + k * c))
        if c == 0:
            return x0
        kk = k if w == 64 else z3.Extract(w - 1, 0, k) if w < 64 else z3.ZeroExt(w - 64, k)
        return simp(bv(x0, w) + kk * z3.BitVecVal(c, w))

    def havocphi(self, x0, ty, nm):
        if isinstance(x0, Ptr):
            return Ptr(x0.o, self.fresh(nm, 64))
        if ty.k == "fp":
            raise Unsupported("floating loop variable")
        return self.fresh(nm, ty.w)

    def diff(self, h, v, ty):
        """constant v - h, or None"""
        if isinstance(h, Ptr):
            if not isinstance(v, Ptr) or v.o != h.o:
                return "esc"
            d = simp(bv(v.off, 64) - bv(h.off, 64))
            return d if is_c(d) else None
        if ty.w == 1:
            return 0 if (not is_c(v) and not is_c(h) and v.eq(h)) else None
        d = simp(bv(v, ty.w) - bv(h, ty.w))
        return d if is_c(d) else None

    def start_cut(self, st, fr, src, dst, hd, work):
        fn = fr.fn
        idx, blocks = hd
        tag = "%s loop %d" % (fn.name, idx)
        phis = fn.bbs[dst].phis
        x0 = [self.val(st, fr, I.x[src]) for I in phis]
        st0 = st.fork()
        mark = self.nobj
        k = z3.BitVec("k_%s_%d!%d" % (fn.name, idx, self.nvar), 64)
        self.nvar += 1
        inv = "vp_inv__%s__%d" % (fn.name, idx)
        inv = inv if inv in self.m.fns else None
        defn = "vp_def__%s__%d" % (fn.name, idx)
        defn = defn if defn in self.m.fns else None
        ghosts = [n for n in ("vp_gh__%s__%d__%d" % (fn.name, idx, j) for j in range(12)) if n in self.m.fns]
        i32 = ir.Ty()
        i32.k, i32.w = "int", 32
        i64 = ir.Ty()
        i64.k, i64.w = "int", 64

        def enter(s, vals, dry, col):
            f = s.frames[-1]
            for I, v in zip(phis, vals):
                f.env[I.id] = v
            f.prev, f.bb, f.pc = src, dst, len(phis)
            c = Cut()
            c.header, c.blocks, c.dry, c.mark, c.fn, c.idx, c.writes = dst, blocks, dry, mark, fn.name, idx, set()
            c.check = col
            f.cuts.append(c)
            return c

        def havocmem(s, W, hv):
            """W: cells / whole objects written by the loop"""
            whole = {o for o, off, n in W if off is None}
            for o in whole:
                c = self.w(s, o)
                if c.mode == "d" and any(isinstance(e[1], Ptr) for e in c.cells.values()):
                    raise Unsupported("loop overwrites an object that holds pointers")
                c.mode, c.cells, c.base, c.ups, c.table = "l", None, self.fresharr("H_" + self.objs[o].name), (), None
            for (o, off, n) in sorted(x for x in W if x[1] is not None and x[0] not in whole):
                c = self.w(s, o)
                self.clearcells(s, c, off, n)
                c.cells[off] = (n, hv[(o, off, n)])

        def cell0(cell):
            o, off, n = cell
            c = st0.mem[o]
            e = c.cells.get(off)
            if e is not None and e[0] == n:
                return e[1]
            t = ir.Ty()
            t.k, t.w, t.store = "int", 8 * n, n
            return self.rawload(st0, Ptr(o, off), t, n)

        # 1. which memory does the loop write, and which header values are linear in k?
        W = set()
        self.dry += 1
        try:
            while True:
                s = st0.fork()
                hv = [self.havocphi(x, I.ty, "h") for x, I in zip(x0, phis)]
                mem = {}
                for cell in W:
                    if cell[1] is not None:
                        v = cell0(cell)
                        mem[cell] = self.havocphi(v, self.ity(8 * cell[2]), "hm") if not isinstance(v, FPV) else v
                backs = []
                s = st0.fork()
                havocmem(s, W, mem)

                def collect(s2, f2, vals, backs=backs):
                    backs.append((s2, vals))
                c = enter(s, hv, True, collect)
                self.explore([s])
                new = {x for x in c.writes}
                whole = {o for o, off, n in new | W if off is None}
                new = {x for x in new if x[0] not in whole} | {(o, None, None) for o in whole}
                oldw = {x for x in W if x[0] not in whole} | {(o, None, None) for o in whole}
                new = self.mergecells(new | oldw)
                if new == W:
                    break
                W = new
            lin, mlin = [], {}
            for i, I in enumerate(phis):
                ds = [self.diff(hv[i], b[1][i], I.ty) for b in backs]
                if any(d == "esc" for d in ds):
                    raise Unsupported("%s: pointer variable changes object" % tag)
                lin.append(ds[0] if ds and all(is_c(d) and d == ds[0] for d in ds) else 0 if not ds else None)
            for cell in W:
                if cell[1] is None:
                    continue
                t = self.ity(8 * cell[2])
                ds = []
                for b in backs:
                    e = b[0].mem[cell[0]].cells.get(cell[1]) if b[0].mem[cell[0]].mode == "d" else None
                    ds.append(self.diff(mem[cell], e[1], t) if e is not None and e[0] == cell[2] else None)
                if any(d == "esc" for d in ds):
                    raise Unsupported("%s: pointer in memory changes object" % tag)
                mlin[cell] = ds[0] if ds and all(is_c(d) and d == ds[0] for d in ds) else None
            # 2. candidate facts about iteration k
            cands = []   # (name, function k, phivals, memvals -> formula)

            def nowrap(x, c, w, nm):
                def g(kk):
                    X = z3.ZeroExt(64 - w, bv(x, w)) if w < 64 else bv(x, w)
                    sc = sgn(c, w)
                    m = (1 << w) - 1
                    a = abs(sc)
                    if sc < 0:
                        return z3.And(z3.ULE(kk, z3.BitVecVal(m // a, 64)), z3.ULE(kk * a, X))
                    return z3.And(z3.ULE(kk, z3.BitVecVal(m // a, 64)), z3.ULE(kk * a, z3.BitVecVal(m, 64) - X))
                return (nm, lambda kk, pv, mv: g(kk))
            for i, I in enumerate(phis):
                if lin[i] and not isinstance(x0[i], Ptr) and I.ty.w <= 64:
                    cands.append(nowrap(x0[i], lin[i], I.ty.w, "nowrap%d" % i))
                    if I.ty.w < 64:
                        def sg(kk, pv, mv, i=i, I=I):
                            w = I.ty.w
                            return z3.SignExt(64 - w, bv(pv[i], w)) == z3.SignExt(64 - w, bv(x0[i], w)) + kk * z3.BitVecVal(sgn(lin[i], w) & M64, 64)
                        cands.append(("snowrap%d" % i, sg))
            for cell, c in mlin.items():
                if c:
                    v = cell0(cell)
                    if not isinstance(v, (Ptr, FPV)) and cell[2] <= 8:
                        cands.append(nowrap(v, c, 8 * cell[2], "mnowrap%d" % cell[1]))
            nl = [i for i in range(len(phis)) if lin[i] is None]
            nlm = [cell for cell, c in mlin.items() if c is None]
            for gname in ghosts:
                for i in nl:
                    if not isinstance(x0[i], Ptr) and phis[i].ty.w == 1:
                        continue

                    def eq(kk, pv, mv, i=i, g=gname, s=None):
                        return None
                    cands.append(("%s=phi%d" % (gname, i), (gname, "phi", i)))
                for cell in nlm:
                    if not isinstance(cell0(cell), FPV):
                        cands.append(("%s=mem%d_%d" % (gname, cell[0], cell[1]), (gname, "mem", cell)))
            # signs of the non-linear ones are left to the unit's invariant

            def ev(s, cand, kk, pv, mv):
                f = cand[1]
                if callable(f):
                    return f(kk, pv, mv)
                g, kind, i = f
                gv = self.pure(s, g, [kk], self.ity(64))
                if kind == "phi":
                    cur, w, z = pv[i], phis[i].ty.w if not isinstance(pv[i], Ptr) else 64, x0[i]
                else:
                    cur, w, z = mv[i], 8 * i[2], cell0(i)
                if isinstance(cur, Ptr):
                    return bv(cur.off, 64) == bv(z.off, 64) + bv(gv, 64)
                G = bv(gv, 64)
                return bv(cur, w) == (z3.Extract(w - 1, 0, G) if w < 64 else G)

            def memvals(s):
                mv = {}
                for cell in mlin:
                    c = s.mem[cell[0]]
                    e = c.cells.get(cell[1]) if c.mode == "d" else None
                    if e is None or e[0] != cell[2]:
                        return None
                    mv[cell] = e[1]
                return mv

            def setup(s, kk, guards):
                """the arbitrary iteration kk"""
                pv = [self.phival(x, c, kk, I.ty.w) if c is not None else self.havocphi(x, I.ty, "h") for x, c, I in zip(x0, lin, phis)]
                hv2 = {}
                for cell, c in mlin.items():
                    v = cell0(cell)
                    hv2[cell] = self.phival(v, c, kk, 8 * cell[2]) if c is not None else self.havocphi(v, self.ity(8 * cell[2]), "hm")
                havocmem(s, W, hv2)
                self.addpc(s, z3.ULT(kk, z3.BitVecVal(1 << 60, 64)))
                mv = hv2
                if defn:
                    r = self.pure(s, defn, [kk], i32)
                    if not self.assume(s, boolv(r)):
                        return None
                for cd in cands:
                    e = simp(ev(s, cd, kk, pv, mv))
                    if is_c(e):
                        if not e:
                            return None
                        continue
                    self.addpc(s, e)
                for g in guards:
                    e = simp(z3.Or(kk == 0, z3.substitute(g, (k, kk - 1)) if True else g))
                    if not is_c(e):
                        self.addpc(s, e)
                if inv:
                    r = self.pure(s, inv, [kk], i32)
                    b = boolv(r)
                    b = simp(b)
                    if is_c(b):
                        if not b:
                            return None
                    else:
                        self.addpc(s, b)
                return pv, mv
            # initial truth of the candidates
            ok = []
            mv0 = {cell: cell0(cell) for cell in mlin}
            zero = z3.BitVecVal(0, 64)
            for cd in cands:
                s = st0.fork()
                if defn:
                    r = self.pure(s, defn, [zero], i32)
                    if not self.assume(s, boolv(r)):
                        raise Unsupported("definition contradicts")
                e = ev(s, cd, zero, x0, mv0)
                n = simp(z3.Not(e))
                if is_c(n):
                    if not n:
                        ok.append(cd)
                    continue
                r, _ = self.solve(self.slice(s.pc, [n]) + [n])
                if r == z3.unsat:
                    ok.append(cd)
            cands = ok
            guards = []
            first = True
            rounds = 0
            while True:
                rounds += 1
                bad = set()
                common = [None]
                s = st0.fork()
                pv0 = setup(s, k, guards)
                if pv0 is None:
                    break
                pcmark = len(s.pc)

                def collect(s2, f2, vals):
                    cur = {c.get_id(): c for c in s2.pc[pcmark:]}
                    common[0] = cur if common[0] is None else {i: c for i, c in common[0].items() if i in cur}
                    mv = memvals(s2)
                    if defn:
                        r = self.pure(s2, defn, [k + 1], i32)
                        self.assume(s2, boolv(r))
                    for ci, cd in enumerate(cands):
                        if ci in bad:
                            continue
                        if mv is None and not callable(cd[1]):
                            bad.add(ci)
                            continue
                        n = simp(z3.Not(ev(s2, cd, k + 1, vals, mv)))
                        if is_c(n):
                            if n:
                                bad.add(ci)
                            continue
                        r, _ = self.solve(self.slice(s2.pc, [n]) + [n], timeout=10)
                        if r != z3.unsat:
                            bad.add(ci)
                pv = pv0
                enter(s, pv[0], True, collect)
                self.explore([s])
                ng = []
                if common[0]:
                    pre = frozenset().union(*[self.vars(c) for c in st0.pc]) if st0.pc else frozenset()
                    for c in common[0].values():
                        vs = self.vars(c)
                        if all(self.prevar(v, k, st0, pre) for v in vs):
                            ng.append(c)
                gset = {g.get_id() for g in ng}
                same_g = gset == {g.get_id() for g in guards}
                if not bad and (same_g or rounds > 6):
                    if not same_g:
                        guards = []
                        if rounds > 8:
                            break
                        rounds += 1
                        continue
                    break
                cands = [c for i, c in enumerate(cands) if i not in bad]
                guards = ng
                if rounds > 12:
                    cands, guards = [], []
                    break
        finally:
            self.dry -= 1
        info = "%s: %d linear, %d other header values, %d written cells/objects, facts: %s + %d guards%s" % (
            tag, sum(1 for c in lin if c is not None), len(nl), len(W), ",".join(c[0] for c in cands), len(guards), ", unit invariant" if inv else "")
        if not self.dry:
            self.cutinfo[tag] = info
            if self.opt.v:
                print("   [cut] " + info, file=sys.stderr)
        # 3. initially
        if inv:
            s = st0.fork()
            if defn:
                r = self.pure(s, defn, [zero], i32)
                if not self.assume(s, boolv(r)):
                    raise Unsupported("definition contradicts")
            r = boolv(self.pure(s, inv, [zero], i32))
            self.oblige(s, r, "invariant", "invariant of %s holds on entry" % tag)
        # 4. the arbitrary iteration, for real
        s = st
        s.frames[-1].cuts = list(fr.cuts)
        pv = setup(s, k, guards)
        if pv is None:
            return False

        def preserve(s2, f2, vals):
            mv = memvals(s2)
            if self.dry:
                return
            if defn:
                r = self.pure(s2, defn, [k + 1], i32)
                self.assume(s2, boolv(r))
            for cd in cands:
                e = ev(s2, cd, k + 1, vals, mv)
                self.oblige(s2, simp(e), "inferred fact", "inferred fact of %s is preserved" % tag)
            for g in guards:
                self.oblige(s2, simp(g), "inferred fact", "guard fact of %s is preserved" % tag)
            for i, I in enumerate(phis):
                if lin[i] is not None:
                    want = self.phival(x0[i], lin[i], k + 1, I.ty.w)
                    e = (bv(vals[i].off, 64) == bv(want.off, 64)) if isinstance(want, Ptr) else (boolv(vals[i]) == boolv(want)) if I.ty.w == 1 else bv(vals[i], I.ty.w) == bv(want, I.ty.w)
                    self.oblige(s2, simp(e), "inferred fact", "linear form of a variable of %s" % tag)
            for cell, c in mlin.items():
                if c is not None:
                    want = self.phival(cell0(cell), c, k + 1, 8 * cell[2])
                    got = mv[cell]
                    e = (bv(got.off, 64) == bv(want.off, 64)) if isinstance(want, Ptr) else bv(got, 8 * cell[2]) == bv(want, 8 * cell[2])
                    self.oblige(s2, simp(e), "inferred fact", "linear form of a memory cell of %s" % tag)
            cut = f2.cuts[-1] if f2.cuts else None
            wr = {x for x in cut.writes} if cut else set()
            for (o, off, n) in wr:
                if off is None:
                    if (o, None, None) not in W:
                        raise Unsupported("frame of %s not stable" % tag)
                elif (o, None, None) not in W and not any(c[0] == o and c[1] is not None and c[1] <= off and off + n <= c[1] + c[2] for c in W):
                    raise Unsupported("frame of %s not stable" % tag)
            if inv:
                r = boolv(self.pure(s2, inv, [k + 1], i32))
                self.oblige(s2, r, "invariant", "invariant of %s is preserved" % tag)
        enter(s, pv[0], False, preserve)
        return "jump"

    def mergecells(self, W):
        """overlapping written cells of different widths: keep byte cells apart"""
        out = set()
        by = {}
        for o, off, n in W:
            if off is None:
                out.add((o, off, n))
            else:
                by.setdefault(o, []).append((off, n))
        for o, l in by.items():
            l = sorted(set(l))
            clash = any(l[i][0] + l[i][1] > l[i + 1][0] for i in range(len(l) - 1))
            if clash:
                bs = sorted({a + i for a, n in l for i in range(n)})
                for b in bs:
                    out.add((o, b, 1))
            else:
                for a, n in l:
                    out.add((o, a, n))
        return out

    def prevar(self, v, k, st0, pre):
        if v == k.decl().name():
            return True
        if v.startswith("fn:"):
            return True
        if v in pre:
            return True
        if "!" in v:
            try:
                return int(v.rsplit("!", 1)[1]) <= int(k.decl().name().rsplit("!", 1)[1])
            except ValueError:
                return False
        return False

    def ity(self, w):
        t = ir.Ty()
        t.k, t.w, t.store, t.size = "int", w, (w + 7) // 8, (w + 7) // 8
        return t


class NeedSplit(Exception):
    def __init__(self, off):
        self.off = off


class NeedCase(Exception):
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


class NeedSplitB(Exception):
    def __init__(self, c):
        self.c = c


DEAD = object()
EXT, LLVMI, NOPS = {}, {}, {}
from models import register   # noqa
register(sys.modules[__name__])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("bc")
    ap.add_argument("entry")
    ap.add_argument("--unroll", type=int, default=70)
    ap.add_argument("--depth", type=int, default=60)
    ap.add_argument("--deadline", type=float, default=300)
    ap.add_argument("--qtimeout", type=float, default=60)
    ap.add_argument("--ftimeout", type=float, default=2.0)
    ap.add_argument("--cut", action="append")
    ap.add_argument("--noreplace", action="append", default=[])
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    m = ir.Module(a.bc)
    e = Engine(m, a)
    note, status = "", "ok"
    try:
        e.run(a.entry)
    except Unsupported as x:
        status, note = "undecided", "outside the verifier's reach: %s" % x
    except Stop as x:
        note = str(x)
        status = "undecided"
    except z3.Z3Exception as x:
        status, note = "undecided", "z3: %s" % x
        if a.v:
            import traceback
            traceback.print_exc()
    res = e.results
    n = sum(r["proved"] + r["failed"] + r["unknown"] for r in res.values())
    pr = sum(r["proved"] for r in res.values())
    if e.viol:
        status = "failed"
    elif status == "ok":
        if e.unwind:
            status, note = "undecided", "a loop or recursion runs past the stated bound: " + ", ".join(sorted(set(e.unwind))[:3])
        elif e.unknowns:
            status, note = "undecided", "solver undecided: " + "; ".join(sorted(set(e.unknowns))[:3])
        elif not e.reached:
            status, note = "vacuous", "the end of the contract is not reachable"
    if a.v:
        print("   [forks] " + str(sorted(e.forks.items(), key=lambda x: -x[1])[:12]), file=sys.stderr)
    print(json.dumps({"status": status, "note": note, "obligations": n, "discharged": pr, "named": len(res), "paths": e.paths, "queries": e.queries, "cvc5": e.ncvc5,
                      "solver_s": round(e.qtime, 2), "secs": round(time.time() - t0, 2), "failed": e.viol, "cuts": sorted(e.cutinfo.values()),
                      "functions": sorted("%s (%s)" % x for x in e.executed), "contracts_used": sorted(e.assumed), "externs": sorted(e.externs),
                      "names": {k: r["proved"] for k, r in sorted(res.items())} if a.v else None}))


if __name__ == "__main__":
    main()

"""ir.py - reads LLVM bitcode/IR (as clang emitted it for the real sources) through libLLVM's C API.

Nothing is rewritten here: every instruction of every function is decoded one to one."""
import ctypes as C, glob

VP = C.c_void_p


def _load():
    for p in ["/usr/lib/llvm-18/lib/libLLVM.so.1", "/usr/lib/x86_64-linux-gnu/libLLVM-18.so", "/usr/lib/x86_64-linux-gnu/libLLVM.so.18.1"]:
        try:
            return C.CDLL(p)
        except OSError:
            pass
    raise SystemExit("no libLLVM-18")


L = _load()
_sig = {}


def f(name, res, *args):
    fn = getattr(L, name)
    fn.restype = res
    fn.argtypes = list(args)
    return fn


ContextCreate = f("LLVMContextCreate", VP)
BufFile = f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(VP), C.POINTER(C.c_char_p))
ParseIR = f("LLVMParseIRInContext", C.c_int, VP, VP, C.POINTER(VP), C.POINTER(C.c_char_p))
FirstFn = f("LLVMGetFirstFunction", VP, VP)
NextFn = f("LLVMGetNextFunction", VP, VP)
FirstGl = f("LLVMGetFirstGlobal", VP, VP)
NextGl = f("LLVMGetNextGlobal", VP, VP)
FirstAl = f("LLVMGetFirstGlobalAlias", VP, VP)
NextAl = f("LLVMGetNextGlobalAlias", VP, VP)
Aliasee = f("LLVMAliasGetAliasee", VP, VP)
ValName = f("LLVMGetValueName2", VP, VP, C.POINTER(C.c_size_t))
IsDecl = f("LLVMIsDeclaration", C.c_int, VP)
FirstBB = f("LLVMGetFirstBasicBlock", VP, VP)
NextBB = f("LLVMGetNextBasicBlock", VP, VP)
FirstI = f("LLVMGetFirstInstruction", VP, VP)
NextI = f("LLVMGetNextInstruction", VP, VP)
Opcode = f("LLVMGetInstructionOpcode", C.c_int, VP)
COpcode = f("LLVMGetConstOpcode", C.c_int, VP)
TypeOf = f("LLVMTypeOf", VP, VP)
NumOps = f("LLVMGetNumOperands", C.c_int, VP)
Op = f("LLVMGetOperand", VP, VP, C.c_uint)
Kind = f("LLVMGetValueKind", C.c_int, VP)
ICmpPred = f("LLVMGetICmpPredicate", C.c_int, VP)
FCmpPred = f("LLVMGetFCmpPredicate", C.c_int, VP)
ConstZ = f("LLVMConstIntGetZExtValue", C.c_ulonglong, VP)
TyKind = f("LLVMGetTypeKind", C.c_int, VP)
IntW = f("LLVMGetIntTypeWidth", C.c_uint, VP)
ArrN = f("LLVMGetArrayLength2", C.c_uint64, VP)
ElemT = f("LLVMGetElementType", VP, VP)
StructN = f("LLVMCountStructElementTypes", C.c_uint, VP)
StructT = f("LLVMStructGetTypeAtIndex", VP, VP, C.c_uint)
DL = f("LLVMGetModuleDataLayout", VP, VP)
ABISize = f("LLVMABISizeOfType", C.c_ulonglong, VP, VP)
StoreSize = f("LLVMStoreSizeOfType", C.c_ulonglong, VP, VP)
OffElem = f("LLVMOffsetOfElement", C.c_ulonglong, VP, VP, C.c_uint)
GVInit = f("LLVMGetInitializer", VP, VP)
GVTy = f("LLVMGlobalGetValueType", VP, VP)
GVConst = f("LLVMIsGlobalConstant", C.c_int, VP)
AllocT = f("LLVMGetAllocatedType", VP, VP)
GepT = f("LLVMGetGEPSourceElementType", VP, VP)
NumInc = f("LLVMCountIncoming", C.c_uint, VP)
IncV = f("LLVMGetIncomingValue", VP, VP, C.c_uint)
IncB = f("LLVMGetIncomingBlock", VP, VP, C.c_uint)
NumSucc = f("LLVMGetNumSuccessors", C.c_uint, VP)
Succ = f("LLVMGetSuccessor", VP, VP, C.c_uint)
IsCond = f("LLVMIsConditional", C.c_int, VP)
Cond = f("LLVMGetCondition", VP, VP)
ValAsBB = f("LLVMValueAsBasicBlock", VP, VP)
BBAsVal = f("LLVMBasicBlockAsValue", VP, VP)
CalledV = f("LLVMGetCalledValue", VP, VP)
CalledFT = f("LLVMGetCalledFunctionType", VP, VP)
NumArg = f("LLVMGetNumArgOperands", C.c_uint, VP)
CountParams = f("LLVMCountParams", C.c_uint, VP)
Param = f("LLVMGetParam", VP, VP, C.c_uint)
CountPT = f("LLVMCountParamTypes", C.c_uint, VP)
IsVA = f("LLVMIsFunctionVarArg", C.c_int, VP)
RetT = f("LLVMGetReturnType", VP, VP)
NumIdx = f("LLVMGetNumIndices", C.c_uint, VP)
Idx = f("LLVMGetIndices", C.POINTER(C.c_uint), VP)
DbgLine = f("LLVMGetDebugLocLine", C.c_uint, VP)
DbgFile = f("LLVMGetDebugLocFilename", VP, VP, C.POINTER(C.c_uint))
IsString = f("LLVMIsConstantString", C.c_int, VP)
AsString = f("LLVMGetAsString", VP, VP, C.POINTER(C.c_size_t))
ElemConst = f("LLVMGetElementAsConstant", VP, VP, C.c_uint)
AggElem = f("LLVMGetAggregateElement", VP, VP, C.c_uint)
RealVal = f("LLVMConstRealGetDouble", C.c_double, VP, C.POINTER(C.c_int))
PrintV = f("LLVMPrintValueToString", VP, VP)
GetAttr = f("LLVMGetCallSiteEnumAttribute", VP, VP, C.c_uint, C.c_uint)
AttrKind = f("LLVMGetEnumAttributeKindForName", C.c_uint, C.c_char_p, C.c_size_t)
AttrTy = f("LLVMGetTypeAttributeValue", VP, VP)
NSW = f("LLVMGetNSW", C.c_int, VP)
BYVAL = AttrKind(b"byval", 5)

OPC = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 7: "unreachable", 66: "fneg", 8: "add", 9: "fadd", 10: "sub", 11: "fsub", 12: "mul", 13: "fmul",
       14: "udiv", 15: "sdiv", 16: "fdiv", 17: "urem", 18: "srem", 19: "frem", 20: "shl", 21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor",
       26: "alloca", 27: "load", 28: "store", 29: "gep", 30: "trunc", 31: "zext", 32: "sext", 33: "fptoui", 34: "fptosi", 35: "uitofp", 36: "sitofp",
       37: "fptrunc", 38: "fpext", 39: "ptrtoint", 40: "inttoptr", 41: "bitcast", 42: "icmp", 43: "fcmp", 44: "phi", 45: "call", 46: "select",
       49: "va_arg", 53: "extractvalue", 54: "insertvalue", 55: "fence", 57: "atomicrmw", 60: "addrspacecast", 68: "freeze"}
IPRED = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
# value kinds
K_ARG, K_BB, K_FN, K_ALIAS, K_GV, K_CE, K_CARR, K_CSTRUCT, K_UNDEF, K_CAZ, K_CDA, K_CINT, K_CFP, K_NULL, K_META, K_ASM, K_INST, K_POISON = \
    0, 1, 5, 6, 8, 10, 11, 12, 14, 15, 16, 18, 19, 20, 22, 23, 24, 25


class Ty:
    __slots__ = ("k", "w", "n", "el", "fields", "offs", "size", "store")


class Inst:
    __slots__ = ("op", "id", "ty", "ops", "x", "line", "file", "idx", "bb")


class BB:
    __slots__ = ("id", "insts", "succs", "name", "phis")


class Fn:
    def __init__(self):
        self.bbs = {}
        self.entry = None


class Module:
    def __init__(self, path):
        self.ctx = ContextCreate()
        buf = VP()
        err = C.c_char_p()
        if BufFile(path.encode(), C.byref(buf), C.byref(err)):
            raise SystemExit("cannot read %s" % path)
        m = VP()
        if ParseIR(self.ctx, buf, C.byref(m), C.byref(err)):
            raise SystemExit("cannot parse %s: %s" % (path, err.value))
        self.m = m
        self.dl = DL(m)
        self.types = {}
        self.fns, self.gvs, self.aliases = {}, {}, {}
        v = FirstFn(m)
        while v:
            self.fns[self.name(v)] = v
            v = NextFn(v)
        v = FirstGl(m)
        while v:
            self.gvs[self.name(v)] = v
            v = NextGl(v)
        v = FirstAl(m)
        while v:
            self.aliases[self.name(v)] = v
            v = NextAl(v)
        self.dec = {}

    def name(self, v):
        n = C.c_size_t()
        p = ValName(v, C.byref(n))
        return C.string_at(p, n.value).decode("latin1")

    def ty(self, t):
        r = self.types.get(t)
        if r is None:
            r = Ty()
            self.types[t] = r
            k = TyKind(t)
            r.w = r.n = r.el = r.fields = r.offs = None
            r.size = r.store = 0
            if k == 0:
                r.k = "void"
            elif k == 8:
                r.k = "int"
                r.w = IntW(t)
            elif k == 12:
                r.k = "ptr"
                r.w = 64
            elif k in (1, 2, 3, 4, 5, 6):
                r.k = "fp"
                r.w = {2: 32, 3: 64, 4: 80}.get(k, 0)
            elif k == 11:
                r.k = "arr"
                r.n = ArrN(t)
                r.el = self.ty(ElemT(t))
            elif k == 10:
                r.k = "struct"
                r.n = StructN(t)
                try:
                    r.size = ABISize(self.dl, t)
                except Exception:
                    pass
                r.fields = [self.ty(StructT(t, i)) for i in range(r.n)]
                r.offs = [OffElem(self.dl, t, i) for i in range(r.n)]
            elif k == 13:
                r.k = "vec"
            else:
                r.k = "other"
            if r.k in ("int", "ptr", "fp", "arr", "struct"):
                r.size = ABISize(self.dl, t)
                r.store = StoreSize(self.dl, t)
        return r

    def operand(self, v):
        k = Kind(v)
        if k in (K_ARG, K_INST):
            return ("l", v)
        if k == K_CINT:
            t = self.ty(TypeOf(v))
            if t.w > 64:
                s = C.string_at(PrintV(v)).decode().split()[-1]
                return ("c", int(s) & ((1 << t.w) - 1))
            return ("c", ConstZ(v) & ((1 << t.w) - 1))
        if k == K_NULL:
            return ("null",)
        if k in (K_GV,):
            return ("g", self.name(v))
        if k == K_FN:
            return ("f", self.name(v))
        if k == K_ALIAS:
            return self.operand(Aliasee(v))
        if k in (K_UNDEF, K_POISON):
            return ("u", self.ty(TypeOf(v)))
        if k == K_CE:
            op = OPC.get(COpcode(v), "?")
            if op == "gep":
                return ("e", "gep", self.gep(v))
            if op in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext"):
                return ("e", op, (self.operand(Op(v, 0)), self.ty(TypeOf(Op(v, 0))), self.ty(TypeOf(v))))
            if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr"):
                return ("e", "bin", (op, self.operand(Op(v, 0)), self.operand(Op(v, 1)), self.ty(TypeOf(v))))
            return ("?", "constexpr " + op)
        if k == K_CFP:
            b = C.c_int()
            return ("c", RealVal(v, C.byref(b)))
        if k == K_CAZ:
            return ("zero", self.ty(TypeOf(v)))
        if k in (K_CARR, K_CSTRUCT):
            return ("agg", [self.operand(Op(v, i)) for i in range(NumOps(v))], self.ty(TypeOf(v)))
        if k == K_CDA:
            t = self.ty(TypeOf(v))
            if IsString(v):
                n = C.c_size_t()
                p = AsString(v, C.byref(n))
                return ("str", C.string_at(p, n.value), t)
            return ("agg", [self.operand(ElemConst(v, i)) for i in range(t.n)], t)
        if k == K_META:
            return ("meta",)
        if k == K_BB:
            return ("bb", ValAsBB(v))
        if k == K_ASM:
            return ("?", "asm")
        return ("?", "valuekind %d" % k)

    def gep(self, v):
        t = self.ty(GepT(v))
        base = self.operand(Op(v, 0))
        const, terms = 0, []
        for i in range(1, NumOps(v)):
            o = self.operand(Op(v, i))
            w = self.ty(TypeOf(Op(v, i))).w
            if i == 1:
                sc = t.size
            elif t.k == "arr":
                t = t.el
                sc = t.size
            elif t.k == "struct":
                const += t.offs[o[1]]
                t = t.fields[o[1]]
                continue
            else:
                return ("?", "gep type")
            if o[0] == "c":
                x = o[1]
                if x >> (w - 1):
                    x -= 1 << w
                const += x * sc
            else:
                terms.append((o, w, sc))
        return (base, const, terms)

    def fn(self, name):
        r = self.dec.get(name)
        if r is None:
            r = self.dec[name] = self._fn(name)
        return r

    def _fn(self, name):
        v = self.fns[name]
        r = Fn()
        r.name = name
        r.decl = bool(IsDecl(v))
        r.ft = GVTy(v)
        r.ret = self.ty(RetT(r.ft))
        r.va = bool(IsVA(r.ft))
        n = CountParams(v)
        r.params = [Param(v, i) for i in range(n)]
        r.ptys = [self.ty(TypeOf(p)) for p in r.params]
        if r.decl:
            return r
        b = FirstBB(v)
        r.entry = b
        k = 0
        r.order = []
        r.file = ""
        while b:
            B = BB()
            B.id = b
            B.name = str(k)
            k += 1
            B.insts = []
            B.phis = []
            B.succs = []
            i = FirstI(b)
            while i:
                I = self.inst(i)
                I.bb = b
                I.idx = len(B.insts)
                if I.file and not r.file:
                    r.file = I.file
                B.insts.append(I)
                if I.op == "phi":
                    B.phis.append(I)
                i = NextI(i)
            t = B.insts[-1]
            if t.op == "br":
                B.succs = list(t.x[1])
            elif t.op == "switch":
                B.succs = [t.x[1]] + [s for _, s in t.x[2]]
            r.bbs[b] = B
            r.order.append(b)
            b = NextBB(b)
        self.loops(r)
        return r

    def inst(self, i):
        I = Inst()
        I.id = i
        op = OPC.get(Opcode(i), "?%d" % Opcode(i))
        I.op = op
        I.ty = self.ty(TypeOf(i))
        I.line = DbgLine(i)
        I.file = ""
        if I.line:
            n = C.c_uint()
            p = DbgFile(i, C.byref(n))
            if p:
                I.file = C.string_at(p, n.value).decode("latin1").split("/")[-1]
        I.x = None
        I.ops = []
        if op == "phi":
            I.x = {IncB(i, j): self.operand(IncV(i, j)) for j in range(NumInc(i))}
        elif op == "br":
            n = NumSucc(i)
            I.x = (self.operand(Cond(i)) if IsCond(i) else None, [Succ(i, j) for j in range(n)])
        elif op == "switch":
            n = NumOps(i)
            cases = [(self.operand(Op(i, j))[1], ValAsBB(Op(i, j + 1))) for j in range(2, n, 2)]
            I.x = (self.operand(Op(i, 0)), ValAsBB(Op(i, 1)), cases, self.ty(TypeOf(Op(i, 0))).w)
        elif op == "gep":
            I.x = self.gep(i)
        elif op == "alloca":
            I.x = self.ty(AllocT(i))
            I.ops = [self.operand(Op(i, 0))]
        elif op == "call":
            n = NumArg(i)
            cv = CalledV(i)
            ft = CalledFT(i)
            np = CountPT(ft)
            byval = []
            for j in range(min(n, np)):
                a = GetAttr(i, j + 1, BYVAL)
                if a:
                    byval.append((j, self.ty(AttrTy(a)).size))
            I.ops = [self.operand(Op(i, j)) for j in range(n)]
            I.x = (self.operand(cv), np, [self.ty(TypeOf(Op(i, j))) for j in range(n)], byval)
        elif op in ("extractvalue", "insertvalue"):
            I.ops = [self.operand(Op(i, j)) for j in range(NumOps(i))]
            p = Idx(i)
            I.x = [p[j] for j in range(NumIdx(i))]
        else:
            I.ops = [self.operand(Op(i, j)) for j in range(NumOps(i))]
            if op == "icmp":
                I.x = (IPRED[ICmpPred(i)], self.ty(TypeOf(Op(i, 0))))
            elif op == "fcmp":
                I.x = (FCmpPred(i), self.ty(TypeOf(Op(i, 0))))
            elif NumOps(i):
                I.x = self.ty(TypeOf(Op(i, 0)))
        return I

    def loops(self, r):
        """natural loops, in program order: r.headers[bb] = (index, set of blocks)"""
        preds = {b: [] for b in r.order}
        for b in r.order:
            for s in r.bbs[b].succs:
                preds[s].append(b)
        # reachable + RPO
        seen, post = set(), []
        st = [(r.entry, iter(r.bbs[r.entry].succs))]
        seen.add(r.entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(r.bbs[s].succs)))
                    break
            else:
                post.append(b)
                st.pop()
        rpo = post[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        idom = {r.entry: r.entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in preds[b] if p in idom]
                n = ps[0]
                for p in ps[1:]:
                    x, y = p, n
                    while x != y:
                        while num[x] > num[y]:
                            x = idom[x]
                        while num[y] > num[x]:
                            y = idom[y]
                    n = x
                if idom.get(b) != n:
                    idom[b] = n
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == r.entry:
                    return False
                b = idom[b]
        body = {}
        for b in rpo:
            for s in r.bbs[b].succs:
                if dom(s, b):
                    S = body.setdefault(s, {s})
                    w = [b]
                    while w:
                        x = w.pop()
                        if x not in S:
                            S.add(x)
                            w += [p for p in preds[x] if p in num]
        order = {b: i for i, b in enumerate(r.order)}
        r.headers = {}

        def line(h):
            ls = [i.line for b in body[h] for i in r.bbs[b].insts if i.line]
            return (min(ls) if ls else 0, -len(body[h]), order[h])
        for i, h in enumerate(sorted(body, key=line)):
            r.headers[h] = (i, body[h])
        # innermost-first exits: blocks reachable on back edges are implied by execution

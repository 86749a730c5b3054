"""sweep.py - equality of two large bit-vector terms by merging equal inner terms bottom-up.

Two inner terms with the same values on random inputs are proved equal by a small query in which everything more than
a few levels below is a fresh variable (already merged terms share the variable), and are then one term.  Every merge
is proved; random values only pick the candidates.
"""
import random, time, z3

K = z3
MASK = {}


def m(w):
    return (1 << w) - 1


def sg(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def evaln(e, k, a, w, ws, rnd):
    """value of application e (kind k) on argument values a (widths ws)"""
    M = m(w)
    if k == K.Z3_OP_BADD:
        return sum(a) & M
    if k == K.Z3_OP_BMUL:
        r = 1
        for x in a:
            r = r * x & M
        return r
    if k == K.Z3_OP_BSUB:
        r = a[0]
        for x in a[1:]:
            r -= x
        return r & M
    if k == K.Z3_OP_BNEG:
        return -a[0] & M
    if k == K.Z3_OP_BNOT:
        return ~a[0] & M
    if k == K.Z3_OP_BAND:
        r = M
        for x in a:
            r &= x
        return r
    if k == K.Z3_OP_BOR:
        r = 0
        for x in a:
            r |= x
        return r
    if k == K.Z3_OP_BXOR:
        r = 0
        for x in a:
            r ^= x
        return r
    if k == K.Z3_OP_CONCAT:
        r = 0
        for x, n in zip(a, ws):
            r = r << n | x
        return r
    if k == K.Z3_OP_EXTRACT:
        hi, lo = e.params()
        return a[0] >> lo & m(hi - lo + 1)
    if k == K.Z3_OP_ZERO_EXT:
        return a[0]
    if k == K.Z3_OP_SIGN_EXT:
        return sg(a[0], ws[0]) & M
    if k == K.Z3_OP_BSHL:
        return a[0] << a[1] & M if a[1] < w else 0
    if k == K.Z3_OP_BLSHR:
        return a[0] >> a[1] if a[1] < w else 0
    if k == K.Z3_OP_BASHR:
        return sg(a[0], w) >> min(a[1], w) & M
    if k == K.Z3_OP_ITE:
        return a[1] if a[0] else a[2]
    if k == K.Z3_OP_EQ:
        return int(a[0] == a[1])
    if k == K.Z3_OP_NOT:
        return 1 - a[0]
    if k == K.Z3_OP_AND:
        return int(all(a))
    if k == K.Z3_OP_OR:
        return int(any(a))
    if k == K.Z3_OP_ULEQ:
        return int(a[0] <= a[1])
    if k == K.Z3_OP_UGEQ:
        return int(a[0] >= a[1])
    if k == K.Z3_OP_ULT:
        return int(a[0] < a[1])
    if k == K.Z3_OP_UGT:
        return int(a[0] > a[1])
    if k in (K.Z3_OP_SLEQ, K.Z3_OP_SGEQ, K.Z3_OP_SLT, K.Z3_OP_SGT):
        x, y = sg(a[0], ws[0]), sg(a[1], ws[1])
        return int({K.Z3_OP_SLEQ: x <= y, K.Z3_OP_SGEQ: x >= y, K.Z3_OP_SLT: x < y, K.Z3_OP_SGT: x > y}[k])
    return None


class Sweep:
    R = 24

    def __init__(self):
        self.rnd = random.Random(7)
        self.val = {}       # id -> values
        self.rep = {}       # id -> representative term
        self.cls = {}       # (sort, values) -> representatives
        self.keep = []
        self.var = {}
        self.lin = {}       # id -> bits as linear sums
        self.lincls = {}
        self.nbits = 0
        self.side = {}      # id -> 1 part of the left term, 2 of the right one, 3 of both
        self.queries = 0

    def size(self, e):
        return 1 if z3.is_bool(e) else e.size()

    def variable(self, e):
        r = self.var.get(e.get_id())
        if r is None:
            n = "sw!%d" % len(self.var)
            r = self.var[e.get_id()] = z3.Bool(n) if z3.is_bool(e) else z3.BitVec(n, e.size())
            self.keep.append(e)
        return r

    PLAIN = (z3.Z3_OP_EXTRACT, z3.Z3_OP_CONCAT, z3.Z3_OP_BNOT, z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT)

    def opaque(self, e):
        return any(not (z3.is_bv(c) or z3.is_bool(c)) for c in e.children())

    def near(self, x, depth):
        out, st = set(), [(x, depth)]
        while st:
            y, d = st.pop()
            for c in y.children():
                out.add(c.get_id())
                if d:
                    st.append((c, d - 1))
        return out

    def frontier(self, roots, expand):
        """terms common to both sides met first going down from the roots (those in expand are gone through)"""
        seen, out, st = set(), {}, list(roots)
        top = {r.get_id() for r in roots}
        both = self.near(roots[0], 4) & self.near(roots[1], 4)
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen or x.num_args() == 0:
                continue
            seen.add(i)
            if len(seen) > 1500:
                return None
            if self.opaque(x) or (i not in top and i not in expand and (self.side.get(i) == 3 or i in both) and x.decl().kind() not in self.PLAIN and self.size(x) >= 8):
                out[i] = x
                continue
            st += x.children()
        return out

    def below(self, x, F, depth):
        st = [(c, depth) for c in x.children()]
        while st:
            y, d = st.pop()
            if y.get_id() in F:
                return True
            if d and not self.opaque(y):
                st += [(c, d - 1) for c in y.children()]
        return False

    def same(self, a, b):
        if a.eq(b):
            return True
        expand = set()
        for d in range(7):
            # relations between the variables are what the proof may need: no variable for a term just above another one's
            while True:
                F = self.frontier((a, b), expand)
                if F is None:
                    return False
                more = {i for i, x in F.items() if not self.opaque(x) and self.below(x, F, 2)}
                if not more:
                    break
                expand |= more
            sub = [(x, self.variable(x)) for x in F.values()]
            x, y = (z3.substitute(a, *sub), z3.substitute(b, *sub)) if sub else (a, b)
            g = z3.simplify(x != y, sort_sums=True)
            if z3.is_false(g):
                return True
            if not z3.is_true(g):
                s = z3.SolverFor("QF_BV")
                s.set("timeout", 1500)
                s.add(g)
                self.queries += 1
                if s.check() == z3.unsat:
                    return True
            if time.time() > self.end:
                return False
            expand |= {i for i, x in F.items() if not self.opaque(x)}
        return False

    def node(self, e):
        ch = e.children()
        if any(not (z3.is_bv(c) or z3.is_bool(c)) for c in ch):
            ch = []
            leaf = True
        else:
            leaf = not ch
        sz = self.size(e)
        if z3.is_bv_value(e):
            v = (e.as_long(),) * self.R
            r = e
        elif z3.is_true(e) or z3.is_false(e):
            v = (int(z3.is_true(e)),) * self.R
            r = e
        else:
            v = None
            r = e
            if not leaf:
                rc = [self.rep[c.get_id()] for c in ch]
                if any(not x.eq(c) for x, c in zip(rc, ch)):
                    r = e.decl()(*rc)
                k = e.decl().kind()
                ws = [self.size(c) for c in ch]
                v = tuple(evaln(e, k, [self.val[c.get_id()][j] for c in ch], sz, ws, self.rnd) for j in range(self.R))
                if None in v:
                    v = None
            if v is None:
                q = self.var.setdefault(("v", r.get_id()), tuple(self.rnd.getrandbits(sz) for _ in range(self.R)))
                v = q
        self.keep += [e, r]
        self.val[e.get_id()] = v
        if z3.is_bv(e):
            bits = self.bits(e, r)
            if None not in bits:
                t = tuple(bits)
                if all(x < 2 for x in t):
                    r = z3.BitVecVal(sum(x << i for i, x in enumerate(t)), sz)
                else:
                    r = self.lincls.setdefault(t, r)
                self.keep.append(r)
                self.rep[e.get_id()] = r
                self.lin[e.get_id()] = bits
                self.lin.setdefault(r.get_id(), bits)
                self.side[r.get_id()] = self.side.get(r.get_id(), 0) | self.side.get(e.get_id(), 0)
                self.val[r.get_id()] = v
                if not z3.is_bv_value(r) and sz >= 16:
                    c = self.cls.setdefault((sz, z3.is_bool(r), v), [])
                    if len(c) < 8 and not any(x.eq(r) for x in c):
                        c.append(r)
                return
        if not z3.is_bv_value(r) and (sz >= 16 or len(set(v)) == 1):
            c = self.cls.setdefault((sz, z3.is_bool(r), v), [])
            if not c and len(set(v)) == 1:
                c.append(z3.BoolVal(bool(v[0])) if z3.is_bool(r) else z3.BitVecVal(v[0], sz))        # perhaps always this value
                self.side[c[0].get_id()] = 3
                self.val[c[0].get_id()] = v
                self.keep += c
            for o in c:
                if self.same(o, r):
                    r = o
                    break
            else:
                if len(c) < 8:
                    c.append(r)
        self.rep[e.get_id()] = r
        self.side[r.get_id()] = self.side.get(r.get_id(), 0) | self.side.get(e.get_id(), 0)
        self.val[r.get_id()] = v
        if z3.is_bv(e):
            l = self.lin.get(r.get_id())
            if l is None:
                l = []
                for i, x in enumerate(bits):
                    if x is None:
                        self.nbits += 1
                        x = 1 << self.nbits
                    l.append(x)
                self.lin[r.get_id()] = l
                self.lincls.setdefault(tuple(l), r)
            self.lin[e.get_id()] = l

    def bits(self, e, r):
        """the bits of e as sums (xor) of bits of nonlinear terms: integers, bit 0 the constant 1; None where it is not linear"""
        w = self.size(e)
        if z3.is_bv_value(r):
            return [r.as_long() >> i & 1 for i in range(w)]
        if z3.is_bool(e) or e.num_args() == 0:
            return [None] * w
        k = e.decl().kind()
        ch = e.children()
        if any(not z3.is_bv(c) for c in ch):
            return [None] * w
        L = [self.lin[c.get_id()] for c in ch]
        if k == K.Z3_OP_BNOT:
            return [x ^ 1 for x in L[0]]
        if k == K.Z3_OP_BXOR:
            out = []
            for i in range(w):
                x = 0
                for l in L:
                    x ^= l[i]
                out.append(x)
            return out
        if k in (K.Z3_OP_BAND, K.Z3_OP_BOR):
            stop = 0 if k == K.Z3_OP_BAND else 1
            out = []
            for i in range(w):
                xs = {l[i] for l in L}
                xs.discard(1 - stop)
                out.append(stop if stop in xs else 1 - stop if not xs else xs.pop() if len(xs) == 1 else None)
            return out
        if k == K.Z3_OP_CONCAT:
            return [x for l in reversed(L) for x in l]
        if k == K.Z3_OP_EXTRACT:
            hi, lo = e.params()
            return L[0][lo:hi + 1]
        if k == K.Z3_OP_ZERO_EXT:
            return L[0] + [0] * (w - len(L[0]))
        if k == K.Z3_OP_SIGN_EXT:
            return L[0] + [L[0][-1]] * (w - len(L[0]))
        if k in (K.Z3_OP_BSHL, K.Z3_OP_BLSHR, K.Z3_OP_BASHR) and z3.is_bv_value(ch[1]):
            n = min(ch[1].as_long(), w)
            if k == K.Z3_OP_BSHL:
                return [0] * n + L[0][:w - n]
            return L[0][n:] + [0 if k == K.Z3_OP_BLSHR else L[0][-1]] * n
        return [None] * w

    def mark(self, e, bit):
        st = [e]
        while st:
            x = st.pop()
            if self.side.get(x.get_id(), 0) & bit:
                continue
            self.side[x.get_id()] = self.side.get(x.get_id(), 0) | bit
            if all(z3.is_bv(c) or z3.is_bool(c) for c in x.children()):
                st += x.children()

    def equal(self, a, b):
        self.mark(a, 1)
        self.mark(b, 2)
        st = [a, b]
        while st:
            x = st[-1]
            i = x.get_id()
            if i in self.rep:
                st.pop()
                continue
            ch = x.children()
            if any(not (z3.is_bv(c) or z3.is_bool(c)) for c in ch):
                ch = []
            todo = [c for c in ch if c.get_id() not in self.rep]
            if todo:
                st += todo
                continue
            if time.time() > self.end:
                return False
            self.node(x)
            st.pop()
        x, y = self.rep[a.get_id()], self.rep[b.get_id()]
        return x.eq(y) or (self.val[a.get_id()] == self.val[b.get_id()] and self.same(x, y))

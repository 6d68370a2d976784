"""exact IEEE-754 interpretation of symbolic floats"""
import itertools
import numpy as np
import z3
from fl import Fl, libm_call, from_np, from_py, pyfloat, F32, F64, RNE, RTZ, sort_of

NPT = {32: np.float32, 64: np.float64}


INF = float("inf")


def bnot(v):
    return 1 - v if type(v) is int else z3.Not(v)


def lead0(v):
    """leading bits known to be zero"""
    if z3.is_app_of(v, z3.Z3_OP_CONCAT):
        h = v.arg(0)
        if z3.is_bv_value(h) and h.as_long() == 0:
            return h.size()
    if z3.is_app_of(v, z3.Z3_OP_ZERO_EXT):
        return v.size() - v.arg(0).size()
    if z3.is_app_of(v, z3.Z3_OP_ITE):
        return min(lead0(v.arg(1)), lead0(v.arg(2)))
    if z3.is_bv_value(v):
        return min(v.size() - 1, v.size() - v.as_long().bit_length())
    return 0


def bvof(v, n):
    return z3.BitVecVal(v, n) if type(v) is int else v


class FpOps:
    def __init__(self, E):
        self.E = E
        self.bits_cache = {}
        self.sidec = {}       # side constraints (definitions): ast id -> [constraints]
        self.ufs = {}
        self.keep = []
        self.binfo = {}       # bits ast id -> (iv, ps, ast)
        self.intof = {}
        self.cmpinfo = {}     # comparison ast id -> (pred, a, b, ast)

    # -- intervals: facts that hold for every value of the inputs (never path dependent,
    # -- except through `learn`, which records them per state)
    def key(self, v):
        e = v.fp if v.fp is not None else v.b
        return e.get_id() if e is not None and type(e) is not int else None

    def ival(self, v):
        if type(v.b) is int:
            x = pyfloat(v)
            return (x, x) if x == x else None
        st = self.E.cur
        if st is not None and st.fiv:
            k = st.fiv.get(self.key(v))
            if k is not None:
                return k[0]
        return v.iv

    def psign(self, v):
        if type(v.b) is int:
            return not (v.b >> (v.w - 1))
        if v.ps:
            return True
        i = self.ival(v)
        return i is not None and i[0] > 0.0

    def nonzero_or_pos(self, v):
        """not -0.0"""
        if self.psign(v):
            return True
        i = self.ival(v)
        return i is not None and (i[1] < 0.0 or i[0] > 0.0)

    def learn(self, s, c, truth):
        """the branch condition c was decided: narrow the operands of the comparison"""
        while z3.is_not(c):
            c = c.arg(0)
            truth = not truth
        if z3.is_and(c) and truth or z3.is_or(c) and not truth:
            for k in c.children():
                self.learn(s, k, truth)
            return
        inf = self.cmpinfo.get(c.get_id())
        if inf is None:
            return
        for v in (inf[1], inf[2]):
            if type(v.b) is int:
                continue
            old = self.ival(v)
            new = self.narrow(v, old, inf, truth)
            if new is not None and new != old:
                e = v.fp if v.fp is not None else v.b
                s.fiv[e.get_id()] = (new, e)

    def narrow(self, v, old, inf, truth):
        """interval of v given that the comparison inf has this outcome"""
        p, a, b, _ = inf
        ia, ib = (old if v is a else self.ival(a)), (old if v is b else self.ival(b))
        if not truth:
            if p == "eq" or ia is None or ib is None:
                return old
            # not (a<b) == b<=a ; not (a<=b) == b<a
            a, b, ia, ib = b, a, ib, ia
        # now a < b or a <= b or a == b, ordered
        lo, hi = old if old is not None else (-INF, INF)
        if p == "eq":
            o = ib if v is a else ia
            if o is None:
                return (lo, hi)
            r = (max(lo, o[0]), min(hi, o[1]))
        elif v is a:
            r = (lo, min(hi, ib[1]) if ib is not None else hi)
        else:
            r = (max(lo, ia[0]) if ia is not None else lo, hi)
        return r if r[0] <= r[1] else old

    def rng(self, w, op, *args):
        """interval of a correctly rounded monotone operation from its endpoints"""
        T = NPT[w]
        out = []
        for c in itertools.product(*args):
            r = float(op(*[T(x) for x in c]))
            if r != r:
                return None
            out.append(r)
        return (min(out), max(out))

    def from_bits(self, v, w):
        if isinstance(v, Fl):
            return v
        if type(v) is int:
            return Fl(w, v & ((1 << w) - 1))
        r = Fl(w, v)
        i = self.binfo.get(v.get_id())
        if i is not None:
            r.iv, r.ps = i[0], i[1]
        return r

    def bits(self, v):
        """IEEE bits of a symbolic float"""
        if v.b is not None:
            return v.b
        k = v.fp.get_id()
        c = self.bits_cache.get(k)
        if c is not None:
            v.b = c[0]
            return v.b
        # a fresh bit pattern whose value is v; the NaN payload is the default one
        b = self.E.newvar("bits", v.w)
        qn = 0x7fc00000 if v.w == 32 else 0x7ff8000000000000
        self.addside(b, z3.And(z3.fpBVToFP(b, sort_of(v.w)) == v.fp,
                               z3.Implies(z3.fpIsNaN(v.fp), b == qn)))
        self.bits_cache[k] = (b, v.fp)
        v.b = b
        if v.iv is not None or v.ps:
            self.binfo[b.get_id()] = (v.iv, v.ps, b)
        return b

    def nd_bits(self, e, m):
        b = e.b
        if type(b) is int:
            return b
        v = m.eval(b, model_completion=True)
        return v.as_long()

    def nd_var(self, name):
        return Fl(32, z3.BitVec(name, 32))

    def assume_range(self, s, v, lo, hi):
        """v finite, lo <= v <= hi (0 <= lo: pure bit-vector order, no FP theory)"""
        if v.conc():
            x = pyfloat(v)
            if not (pyfloat(lo) <= x <= pyfloat(hi)):
                from engine import PathEnd
                raise PathEnd("infeasible")
            return
        l, h = lo.b, hi.b
        b = v.b
        sg = 1 << (v.w - 1)
        if not (l & sg) and not (h & sg):
            c = z3.And(z3.ULE(bvof(l, v.w), b), z3.ULE(b, bvof(h, v.w)))
        elif (l & sg) and not (h & sg):
            c = z3.Or(z3.ULE(b, bvof(h, v.w)),
                      z3.And(z3.UGE(b, bvof(sg, v.w)), z3.ULE(b, bvof(l, v.w))))
        else:
            c = z3.And(z3.UGE(b, bvof(h, v.w)), z3.ULE(b, bvof(l, v.w)))
        self.E.add_pc(s, z3.simplify(c))
        v.iv = (pyfloat(lo), pyfloat(hi))
        v.ps = not (l & sg) and not (h & sg)
        self.binfo[v.b.get_id()] = (v.iv, v.ps, v.b)

    def fpclass(self, s, x, m):
        i = self.ival(x)
        if i is not None:
            if m & 3 == m:
                return 0
            if i[0] > -INF and i[1] < INF and m & ~(3 | 4 | 512) == 0:
                return 0
        f = x.to_fp()
        neg, pos = z3.fpIsNegative(f), z3.fpIsPositive(f)
        parts = []
        if m & 3:
            parts.append(z3.fpIsNaN(f))
        for bn, bp, pr in ((4, 512, z3.fpIsInf), (8, 256, z3.fpIsNormal), (16, 128, z3.fpIsSubnormal),
                           (32, 64, z3.fpIsZero)):
            if m & bn and m & bp:
                parts.append(pr(f))
            elif m & bn:
                parts.append(z3.And(pr(f), neg))
            elif m & bp:
                parts.append(z3.And(pr(f), pos))
        r = z3.simplify(z3.Or(*parts))
        return 1 if z3.is_true(r) else 0 if z3.is_false(r) else r

    def addside(self, term, c):
        self.sidec.setdefault(term.get_id(), []).append(c)
        self.keep.append((term, c))

    def side(self, cs):
        """the definitions reachable from the constraints"""
        out = []
        if not self.sidec:
            return out
        seen = set()
        st = list(cs)
        while st:
            e = st.pop()
            i = e.get_id()
            if i in seen:
                continue
            seen.add(i)
            d = self.sidec.get(i)
            if d:
                out.extend(d)
                st.extend(d)
            st.extend(e.children())
        return out

    def mk(self, w, fp, iv=None):
        r = Fl(w, None, fp)
        r.iv = iv
        return r

    # -- operations
    def bin(self, s, op, a, b):
        w = a.w
        if a.conc() and b.conc():
            x, y = a.np(), b.np()
            if op == "fadd":
                r = x + y
            elif op == "fsub":
                r = x - y
            elif op == "fmul":
                r = x * y
            elif op == "fdiv":
                r = np.divide(x, y)
            else:
                return from_py(libm_call("fmod", w, [x, y]), w)
            return from_np(r, w)
        # exact identities
        if op == "fmul":
            for u, v in ((a, b), (b, a)):
                if u.conc() and u.b == (0x3f800000 if w == 32 else 0x3ff0000000000000):
                    return v
        if op == "fdiv" and b.conc() and b.b == (0x3f800000 if w == 32 else 0x3ff0000000000000):
            return a
        ia, ib = self.ival(a), self.ival(b)
        if op == "fmul":
            for u, v, iv in ((a, b, ib), (b, a, ia)):
                # x * +0.0 with x finite and sign bit clear
                if u.conc() and u.b == 0 and self.psign(v) and iv is not None and iv[1] < INF:
                    return u
        if op in ("fadd", "fsub"):
            nz = 1 << (w - 1)
            if b.conc() and (b.b == (nz if op == "fadd" else 0) or b.b == (0 if op == "fadd" else nz) and
                             self.nonzero_or_pos(a)) and ia is not None:
                return a
            if op == "fadd" and a.conc() and (a.b == nz or a.b == 0 and self.nonzero_or_pos(b)) and ib is not None:
                return b
        A, B = a.to_fp(), b.to_fp()
        if op in ("fadd", "fmul") and A.get_id() > B.get_id():
            A, B = B, A
        iv = None
        if ia is not None and ib is not None and op != "frem":
            if op == "fadd":
                iv = self.rng(w, np.add, ia, ib)
            elif op == "fsub":
                iv = self.rng(w, np.subtract, ia, ib)
                if a is b and iv is not None:
                    iv = (0.0, 0.0)
            elif op == "fmul":
                iv = self.rng(w, np.multiply, ia, ib)
                if iv is not None and (ia[0] <= 0 <= ia[1] and max(abs(ib[0]), abs(ib[1])) == INF or
                                       ib[0] <= 0 <= ib[1] and max(abs(ia[0]), abs(ia[1])) == INF):
                    iv = None
                if iv is not None and a is b:
                    iv = (max(0.0, iv[0]) if ia[0] <= 0 <= ia[1] else iv[0], iv[1])
            elif ib[0] > 0 or ib[1] < 0:
                if max(abs(ib[0]), abs(ib[1])) < INF:
                    iv = self.rng(w, np.divide, ia, ib)
        if op == "fadd":
            r = self.mk(w, z3.fpAdd(RNE, A, B), iv)
            r.ps = iv is not None and self.psign(a) and self.psign(b)
            return r
        if op == "fsub":
            return self.mk(w, z3.fpSub(RNE, A, B), iv)
        if op == "fmul":
            r = self.mk(w, z3.fpMul(RNE, A, B), iv)
            r.ps = iv is not None and self.psign(a) and self.psign(b)
            return r
        if op == "fdiv":
            r = self.mk(w, z3.fpDiv(RNE, A, B), iv)
            r.ps = iv is not None and self.psign(a) and self.psign(b)
            return r
        # frem: C fmod (truncated); z3's fpRem is IEEE remainder -> uninterpreted with axioms
        return self.uninterp(s, "fmod", w, [a, b])

    def neg(self, s, a):
        if type(a.b) is int:
            return Fl(a.w, a.b ^ (1 << (a.w - 1)))
        if a.b is not None and a.fp is None:
            r = Fl(a.w, a.b ^ z3.BitVecVal(1 << (a.w - 1), a.w))
        else:
            r = self.mk(a.w, z3.fpNeg(a.to_fp()))
        i = self.ival(a)
        if i is not None:
            r.iv = (-i[1], -i[0])
            if r.fp is None:
                self.binfo[r.b.get_id()] = (r.iv, False, r.b)
        return r

    def cmp(self, s, pred, a, b):
        if pred == "true":
            return 1
        if pred == "false":
            return 0
        if a.conc() and b.conc():
            x, y = a.np(), b.np()
            un = bool(np.isnan(x) or np.isnan(y))
            if pred == "ord":
                return int(not un)
            if pred == "uno":
                return int(un)
            if un:
                return 1 if pred[0] == "u" else 0
            p = pred[1:]
            return int({"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y,
                        "ge": x >= y}[p])
        ia, ib = self.ival(a), self.ival(b)
        if ia is not None and ib is not None:
            # neither is NaN: only <, and its combinations
            if pred == "ord":
                return 1
            if pred == "uno":
                return 0
            p = pred[1:]
            if p == "lt":
                return self.lt(a, b, ia, ib)
            if p == "gt":
                return self.lt(b, a, ib, ia)
            if p == "le":
                return bnot(self.lt(b, a, ib, ia))
            if p == "ge":
                return bnot(self.lt(a, b, ia, ib))
            r = self.eq(a, b, ia, ib)
            return r if p == "eq" else bnot(r)
        r = self.cmp_any(s, pred, a, b)
        if pred in ("olt", "ole", "oeq"):
            self.note(r, pred[1:], a, b)
        elif pred in ("ogt", "oge"):
            self.note(r, "lt" if pred == "ogt" else "le", b, a)
        return r

    def note(self, r, p, a, b):
        if z3.is_expr(r) and not z3.is_true(r) and not z3.is_false(r):
            inf = (p, a, b, r)
            self.cmpinfo[r.get_id()] = inf
            q = z3.simplify(r)
            if z3.is_not(q):
                q = q.arg(0)
                if p != "eq":
                    p, a, b = ("le" if p == "lt" else "lt"), b, a
                else:
                    return
            self.cmpinfo.setdefault(q.get_id(), (p, a, b, q))

    def lt(self, a, b, ia, ib):
        if ia[1] < ib[0]:
            return 1
        if ia[0] >= ib[1] or a is b:
            return 0
        if a.b is not None and b.b is not None and self.psign(a) and self.psign(b):
            r = z3.ULT(bvof(a.b, a.w), bvof(b.b, b.w))
        else:
            r = z3.fpLT(a.to_fp(), b.to_fp())
        self.note(r, "lt", a, b)
        return r

    def eq(self, a, b, ia, ib):
        if ia[1] < ib[0] or ib[1] < ia[0]:
            return 0
        if a is b or ia[0] == ia[1] == ib[0] == ib[1]:
            return 1
        if a.b is not None and b.b is not None and self.psign(a) and self.psign(b):
            r = bvof(a.b, a.w) == bvof(b.b, b.w)
        else:
            r = z3.fpEQ(a.to_fp(), b.to_fp())
        self.note(r, "eq", a, b)
        return r

    def cmp_any(self, s, pred, a, b):
        A, B = a.to_fp(), b.to_fp()
        nan = None
        if pred in ("ord", "uno") or pred[0] == "u" or pred == "one":
            ns = [z3.fpIsNaN(x.to_fp()) for x in ((a,) if a is b else (a, b)) if not x.conc()]
            for x in (a, b):
                if x.conc() and np.isnan(x.np()):
                    ns = [z3.BoolVal(True)]
            nan = z3.Or(*ns) if len(ns) > 1 else ns[0]
        if pred == "ord":
            return z3.Not(nan)
        if pred == "uno":
            return nan
        p = pred[1:]
        if p == "eq":
            r = z3.fpEQ(A, B)
        elif p == "ne":
            r = z3.Not(z3.fpEQ(A, B))
            if pred == "one":
                return z3.And(r, z3.Not(nan))
            return r  # une: true also for NaN (fpEQ false)
        elif p == "lt":
            r = z3.fpLT(A, B)
        elif p == "le":
            r = z3.fpLEQ(A, B)
        elif p == "gt":
            r = z3.fpGT(A, B)
        else:
            r = z3.fpGEQ(A, B)
        if pred[0] == "u":
            # unordered or cmp  ==  not(ordered inverse)
            inv = {"eq": None, "lt": z3.fpGEQ, "le": z3.fpGT, "gt": z3.fpLEQ, "ge": z3.fpLT}[p]
            if inv is None:
                return z3.Or(nan, r)
            return z3.Not(inv(A, B))
        return r

    def ite(self, c, a, b):
        if type(c) is int:
            return a if c else b
        if a is b or (type(a.b) is int and type(b.b) is int and a.b == b.b):
            return a
        ia, ib = self.ival(a), self.ival(b)
        cc, neg = c, False
        while z3.is_not(cc):
            cc, neg = cc.arg(0), not neg
        inf = self.cmpinfo.get(cc.get_id())
        if inf is not None:
            for k, (v, i) in enumerate(((a, ia), (b, ib))):
                if type(v.b) is int:
                    continue
                truth = (k == 0) != neg
                w_ = inf[1] if self.sameval(v, inf[1]) else inf[2] if self.sameval(v, inf[2]) else None
                if w_ is None:
                    continue
                if not truth and (self.ival(inf[1]) is None or self.ival(inf[2]) is None):
                    continue
                n = self.narrow(w_, i, inf, truth)
                if k == 0:
                    ia = n
                else:
                    ib = n
        iv = (min(ia[0], ib[0]), max(ia[1], ib[1])) if ia is not None and ib is not None else None
        ps = self.psign(a) and self.psign(b)
        if (a.fp is None and b.fp is None) or \
                (a.b is not None and b.b is not None):
            r = Fl(a.w, z3.If(c, bvof(a.b, a.w), bvof(b.b, b.w)))
            if iv is not None or ps:
                self.binfo[r.b.get_id()] = (iv, ps, r.b)
        else:
            r = self.mk(a.w, z3.If(c, a.to_fp(), b.to_fp()))
        r.iv, r.ps = iv, ps
        return r

    def sameval(self, a, b):
        if a is b:
            return True
        if a.fp is not None and b.fp is not None:
            return a.fp.eq(b.fp)
        return z3.is_expr(a.b) and z3.is_expr(b.b) and a.b.eq(b.b)

    def fconv(self, s, v, w):
        if v.w == w:
            return v
        if v.conc():
            return from_np(NPT[w](v.np()), w)
        i = self.ival(v)
        iv = None
        if i is not None:
            iv = (float(NPT[w](i[0])), float(NPT[w](i[1])))
        r = self.mk(w, z3.fpFPToFP(RNE, v.to_fp(), sort_of(w)), iv)
        r.ps = self.psign(v) and iv is not None
        return r

    def from_int(self, s, v, n, signed, w):
        if type(v) is int:
            if signed and v >> (n - 1):
                v -= 1 << n
            # numpy converts python ints exactly rounded for float64; for float32 avoid double rounding
            if w == 32:
                if abs(v) < (1 << 53):
                    return from_np(np.float32(v), 32)
                return Fl(32, z3.simplify(z3.fpToIEEEBV(z3.fpToFP(RNE, z3.RealVal(v), F32))).as_long())
            return from_np(np.float64(v), 64)
        if isinstance(v, z3.BoolRef):
            v = z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
            signed = False
        T = NPT[w]
        lz = lead0(v)
        if signed and lz == 0:
            iv = (float(T(-float(1 << (n - 1)))), float(T(float(1 << (n - 1)))))
            return self.mk(w, z3.fpSignedToFP(RNE, v, sort_of(w)), iv)
        top = (1 << (v.size() - lz)) - 1
        r = self.mk(w, z3.fpUnsignedToFP(RNE, z3.simplify(z3.Extract(v.size() - lz - 1, 0, v)) if lz else v,
                                         sort_of(w)), (0.0, float(T(float(top)))))
        r.ps = True
        return r

    def to_int(self, s, v, n, signed, sat):
        lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, (1 << n) - 1)
        if v.conc():
            x = float(v.np())
            if x != x:
                r = 0
            elif x <= lo:
                r = lo
            elif x >= hi:
                r = hi
            else:
                r = int(x)
            return r & ((1 << n) - 1)
        f = v.to_fp()
        so = sort_of(v.w)
        m = max(n, 32) + 2 if sat else n

        def val(k):
            return z3.BitVecVal(k & ((1 << n) - 1), n)
        conv = z3.fpToSBV(RTZ, f, z3.BitVecSort(n)) if signed else z3.fpToUBV(RTZ, f, z3.BitVecSort(n))
        if not sat:
            return conv
        i = self.ival(v)
        if i is not None and i[0] >= float(lo) and i[1] < float(hi + 1):
            return conv
        # saturating: thresholds lo and 2^k are exactly representable
        top = float(hi + 1)
        r = z3.If(z3.fpIsNaN(f), val(0),
                  z3.If(z3.fpLT(f, z3.FPVal(float(lo), so)), val(lo),
                        z3.If(z3.fpGEQ(f, z3.FPVal(top, so)), val(hi), conv)))
        return r

    def unary(self, s, name, a):
        w = a.w
        if name == "fabs":
            if type(a.b) is int:
                return Fl(w, a.b & ((1 << (w - 1)) - 1))
            if a.b is not None and a.fp is None:
                r = Fl(w, a.b & z3.BitVecVal((1 << (w - 1)) - 1, w))
            else:
                r = self.mk(w, z3.fpAbs(a.to_fp()))
            r.ps = True
            i = self.ival(a)
            if i is not None:
                if self.psign(a):
                    return a
                r.iv = (0.0 if i[0] <= 0 <= i[1] else min(abs(i[0]), abs(i[1])), max(abs(i[0]), abs(i[1])))
            if r.fp is None:
                self.binfo[r.b.get_id()] = (r.iv, True, r.b)
            return r
        if a.conc():
            x = a.np()
            fn = {"sqrt": np.sqrt, "floor": np.floor, "ceil": np.ceil, "trunc": np.trunc,
                  "rint": np.rint, "nearbyint": np.rint, "roundeven": np.rint}.get(name)
            if fn is not None:
                return from_np(fn(x), w)
            return from_py(libm_call(name, w, [x]), w)
        f = a.to_fp()
        i = self.ival(a)
        if name == "sqrt":
            r = self.mk(w, z3.fpSqrt(RNE, f), self.rng(w, np.sqrt, i) if i is not None and i[0] >= 0 else None)
            r.ps = r.iv is not None and self.psign(a)
            return r
        rm = {"floor": z3.RTN(), "ceil": z3.RTP(), "trunc": RTZ, "rint": RNE, "nearbyint": RNE,
              "roundeven": RNE, "round": z3.RNA()}.get(name)
        if rm is not None:
            iv = None
            if i is not None:
                iv = (float(np.floor(i[0])), float(np.ceil(i[1])))
                if name == "floor":
                    iv = (iv[0], float(np.floor(i[1])))
                elif name == "ceil":
                    iv = (float(np.ceil(i[0])), iv[1])
            r = self.mk(w, z3.fpRoundToIntegral(rm, f), iv)
            r.ps = iv is not None and self.psign(a)
            return r
        return self.uninterp(s, name, w, [a])

    def minmax(self, s, name, a, b):
        w = a.w
        ismax = "max" in name
        prop = name in ("minimum", "maximum")   # propagates NaN
        if a.conc() and b.conc():
            x, y = a.np(), b.np()
            if np.isnan(x):
                return a if prop else b
            if np.isnan(y):
                return b if prop else a
            if x == y:
                # order zeros: -0 < +0
                if x == 0:
                    neg = a if (a.b >> (w - 1)) else b
                    pos = b if (a.b >> (w - 1)) else a
                    return pos if ismax else neg
                return a
            return a if (x > y) == ismax else b
        ia, ib = self.ival(a), self.ival(b)
        if ia is not None and ib is not None:
            # no NaN; equal values (also -0/+0, whose order the standard leaves open) give the first
            if ismax:
                r = self.ite(self.lt(a, b, ia, ib), b, a)
            else:
                r = self.ite(self.lt(b, a, ib, ia), b, a)
            return r
        A, B = a.to_fp(), b.to_fp()
        c = z3.fpGT(A, B) if ismax else z3.fpLT(A, B)
        na = z3.fpIsNaN(A) if not a.conc() else z3.BoolVal(bool(np.isnan(a.np())))
        nb = z3.fpIsNaN(B) if not b.conc() else z3.BoolVal(bool(np.isnan(b.np())))
        if prop:
            r = z3.If(na, A, z3.If(nb, B, z3.If(c, A, B)))
        else:
            r = z3.If(na, B, z3.If(nb, A, z3.If(c, A, B)))
        # the non-propagating forms return the other operand when one is NaN
        iv = None
        if not prop:
            k = ia if ia is not None else ib
            if k is not None:
                # max(x, k) with x possibly NaN
                iv = (k[0], INF) if ismax else (-INF, k[1])
        return self.mk(w, z3.simplify(r), iv)

    def copysign(self, s, a, b):
        w = a.w
        x, y = self.bits(a), self.bits(b)
        m = (1 << (w - 1)) - 1
        if type(x) is int and type(y) is int:
            return Fl(w, (x & m) | (y & ~m & ((1 << w) - 1)))
        return Fl(w, (bvof(x, w) & z3.BitVecVal(m, w)) | (bvof(y, w) & z3.BitVecVal(1 << (w - 1), w)))

    def fma(self, s, a, b, c, fused):
        if not fused:
            return self.bin(s, "fadd", self.bin(s, "fmul", a, b), c)
        if a.conc() and b.conc() and c.conc():
            return from_py(libm_call("fma", a.w, [a.np(), b.np(), c.np()]), a.w)
        return self.mk(a.w, z3.fpFMA(RNE, a.to_fp(), b.to_fp(), c.to_fp()))

    def libm(self, s, name, args):
        w = args[0].w
        if all(a.conc() for a in args):
            return from_py(libm_call(name, w, [a.np() for a in args]), w)
        return self.uninterp(s, name, w, args)

    def uninterp(self, s, name, w, args):
        """a transcendental library function: an uninterpreted function over the
        argument bits, constrained only by the axioms listed in axioms.py"""
        import axioms
        E = self.E
        fk = (name, w, len(args))
        u = self.ufs.get(fk)
        so = z3.BitVecSort(w)
        if u is None:
            u = self.ufs[fk] = (z3.Function("uf_%s_%d" % (name, w), *([so] * len(args) + [so])), [])
        abits = [bvof(self.bits(a), w) for a in args]
        res = Fl(w, u[0](*abits))
        for a in u[1]:
            if all(x.eq(y) for x, y in zip(a[0], abits)):
                return a[1]
        E.assumptions.add("libm %s is modelled by axioms (see lsx/axioms.py)" % name)
        ax = axioms.fp_axioms(name, w, args, res, u[1])
        for c in ax:
            self.addside(res.b, c)
        u[1].append((abits, res, args))
        return res

"""Real-arithmetic interpretation of symbolic floats.

rnd=False: rounding is left out (every operation is the exact real operation).
rnd=True:  every operation's result is the exact result plus an error term of at most half an
           ulp of the largest magnitude its interval allows (sound: round to nearest even; the
           intervals exclude overflow).
Concrete floats keep their exact value; operations on concrete floats are computed exactly as the
machine does."""
import math
from fractions import Fraction
import numpy as np
import z3
from fl import Fl, from_np, pyfloat, libm_call, from_py
from fpops import FpOps, INF, bnot, NPT


def eng():
    import engine
    return engine


class RealOps(FpOps):
    def __init__(self, E):
        super().__init__(E)
        self.rnd = E.o.get("rnd", False)
        self.merge = E.o.get("merge", False)
        self.powers = []
        self.roots = {}
        self.exps = []
        self.ints = E.o.get("ints", False)
        self.intof = {}       # bit-vector term id -> (integer term, lo, hi, the bit-vector)
        self.floors = {}      # real term id -> (integer term, the real)

    # -- integers that take part in real arithmetic (option ints): an integer term stands for the
    # -- unsigned value of a bit-vector; the two are tied together where the bit-vector itself occurs
    def int_of(self, v):
        """(integer term, least, greatest value) of a bit-vector, or None"""
        if type(v) is int:
            return z3.IntVal(v), v, v
        r = self.intof.get(v.get_id())
        if r is not None:
            return r[:3]
        r = self.int_of_(v)
        if r is not None:
            self.intof[v.get_id()] = r + (v,)
        return r

    def int_of_(self, v):
        n = v.size()
        if z3.is_bv_value(v):
            x = v.as_long()
            return z3.IntVal(x), x, x
        k = v.decl().kind()
        if k == z3.Z3_OP_UNINTERPRETED and v.num_args() == 0:
            i = z3.Int(v.decl().name() + "!i")
            hi = (1 << n) - 1
            self.addside(i, z3.And(i >= 0, i <= hi))
            self.tie(v, i)
            return i, 0, hi
        if k == z3.Z3_OP_CONCAT:
            e, lo, hi = z3.IntVal(0), 0, 0
            for c in v.children():
                r = self.int_of(c)
                if r is None:
                    return None
                m = 1 << c.size()
                e, lo, hi = e * m + r[0], lo * m + r[1], hi * m + r[2]
            return z3.simplify(e), lo, hi
        if k == z3.Z3_OP_ZERO_EXT:
            return self.int_of(v.arg(0))
        if k == z3.Z3_OP_BOR:
            cs = [c for c in v.children() if not (z3.is_bv_value(c) and c.as_long() == 0)]
            return self.int_of(cs[0]) if len(cs) == 1 else None
        if k == z3.Z3_OP_EXTRACT:
            h, l = v.params()
            if v.arg(0).decl().kind() == z3.Z3_OP_BOR:
                cs = [z3.simplify(z3.Extract(h, l, c)) for c in v.arg(0).children()]
                cs = [c for c in cs if not (z3.is_bv_value(c) and c.as_long() == 0)]
                if len(cs) < 2:
                    return self.int_of(cs[0]) if cs else (z3.IntVal(0), 0, 0)
            r = self.int_of(v.arg(0))
            if r is None:
                return None
            e, lo, hi = r
            if l:
                e, lo, hi = e / (1 << l), lo >> l, hi >> l
            if hi >> (h - l + 1):
                e, lo, hi = e % (1 << (h - l + 1)), 0, (1 << (h - l + 1)) - 1
            return z3.simplify(e), lo, hi
        if k == z3.Z3_OP_ITE:
            a, b = self.int_of(v.arg(1)), self.int_of(v.arg(2))
            if a is None or b is None:
                return None
            return z3.If(v.arg(0), a[0], b[0]), min(a[1], b[1]), max(a[2], b[2])
        if k in (z3.Z3_OP_BADD, z3.Z3_OP_BMUL):
            rs = [self.int_of(c) for c in v.children()]
            if any(r is None for r in rs):
                return None
            e, lo, hi = rs[0]
            for r in rs[1:]:
                if k == z3.Z3_OP_BADD:
                    e, lo, hi = e + r[0], lo + r[1], hi + r[2]
                else:
                    e, lo, hi = e * r[0], lo * r[1], hi * r[2]
            return (z3.simplify(e), lo, hi) if not hi >> n else None
        return None

    def tie(self, v, i):
        n = v.size()
        self.addside(v, i == z3.Sum([z3.If(z3.Extract(b, b, v) == 1, z3.IntVal(1 << b), z3.IntVal(0)) for b in range(n)]))

    def icmp(self, pred, a, b):
        """comparison of bit-vectors of which one is known as an integer; None: not so"""
        for u in (a, b):
            if type(u) is not int and u.get_id() in self.intof:
                break
        else:
            return None
        if pred[0] == "s":
            return None
        ra, rb = self.int_of(a), self.int_of(b)
        if ra is None or rb is None:
            return None
        A, B = ra[0], rb[0]
        r = {"eq": lambda: A == B, "ne": lambda: A != B, "ult": lambda: A < B, "ule": lambda: A <= B,
             "ugt": lambda: A > B, "uge": lambda: A >= B}[pred]()
        return eng().simp(r)

    def new_int(self, n, e, lo, hi):
        """a bit-vector of n bits with the value of the integer term e in lo..hi"""
        if lo == hi:
            return lo & ((1 << n) - 1)
        k = n if lo < 0 else min(n, hi.bit_length())
        v = self.E.newvar("int", k)
        if lo < 0:
            u = z3.If(e < 0, e + (1 << n), e)
            self.tie(v, u)
        else:
            self.intof[v.get_id()] = (e, lo, hi, v)
            self.tie(v, e)
        if k < n:
            w = z3.simplify(z3.ZeroExt(n - k, v))
            self.intof[w.get_id()] = (e, lo, hi, w)
            return w
        return v

    def floor_int(self, v):
        """(integer term, lo, hi): the largest integer that is not above v"""
        a = self.R(v)
        i = self.ival(v)
        if i is None or not (abs(i[0]) < 2**60 and abs(i[1]) < 2**60):
            raise eng().EngineError("real mode: float without bounds to integer")
        lo, hi = math.floor(i[0]), math.floor(i[1])
        if lo == hi:
            return z3.IntVal(lo), lo, hi
        r = self.floors.get(a.get_id())
        if r is None:
            self.E.fresh += 1
            k = z3.Int("floor!%d" % self.E.fresh)
            kr = z3.ToReal(k)
            self.addside(k, z3.And(kr <= a, a < kr + 1))
            r = self.floors[a.get_id()] = (k, a)
        return r[0], lo, hi

    def whole(self, s, name, v):
        """floor, ceil, trunc, round as (integer term, lo, hi)"""
        if name == "floor":
            return self.floor_int(v)
        i = self.ival(v)
        if i is None:
            raise eng().EngineError("real mode: float without bounds to integer")
        m = self.mk(v.w, z3.simplify(-self.R(v)), (-i[1], -i[0]))
        if name == "ceil":
            e, lo, hi = self.floor_int(m)
            return z3.simplify(-e), -hi, -lo
        if name == "round":
            up = self.mk(v.w, z3.simplify(self.R(v) + self.rv(.5)), (i[0] + .5, i[1] + .5))
            if i[0] >= 0:
                return self.floor_int(up)
            dn = self.mk(v.w, z3.simplify(self.rv(.5) - self.R(v)), (.5 - i[1], .5 - i[0]))
            a, b = self.floor_int(up), self.floor_int(dn)
        else:
            if i[0] > -1:
                a = self.floor_int(v)
                if a[1] >= 0:
                    return a
                return z3.If(a[0] < 0, z3.IntVal(0), a[0]), 0, max(0, a[2])
            a, b = self.floor_int(v), self.floor_int(m)
        if i[1] < 0:
            return z3.simplify(-b[0]), -b[2], -b[1]
        return z3.If(self.R(v) >= 0, a[0], -b[0]), min(0, -b[2]), max(0, a[2])

    def int_real(self, w, t):
        e, lo, hi = t
        if lo == hi:
            return from_py(float(lo), w)
        m = max(abs(lo), abs(hi))
        return self.out(w, z3.simplify(z3.ToReal(e)), (float(lo), float(hi)), m <= 1 << (24 if w == 32 else 53))

    # -- representation: the real expression lives in Fl.fp
    def R(self, v):
        if type(v.b) is int:
            x = pyfloat(v)
            if x != x or abs(x) == INF:
                return self.nonfinite(x)
            f = Fraction(x)
            return z3.RealVal("%d/%d" % (f.numerator, f.denominator))
        if v.fp is None:
            raise eng().EngineError("real mode: a float made from bits is used in arithmetic")
        return v.fp

    def nonfinite(self, x):
        """NaN or infinity in arithmetic on this path: only the real code can tell what follows"""
        s = self.E.cur
        if self.E.spec:
            raise eng().Abort()
        if s is None:
            raise eng().EngineError("real mode: non-finite constant in arithmetic")
        cs, _ = self.E.goal(s, None)
        r, m = self.E.solve_hard(cs)
        if r == "sat":
            self.E.candidate(s, "check", "NaN" if x != x else "infinity", m)
        elif r != "unsat":
            self.E.undecided.append("real mode: NaN or infinity not excluded")
        raise eng().PathEnd("nonfinite")

    def bits(self, v):
        if type(v.b) is int:
            return v.b
        if v.fp is None:
            return v.b
        raise eng().EngineError("real mode: bits of a symbolic float")

    def nd_var(self, name):
        return Fl(32, None, z3.Real(name))

    def assume_range(self, s, v, lo, hi):
        self.E.add_pc(s, z3.And(v.fp >= self.R(lo), v.fp <= self.R(hi)))
        v.iv = (pyfloat(lo), pyfloat(hi))
        # the Fl object is shared by the state; remember the interval by its term
        self.binfo[v.fp.get_id()] = (v.iv, False, v.fp)

    def nd_bits(self, e, m):
        if type(e.b) is int:
            return e.b
        r = m.eval(e.fp, model_completion=True)
        if z3.is_algebraic_value(r):
            r = r.approx(20)
        f = Fraction(r.numerator_as_long(), r.denominator_as_long())
        x = np.float32(float(f))
        if e.iv is not None:
            x = min(max(x, np.float32(e.iv[0])), np.float32(e.iv[1]))
        return int(np.array([x], dtype=np.float32).view(np.uint32)[0])

    def rng(self, w, op, *args):
        import itertools
        out = []
        with np.errstate(all="ignore"):
            for c in itertools.product(*args):
                r = float(op(*[np.float64(x) for x in c]))
                if r != r:
                    return None
                out.append(r)
        lo, hi = min(out), max(out)
        if self.rnd:
            e = max(abs(lo), abs(hi)) * 2.0 ** (-23 if w == 32 else -52)
            lo, hi = lo - e, hi + e
        return (float(np.nextafter(lo, -INF)) if lo != int(lo if abs(lo) < 1e15 else 0) else lo,
                float(np.nextafter(hi, INF)) if hi != int(hi if abs(hi) < 1e15 else 0) else hi)

    def out(self, w, e, iv, exact=False):
        """a computed value"""
        if self.rnd and not exact:
            if iv is None:
                raise eng().EngineError("real mode: rounding of a value without an interval")
            m = max(abs(iv[0]), abs(iv[1]))
            if m > 0:
                h = Fraction(2) ** ((-25 if w == 32 else -54) + math.frexp(m)[1])
                d = self.E.newreal("rnd")
                hv = z3.RealVal("%d/%d" % (h.numerator, h.denominator))
                self.addside(d, z3.And(d <= hv, d >= -hv))
                e = e + d
        return self.mk(w, z3.simplify(e), iv)

    def bin(self, s, op, a, b):
        w = a.w
        if a.conc() and b.conc():
            return super().bin(s, op, a, b)
        if op == "frem":
            return self.rem(s, a, b)
        for u in (a, b):
            if u.conc() and not abs(pyfloat(u)) < INF:
                return self.nonfin(s, op, a, b)
        one = 0x3f800000 if w == 32 else 0x3ff0000000000000
        if op == "fmul":
            for u, v in ((a, b), (b, a)):
                if u.conc() and u.b == one:
                    return v
                if u.conc() and u.b == 0:
                    return u
        if op == "fdiv" and b.conc() and b.b == one:
            return a
        z = (0, 1 << (w - 1))
        if op in ("fadd", "fsub") and b.conc() and b.b in z:
            return a
        if op == "fadd" and a.conc() and a.b in z:
            return b
        ia, ib = self.ival(a), self.ival(b)
        A, B = self.R(a), self.R(b)
        iv = None
        exact = False
        if op == "fadd":
            iv = self.rng(w, np.add, ia, ib) if ia and ib else None
            return self.out(w, A + B, iv)
        if op == "fsub":
            if a is b:
                return from_py(0.0, w)
            iv = self.rng(w, np.subtract, ia, ib) if ia and ib else None
            return self.out(w, A - B, iv)
        if op == "fmul":
            if ia and ib:
                iv = self.rng(w, np.multiply, ia, ib)
                if iv and a is b and ia[0] <= 0 <= ia[1]:
                    iv = (0.0, iv[1])
            exact = any(u.conc() and math.frexp(abs(pyfloat(u)))[0] == 0.5 for u in (a, b))
            return self.out(w, A * B, iv, exact)
        # division
        if not (ib and (ib[0] > 0 or ib[1] < 0)):
            z0 = B == 0
            # a zero divisor is a case of its own: infinity or NaN
            if self.E.fork_bool(s, z0):
                return self.byzero(s, a)
        if ia and ib and (ib[0] > 0 or ib[1] < 0):
            iv = self.rng(w, np.divide, ia, ib)
        if b.conc():
            exact = math.frexp(abs(pyfloat(b)))[0] == 0.5
            f = Fraction(pyfloat(b))
            return self.out(w, A * z3.RealVal("%d/%d" % (f.denominator, f.numerator)), iv, exact)
        # q = A/B  <=>  q*B = A
        k = (A.get_id(), B.get_id())
        q = self.roots.get(k)
        if q is None:
            v = self.E.newreal("quot")
            self.addside(v, z3.And(v * B == A, B != 0))
            if iv is not None:
                self.addside(v, z3.And(v >= self.rv(iv[0]), v <= self.rv(iv[1])))
            q = self.roots[k] = (v, A, B)
        return self.out(w, q[0], iv)

    def sign(self, s, v):
        """-1, 0 or 1, by case split"""
        i = self.ival(v)
        if i and i[0] > 0:
            return 1
        if i and i[1] < 0:
            return -1
        A = self.R(v)
        if self.E.fork_bool(s, A > 0):
            return 1
        return 0 if self.E.fork_bool(s, A == 0) else -1

    def nonfin(self, s, op, a, b):
        """IEEE arithmetic of a finite symbolic value with an infinity or a NaN"""
        w = a.w
        nan = Fl(w, 0x7fc00000 if w == 32 else 0x7ff8000000000000)
        inf = lambda neg: from_py(-INF if neg else INF, w)
        x, y = (pyfloat(v) if v.conc() else None for v in (a, b))
        if (x is not None and x != x) or (y is not None and y != y):
            return nan
        if op == "fadd":
            return a if x is not None else b
        if op == "fsub":
            return a if x is not None else inf(y > 0)
        if op == "fdiv" and y is not None:
            return from_py(0.0, w)          # finite / infinity (the zero's sign is lost)
        o, f = (b, x) if x is not None else (a, y)
        g = self.sign(s, o)
        if op == "fdiv":
            return inf((f < 0) != (g < 0))
        return nan if g == 0 else inf((f < 0) != (g < 0))

    def byzero(self, s, a):
        """a / +0"""
        nan = Fl(a.w, 0x7fc00000 if a.w == 32 else 0x7ff8000000000000)
        if a.conc():
            x = pyfloat(a)
            return nan if x == 0 or x != x else from_py(math.copysign(INF, x), a.w)
        g = self.sign(s, a)
        return nan if g == 0 else from_py(INF if g > 0 else -INF, a.w)

    def rem(self, s, a, b):
        """x % y, y a positive constant: x - k*y, k the truncated quotient"""
        if not b.conc() or not 0 < pyfloat(b) < INF:
            raise eng().EngineError("real mode: remainder")
        y = self.R(b)
        q = self.mk(a.w, z3.simplify(self.R(a) / y))
        i = self.ival(a)
        q.iv = (i[0] / pyfloat(b) - 1e-9, i[1] / pyfloat(b) + 1e-9) if i else None
        k = self.floor_fork(s, q, 0, 0)
        if k < 0 and not self.E.fork_bool(s, self.R(q) == k):
            k += 1
        m = pyfloat(b)
        iv = (0.0, m) if k >= 0 and (i[0] >= 0 or k > 0) else (-m, m)
        r = self.mk(a.w, z3.simplify(self.R(a) - k * y), iv)
        return r

    def rv(self, x):
        f = Fraction(x)
        return z3.RealVal("%d/%d" % (f.numerator, f.denominator))

    def neg(self, s, a):
        if type(a.b) is int:
            return Fl(a.w, a.b ^ (1 << (a.w - 1)))
        i = self.ival(a)
        return self.mk(a.w, -self.R(a), (-i[1], -i[0]) if i else None)

    def lt(self, a, b, ia, ib):
        if ia and ib:
            if ia[1] < ib[0]:
                return 1
            if ia[0] >= ib[1]:
                return 0
        if a is b:
            return 0
        r = eng().simp(self.R(a) < self.R(b))
        if type(r) is not int:
            self.note(r, "lt", a, b)
        return r

    def note(self, r, p, a, b):
        neg = False
        while z3.is_not(r):
            r, neg = r.arg(0), not neg
        if neg:
            if p == "eq":
                return
            p, a, b = ("le" if p == "lt" else "lt"), b, a
        self.cmpinfo.setdefault(r.get_id(), (p, a, b, r))

    def eq(self, a, b, ia, ib):
        if ia and ib and (ia[1] < ib[0] or ib[1] < ia[0]):
            return 0
        if a is b:
            return 1
        r = eng().simp(self.R(a) == self.R(b))
        if type(r) is not int:
            self.note(r, "eq", a, b)
        return r

    def cmp(self, s, pred, a, b):
        if pred in ("true", "false") or a.conc() and b.conc():
            return super().cmp(s, pred, a, b)
        for u, v in ((a, b), (b, a)):
            if u.conc():
                x = pyfloat(u)
                if x != x:
                    return 0 if pred[0] == "o" else 1
                if abs(x) == INF:
                    # every symbolic value is finite
                    t = {"lt": x > 0, "le": x > 0, "gt": x < 0, "ge": x < 0, "eq": False, "ne": True}
                    p = pred[1:]
                    if pred == "ord":
                        return 1
                    if pred == "uno":
                        return 0
                    if u is a:
                        p = {"lt": "gt", "le": "ge", "gt": "lt", "ge": "le"}.get(p, p)
                    return int(t[p])
        if pred == "ord":
            return 1
        if pred == "uno":
            return 0
        ia, ib = self.ival(a), self.ival(b)
        p = pred[1:]
        if p == "lt":
            return self.lt(a, b, ia, ib)
        if p == "gt":
            return self.lt(b, a, ib, ia)
        if p == "le":
            return bnot(self.lt(b, a, ib, ia))
        if p == "ge":
            return bnot(self.lt(a, b, ia, ib))
        r = self.eq(a, b, ia, ib)
        return r if p == "eq" else bnot(r)

    def fpclass(self, s, x, m):
        if x.conc():
            return super().fpclass(s, x, m)
        if m & ~(3 | 4 | 512) == 0:
            return 0
        raise eng().EngineError("real mode: is_fpclass")

    def ite(self, c, a, b):
        if type(c) is int:
            return a if c else b
        if a is b or (type(a.b) is int and type(b.b) is int and a.b == b.b):
            return a
        if (a.fp is None and not a.conc()) or (b.fp is None and not b.conc()):
            return super().ite(c, a, b)
        inf = lambda v: v.conc() and not abs(pyfloat(v)) < INF
        if self.merge and not inf(a) and not inf(b):
            # the arms' intervals may hold only on this path; the value lives on that path too
            ia, ib = self.given(a, c, True), self.given(b, c, False)
            iv = (min(ia[0], ib[0]), max(ia[1], ib[1])) if ia and ib else None
            return self.mk(a.w, z3.If(c, self.R(a), self.R(b)), iv)
        if not inf(a) and not inf(b):
            # decide it: the formulas stay polynomial on each path
            return a if self.E.fork_bool(self.E.cur, c) else b
        return a if self.E.fork_bool(self.E.cur, c) else b

    def given(self, v, c, truth):
        """interval of v where the condition c has this truth value"""
        i = self.ival(v)
        while z3.is_not(c):
            c, truth = c.arg(0), not truth
        inf = self.cmpinfo.get(c.get_id())
        if inf is None or v.conc():
            return i
        _, a, b, _ = inf
        for u in (a, b):
            if u is v or (u.fp is not None and v.fp is not None and u.fp.eq(v.fp)):
                return self.narrow(u, i, inf, truth)
        return i

    def fconv(self, s, v, w):
        if v.w == w or v.conc():
            return super().fconv(s, v, w)
        return self.out(w, self.R(v), self.ival(v), exact=w > v.w)

    def from_int(self, s, v, n, signed, w):
        if type(v) is int:
            return super().from_int(s, v, n, signed, w)
        if self.ints:
            r = self.int_of(v)
            if r is not None and (not signed or not r[2] >> (n - 1)):
                return self.int_real(w, r)
        x = self.E.conc(s, v, "real mode: int to float")
        return super().from_int(s, x, n, signed, w)

    def floor_fork(self, s, v, lo, hi):
        """the integer k with k <= v < k+1, by case split"""
        a = self.R(v)
        i = self.ival(v)
        key = ("floor", a.get_id())
        if key in s.pins:
            return s.pins[key][0]
        alts = []
        if i is None or i[1] - i[0] > 20:
            # ask the solver for the possible values
            ks = []
            seen = []
            while True:
                r, m = self.E.query(s, z3.And(*seen) if seen else z3.BoolVal(True))
                if r == "unsat":
                    break
                if r != "sat" or len(ks) >= 64:
                    raise eng().EngineError("real mode: unbounded float to int")
                v = m.eval(a, model_completion=True)
                if z3.is_algebraic_value(v):
                    v = v.approx(30)
                k = v.numerator_as_long() // v.denominator_as_long()
                ks.append(k)
                seen.append(z3.Or(a < k, a >= k + 1))
            ks.sort()
        else:
            ks = range(int(math.floor(i[0])), int(math.floor(i[1])) + 1)
        for k in ks:
            c = z3.And(a >= k, a < k + 1)
            ok, m = self.E.feasible(s, c)
            if ok:
                alts.append((c, (key, k, a), m))
        if not alts:
            raise eng().PathEnd("infeasible")
        raise eng().Fork(alts)

    def to_int(self, s, v, n, signed, sat):
        if v.conc():
            return super().to_int(s, v, n, signed, sat)
        if self.ints:
            e, a, b = self.whole(s, "trunc", v)
            lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, (1 << n) - 1)
            if a < lo:
                e, a = z3.If(e < lo, z3.IntVal(lo), e), lo
            if b > hi:
                e, b = z3.If(e > hi, z3.IntVal(hi), e), hi
            return self.new_int(n, e, min(a, hi), max(b, lo))
        k = self.floor_fork(s, v, 0, 0)
        if k < 0:
            # truncation toward zero
            a = self.R(v)
            k = k if self.E.fork_bool(s, a == k) else k + 1
        lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, (1 << n) - 1)
        return max(lo, min(hi, k)) & ((1 << n) - 1)

    def unary(self, s, name, a):
        if a.conc():
            return super().unary(s, name, a)
        w = a.w
        i = self.ival(a)
        A = self.R(a)
        if name == "fabs":
            if i and i[0] >= 0:
                return a
            neg = self.lt(a, from_py(0.0, w), i, (0.0, 0.0))
            if self.merge and type(neg) is not int:
                return self.mk(w, z3.If(neg, -A, A), (0.0, max(-i[0], i[1])) if i else None)
            return self.neg(s, a) if self.E.fork_bool(s, neg) else a
        if name == "sqrt":
            return self.root(w, a, 2)
        if self.ints and name in ("floor", "ceil", "trunc", "round"):
            return self.int_real(w, self.whole(s, name, a))
        if name in ("floor", "ceil", "trunc"):
            k = self.floor_fork(s, a, 0, 0)
            if name != "floor" and not self.E.fork_bool(s, A == k):
                if name == "ceil" or k < 0:
                    k += 1
            return from_py(float(k), w)
        if name == "round":
            h = self.mk(w, A + z3.RealVal("1/2"), (i[0] + .5, i[1] + .5) if i else None)
            if i and i[0] >= 0:
                return from_py(float(self.floor_fork(s, h, 0, 0)), w)
            if self.E.fork_bool(s, A >= 0):
                return from_py(float(self.floor_fork(s, h, 0, 0)), w)
            h = self.mk(w, z3.RealVal("1/2") - A, (.5 - i[1], .5 - i[0]) if i else None)
            return from_py(-float(self.floor_fork(s, h, 0, 0)), w)
        raise eng().EngineError("real mode: " + name)

    def root(self, w, a, n):
        A = self.R(a)
        k = ("root", n, A.get_id())
        i = self.ival(a)
        if not i or i[0] < 0:
            i = (0.0, i[1] if i else INF)
            # a negative radicand would be NaN: only on paths that exclude it
        r = self.roots.get(k)
        if r is None:
            v = self.E.newreal("root")
            e = v
            for _ in range(n - 1):
                e = e * v
            self.addside(v, z3.And(v >= 0, e == A))
            r = self.roots[k] = (v, A)
        iv = None
        if i[1] < INF:
            iv = (max(0.0, i[0] ** (1.0 / n) * (1 - 1e-12)), i[1] ** (1.0 / n) * (1 + 1e-12))
        return self.out(w, r[0], iv)

    def minmax(self, s, name, a, b):
        if a.conc() and b.conc():
            return super().minmax(s, name, a, b)
        for u, v in ((a, b), (b, a)):
            if u.conc():
                x = pyfloat(u)
                if x != x:
                    return v if "imum" not in name else u
                if abs(x) == INF:
                    return u if (x > 0) == ("max" in name) else v
        ia, ib = self.ival(a), self.ival(b)
        if "max" in name:
            c = self.cmp(s, "olt", a, b)
        else:
            c = self.cmp(s, "ogt", a, b)
        if self.merge and type(c) is not int:
            iv = None
            f = max if "max" in name else min
            if ia and ib:
                iv = (f(ia[0], ib[0]), f(ia[1], ib[1]))
            return self.mk(a.w, z3.If(c, self.R(b), self.R(a)), iv)
        return b if (c if type(c) is int else self.E.fork_bool(s, c)) else a

    def copysign(self, s, a, b):
        raise eng().EngineError("real mode: copysign")

    def fma(self, s, a, b, c, fused):
        if a.conc() and b.conc() and c.conc():
            return super().fma(s, a, b, c, fused)
        return self.bin(s, "fadd", self.bin(s, "fmul", a, b), c)

    def libm(self, s, name, args):
        if all(a.conc() for a in args):
            return super().libm(s, name, args)
        return self.uninterp(s, name, args[0].w, args)

    def uninterp(self, s, name, w, args):
        for a in args:
            if a.conc() and not abs(pyfloat(a)) < INF:
                # NaN in, NaN out (pow(1, NaN) and the limits at infinity: not modelled)
                if pyfloat(a) != pyfloat(a) and name != "pow":
                    return a
                raise eng().EngineError("real mode: %s of a non-finite value" % name)
        if name == "tanh":
            return self.tanh(w, args[0])
        if name == "pow" and args[1].conc():
            return self.pow(s, w, args[0], args[1])
        if name == "pow":
            return self.pow2(s, w, args[0], args[1])
        if name == "cbrt":
            return self.root(w, args[0], 3)
        if name in ("sin", "cos"):
            A = self.R(args[0])
            k = ("sincos", A.get_id())
            r = self.roots.get(k)
            if r is None:
                sn, cs = self.E.newreal("sin"), self.E.newreal("cos")
                c = z3.And(sn * sn + cs * cs == 1, sn >= -1, sn <= 1, cs >= -1, cs <= 1)
                self.addside(sn, c)
                self.addside(cs, c)
                at = A
                for c in (z3.Implies(z3.And(at >= 0, at <= z3.RealVal("3.1415925")), sn >= 0), z3.Implies(at >= 0, sn <= at),
                          z3.Implies(at <= 0, sn >= at)):
                    self.addside(sn, c)
                for k2, r2 in list(self.roots.items()):
                    if k2[0] == "sincos":
                        c = z3.Implies(r2[2] == A, z3.And(r2[0] == sn, r2[1] == cs))
                        self.addside(sn, c)
                        self.addside(cs, c)
                r = self.roots[k] = (sn, cs, A)
                for (h, y, x, rad) in self.powers_atan():
                    # h = atan2(y, x): x = |(x,y)| cos h, y = |(x,y)| sin h
                    c = z3.Implies(A == h, z3.And(x == rad * cs, y == rad * sn))
                    self.addside(sn, c)
                    self.addside(cs, c)
            return self.out(w, r[0] if name == "sin" else r[1], (-1.0, 1.0))
        if name == "exp":
            # positive, increasing, at most 1 where the argument is at most 0
            A = self.R(args[0])
            for (aa, vv, iv) in self.exps:
                if aa.eq(A):
                    return self.out(w, vv, iv)
            v = self.E.newreal("exp")
            i = self.ival(args[0])
            iv = (math.exp(max(i[0], -700)) * (1 - 1e-9) if i[0] > -700 else 0.0, math.exp(min(i[1], 700)) * (1 + 1e-9)) \
                if i else None
            cs = [v > 0, z3.Implies(A <= 0, v <= 1), z3.Implies(A >= 0, v >= 1), v >= 1 + A]
            if iv:
                cs += [v >= self.rv(iv[0]), v <= self.rv(iv[1])]
            for (aa, vv, _) in self.exps:
                cs.append(z3.And(z3.Implies(A <= aa, v <= vv), z3.Implies(A >= aa, v >= vv)))
            for c in cs:
                self.addside(v, c)
            self.exps.append((A, v, iv))
            self.E.assumptions.add("exp: positive, increasing, exp(x) >= 1 + x, exp(0) = 1")
            return self.out(w, v, iv)
        if name == "atan2":
            y, x = self.R(args[0]), self.R(args[1])
            h = self.E.newreal("atan")
            rad = self.E.newreal("root")
            self.addside(rad, z3.And(rad >= 0, rad * rad == x * x + y * y))
            self.addside(h, z3.And(h >= self.rv(-3.1415928), h <= self.rv(3.1415928)))
            self.atans = self.powers_atan() + [(h, y, x, rad)]
            return self.out(w, h, (-3.1415928, 3.1415928))
        raise eng().EngineError("real mode: " + name)

    def tanh(self, w, a):
        A = self.R(a)
        k = ("tanh", A.get_id())
        r = self.roots.get(k)
        if r is None:
            v = self.E.newreal("tanh")
            for c in (v < 1, v > -1, z3.Implies(A >= 0, z3.And(v >= 0, v <= A)),
                      z3.Implies(A <= 0, z3.And(v <= 0, v >= A))):
                self.addside(v, c)
            self.E.assumptions.add("tanh: |tanh x| <= |x|, |tanh x| < 1, sign kept")
            r = self.roots[k] = (v, A)
        i = self.ival(a)
        iv = (math.tanh(i[0]) - 1e-7, math.tanh(i[1]) + 1e-7) if i else (-1.0, 1.0)
        return self.out(w, r[0], (max(iv[0], -1.0), min(iv[1], 1.0)))

    def pow2(self, s, w, a, b):
        """pow with a symbolic exponent"""
        i, j = self.ival(a), self.ival(b)
        A, B = self.R(a), self.R(b)
        if not i or i[0] < 0:
            # the interval is coarser than the path condition: ask the solver for the sign
            if self.E.fork_bool(s, A < 0):
                raise eng().EngineError("real mode: pow of a value that may be negative")
            i = (0.0, i[1] if i else INF)
        k = ("pow", A.get_id(), B.get_id())
        r = self.roots.get(k)
        if r is None:
            v = self.E.newreal("pow")
            for c in (v >= 0, z3.Implies(A == 1, v == 1), z3.Implies(B == 0, v == 1), z3.Implies(B == 1, v == A),
                      z3.Implies(z3.And(A <= 1, B >= 0), v <= 1), z3.Implies(z3.And(A >= 1, B >= 0), v >= 1),
                      z3.Implies(z3.And(A <= 1, B >= 1), v <= A), z3.Implies(z3.And(A <= 1, B >= 0, B <= 1), v >= A),
                      z3.Implies(z3.And(A >= 1, B >= 0, B <= 1), v <= A),
                      z3.Implies(z3.And(A <= 1, A > 0, B <= 0), v >= 1), z3.Implies(z3.And(A == 0, B > 0), v == 0)):
                self.addside(v, c)
            for k2, r2 in list(self.roots.items()):
                if k2[0] == "pow":
                    self.addside(v, z3.Implies(z3.And(r2[1] == A, r2[2] == B), r2[0] == v))
            self.E.assumptions.add("pow(x, y): 0..1 to 0..1 for y >= 0, fixed points 0 and 1, pow(x,1) = x, >= 1 for y < 0")
            r = self.roots[k] = (v, A, B)
        iv = None
        if i[1] <= 1 and j and j[0] >= 0:
            iv = (0.0, 1.0)
        elif self.E.fork_bool(s, z3.And(A == 0, B < 0)):
            return from_py(INF, w)
        return self.out(w, r[0], iv)

    def powers_atan(self):
        return getattr(self, "atans", [])

    def pow(self, s, w, a, b):
        y = pyfloat(b)
        i = self.ival(a)
        lin = self.E.o.get("powlin", False)
        if not lin and y == int(y) and 1 <= y <= 4:
            r = a
            for _ in range(int(y) - 1):
                r = self.bin(s, "fmul", r, a)
            return r
        for n in (2, 3):
            if not lin and abs(y - 1.0 / n) < 1e-7:
                self.E.assumptions.add("pow(x, %r) is the exact %d-th root" % (y, n))
                return self.root(w, a, n)
        if not i or i[0] < 0 or i[1] > 2:
            raise eng().EngineError("real mode: pow outside [0,2]")
        # an increasing function with known values at a few anchors and known bounds of its slope,
        # and the inverse of the power with the reciprocal exponent
        A = self.R(a)
        for n in (2, 3):
            # 1/3 rounded to single precision is taken for 1/3
            if abs(y - 1.0 / n) < 1e-7:
                y = 1.0 / n
        v = None
        for (yy, aa, vv, ii) in self.powers:
            if yy == y and aa.eq(A):
                v = vv
                if ii == i:
                    return self.out(w, v, self.powiv(y, i))
        cs = []
        if v is None:
            v = self.E.newreal("pow")
            pts = [Fraction(k, 16) for k in range(0, 33)] + \
                  [Fraction(k, 100000) for k in (100, 200, 300, 313, 314, 320, 400, 600, 1000, 2000, 3000, 4040, 4045, 4050, 4100, 8900, 9047, 9048, 9100,
                                                 9000, 10000)]
            for p in sorted(pts):
                f = float(p) ** y
                lo, hi = self.rv(f * (1 - 1e-12)), self.rv(f * (1 + 1e-12))
                pv = self.rv(p)
                cs.append(z3.Implies(A <= pv, v <= hi))
                cs.append(z3.Implies(A >= pv, v >= lo))
            # around the ends of sRGB's linear segment: tangent on one side of the curve, chord on the other
            for q, p in ((310, 313), (313, 314), (314, 320), (9030, 9047), (9047, 9048), (9048, 9060)):
                q, p = Fraction(q, 100000), Fraction(p, 100000)
                fq, fp = float(q) ** y, float(p) ** y
                t = self.rv(y * float(q) ** (y - 1)) * (A - self.rv(q))
                c = self.rv((fp - fq) / float(p - q)) * (A - self.rv(q))
                h, l = self.rv(fq + 1e-12), self.rv(fq - 1e-12)
                cs.append(z3.Implies(z3.And(A >= self.rv(q), A <= self.rv(p)),
                                     z3.And(v >= l + t, v <= h + c) if y > 1 else z3.And(v <= h + t, v >= l + c)))
            cs.append(v >= 0)
            pi = self.powiv(y, i)
            cs.append(z3.Implies(z3.And(A >= self.rv(i[0]), A <= self.rv(i[1])), z3.And(v >= self.rv(pi[0]), v <= self.rv(pi[1]))))
            self.E.assumptions.add("pow(x, c) for constant c: increasing, convex or concave, (x^c)^(1/c) = x, anchored at %d points, "
                                   "slope bounds between any two of its uses" % len(pts))
        # other known points of the same function
        pts = []
        for (yy, aa, vv, ii) in self.powers:
            if yy == y and not aa.eq(A):
                pts.append((aa, vv, ii))
            elif abs(yy * y - 1) < 1e-6:
                pts.append((vv, aa, self.powiv(yy, ii)))
        for (x, px, ix) in pts:
            cs.append(z3.And(z3.Implies(A <= x, v <= px), z3.Implies(A >= x, v >= px)))
            lo, hi = min(i[0], ix[0]), max(i[1], ix[1])
            for lo in (max(lo, 0.003),):
                if lo >= hi:
                    continue
                d = sorted(y * e ** (y - 1) for e in (lo, hi))
                dl, dh = self.rv(d[0] * (1 - 1e-9)), self.rv(d[1] * (1 + 1e-9))
                L, Hh = self.rv(lo), self.rv(hi)
                g = z3.And(A >= L, A <= Hh, x >= L, x <= Hh)
                cs.append(z3.Implies(z3.And(g, A >= x), z3.And(v - px >= dl * (A - x), v - px <= dh * (A - x))))
                cs.append(z3.Implies(z3.And(g, A <= x), z3.And(px - v >= dl * (x - A), px - v <= dh * (x - A))))
        for c in cs:
            self.addside(v, c)
        self.powers.append((y, A, v, i))
        return self.out(w, v, self.powiv(y, i))

    def powiv(self, y, i):
        return (i[0] ** y * (1 - 1e-12), i[1] ** y * (1 + 1e-12))

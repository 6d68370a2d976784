"""LLVM intrinsics, libc/allocator externals and the nd_* harness interface."""
import re
import z3
import ir
from fl import Fl
from engine import (Ptr, NULL, EngineError, PathEnd, Fork, bv, tobool, simp, simp_keep, mask, sgn,
                    M64, Obj)


def table(E):
    return {}


def vecmap(f, n):
    def g(s, ins, a):
        if isinstance(a[0], list):
            return [f(s, ins, [x[i] if isinstance(x, list) else x for x in a]) for i in range(len(a[0]))]
        return f(s, ins, a)
    return g


def width(t):
    return t.el.n if t.k == "x" else t.n


def lookup(E, name):
    base = name[5:]
    m = re.match(r"[a-z0-9_.]+", base)
    parts = base.split(".")
    p0 = parts[0]

    def nop(s, ins, a):
        return None
    if p0 in ("lifetime", "assume", "dbg", "prefetch", "donothing", "sideeffect", "var", "pseudoprobe"):
        return nop
    if base.startswith("experimental.noalias") or base.startswith("experimental.guard") or base.startswith("invariant"):
        return (lambda s, ins, a: NULL) if base.startswith("invariant.start") else nop
    if base.startswith("x86.sse2.pause"):
        return nop
    if p0 == "memcpy" or p0 == "memmove":
        def mc(s, ins, a):
            E.memcpy(s, a[0], a[1], a[2])
        return mc
    if p0 == "memset":
        def ms(s, ins, a):
            E.memset(s, a[0], a[1], a[2])
        return ms
    if p0 == "trap" or p0 == "debugtrap":
        def tr(s, ins, a):
            E.do_panic(s, "trap/abort")
        return tr
    if p0 == "expect":
        return lambda s, ins, a: a[0]
    if base.startswith("is.constant"):
        return lambda s, ins, a: 0
    if p0 == "objectsize":
        return lambda s, ins, a: M64
    if base.startswith("threadlocal.address"):
        def tl(s, ins, a):
            return a[0]
        return tl
    if base.startswith("load.relative"):
        def lr(s, ins, a):
            p = E.padd(a[0], a[1])
            for nm, q in E.globptr.items():
                if type(q) is Ptr and q.o == p.o and not nm.startswith("#"):
                    init = E.mod.glob(nm).get("init")
                    if init is not None and init.k == "agg":
                        k = E.conc(s, p.off, "relative table") // 4
                        c = init.v[k][1]
                        try:
                            to = c.v[2].v[2].v[2]
                        except (AttributeError, IndexError, TypeError):
                            break
                        return E.const(s, to, ir.PTR)
            off = E.load(s, p, ir.ity(32))
            return E.padd(a[0], sgn(off, 32))
        return lr
    if p0 == "ptrmask":
        def pm(s, ins, a):
            return Ptr(a[0].o, a[0].off & a[1])
        return pm
    if len(parts) >= 3 and parts[1:3] == ["with", "overflow"]:
        op = p0

        def ov1(a, b, n):
            sg = op[0] == "s"
            k = op[1:]
            if type(a) is int and type(b) is int:
                x, y = (sgn(a, n), sgn(b, n)) if sg else (a, b)
                r = x + y if k == "add" else x - y if k == "sub" else x * y
                lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if sg else (0, mask(n))
                return [r & mask(n), int(not lo <= r <= hi)]
            A, B = bv(a, n), bv(b, n)
            ext = z3.SignExt if sg else z3.ZeroExt
            e = 2 if k != "mul" else n
            X, Y = ext(e, A), ext(e, B)
            R = X + Y if k == "add" else X - Y if k == "sub" else X * Y
            r = A + B if k == "add" else A - B if k == "sub" else A * B
            if k == "add" and not sg:
                o = z3.ULT(r, A)
            elif k == "sub" and not sg:
                o = z3.ULT(A, B)
            else:
                o = R != ext(e, z3.Extract(n - 1, 0, R))
            return [simp(r), simp(o)]

        def ov(s, ins, a):
            t = ins.b[0][0]
            n = width(t)
            if t.k == "x":
                rs = [ov1(x, y, n) for x, y in zip(a[0], a[1])]
                return [[r[0] for r in rs], [r[1] for r in rs]]
            return ov1(a[0], a[1], n)
        return ov
    if p0 in ("umax", "umin", "smax", "smin"):
        pred = {"umax": "ugt", "umin": "ult", "smax": "sgt", "smin": "slt"}[p0]

        def mm(s, ins, a):
            n = width(ins.b[0][0])
            c = E.icmp(s, pred, ir.ity(n), a[0], a[1])
            if type(c) is int:
                return a[0] if c else a[1]
            if n == 1:
                return simp(z3.If(c, tobool(a[0]), tobool(a[1])))
            return simp_keep(z3.If(c, bv(a[0], n), bv(a[1], n)))
        return vecmap(mm, 2)
    if p0 == "abs":
        def ab(s, ins, a):
            n = width(ins.b[0][0])
            if type(a[0]) is int:
                return abs(sgn(a[0], n)) & mask(n)
            return z3.If(a[0] < 0, -a[0], a[0])
        return vecmap(ab, 1)
    if len(parts) > 1 and parts[1] == "sat" and p0 in ("uadd", "usub", "sadd", "ssub"):
        def sa(s, ins, a):
            n = width(ins.b[0][0])
            x, y = a
            if type(x) is int and type(y) is int:
                if p0 == "uadd":
                    return min(x + y, mask(n))
                if p0 == "usub":
                    return max(x - y, 0)
                r = sgn(x, n) + sgn(y, n) if p0 == "sadd" else sgn(x, n) - sgn(y, n)
                return max(-(1 << (n - 1)), min((1 << (n - 1)) - 1, r)) & mask(n)
            X, Y = bv(x, n), bv(y, n)
            if p0 == "uadd":
                r = X + Y
                return simp_keep(z3.If(z3.ULT(r, X), bv(mask(n), n), r))
            if p0 == "usub":
                return simp_keep(z3.If(z3.ULT(X, Y), bv(0, n), X - Y))
            e = z3.SignExt(2, X) + z3.SignExt(2, Y) if p0 == "sadd" else z3.SignExt(2, X) - z3.SignExt(2, Y)
            lo = z3.BitVecVal(-(1 << (n - 1)), n + 2)
            hi = z3.BitVecVal((1 << (n - 1)) - 1, n + 2)
            e = z3.If(e < lo, lo, z3.If(e > hi, hi, e))
            return simp_keep(z3.Extract(n - 1, 0, e))
        return vecmap(sa, 2)
    if p0 in ("fshl", "fshr"):
        def fs(s, ins, a):
            n = width(ins.b[0][0])
            x, y, k = a
            if type(k) is not int:
                k = bv(k, n)
                cc = z3.Concat(bv(x, n), bv(y, n))
                kk = z3.ZeroExt(n, z3.URem(k, z3.BitVecVal(n, n)))
                if p0 == "fshl":
                    return simp_keep(z3.Extract(2 * n - 1, n, cc << kk))
                return simp_keep(z3.Extract(n - 1, 0, z3.LShR(cc, kk)))
            k %= n
            if type(x) is int and type(y) is int:
                cc = (x << n) | y
                if p0 == "fshl":
                    return (cc >> (n - k)) & mask(n)
                return (cc >> k) & mask(n)
            cc = z3.Concat(bv(x, n), bv(y, n))
            sh = (n - k) if p0 == "fshl" else k
            return simp_keep(z3.Extract(n + sh - 1, sh, cc))
        return vecmap(fs, 3)
    if p0 == "ctpop":
        def cp(s, ins, a):
            n = width(ins.b[0][0])
            if type(a[0]) is int:
                return bin(a[0]).count("1")
            r = z3.BitVecVal(0, n)
            for i in range(n):
                r = r + z3.ZeroExt(n - 1, z3.Extract(i, i, a[0]))
            return simp_keep(r)
        return vecmap(cp, 1)
    if p0 in ("ctlz", "cttz"):
        def cz(s, ins, a):
            n = width(ins.b[0][0])
            x = a[0]
            if type(x) is int:
                if x == 0:
                    return n
                return (n - x.bit_length()) if p0 == "ctlz" else ((x & -x).bit_length() - 1)
            r = z3.BitVecVal(n, n)
            rng = range(n) if p0 == "ctlz" else reversed(range(n))
            for i in rng:
                r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(n - 1 - i if p0 == "ctlz" else i, n), r)
            return simp_keep(r)
        return vecmap(cz, 1)
    if p0 == "bswap":
        def bs(s, ins, a):
            n = width(ins.b[0][0])
            if type(a[0]) is int:
                return int.from_bytes(a[0].to_bytes(n // 8, "little"), "big")
            return simp_keep(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, a[0]) for i in range(n // 8)]))
        return vecmap(bs, 1)
    if p0 == "bitreverse":
        def br(s, ins, a):
            n = width(ins.b[0][0])
            if type(a[0]) is int:
                return int(bin(a[0])[2:].zfill(n)[::-1], 2)
            return simp_keep(z3.Concat(*[z3.Extract(i, i, a[0]) for i in range(n)]))
        return vecmap(br, 1)
    if p0 in ("ucmp", "scmp"):
        def uc(s, ins, a):
            n = width(ins.b[0][0])
            rn = ins.ty.n
            lt = E.icmp(s, "ult" if p0 == "ucmp" else "slt", ir.ity(n), a[0], a[1])
            eq = E.icmp(s, "eq", ir.ity(n), a[0], a[1])
            if type(lt) is int and type(eq) is int:
                return mask(rn) if lt else 0 if eq else 1
            return simp_keep(z3.If(tobool(lt), bv(mask(rn), rn), z3.If(tobool(eq), bv(0, rn), bv(1, rn))))
        return vecmap(uc, 2)
    # floating point
    fo = E.fops
    if p0 in ("fabs", "sqrt", "floor", "ceil", "trunc", "rint", "nearbyint", "roundeven", "round"):
        return vecmap(lambda s, ins, a: fo.unary(s, p0, a[0]), 1)
    if p0 in ("minnum", "maxnum", "minimum", "maximum", "minimumnum", "maximumnum"):
        return vecmap(lambda s, ins, a: fo.minmax(s, p0, a[0], a[1]), 2)
    if p0 == "copysign":
        return vecmap(lambda s, ins, a: fo.copysign(s, a[0], a[1]), 2)
    if p0 in ("fma", "fmuladd"):
        return vecmap(lambda s, ins, a: fo.fma(s, a[0], a[1], a[2], True), 3)
    if p0 in ("pow", "exp", "exp2", "log", "log2", "log10", "sin", "cos", "tan", "tanh", "sinh", "cosh", "atan2",
              "atan", "asin", "acos"):
        return vecmap(lambda s, ins, a: fo.libm(s, p0, a), 1)
    if p0 == "powi":
        def pw(s, ins, a):
            k = a[1]
            if type(k) is not int:
                raise EngineError("powi symbolic exponent")
            k = sgn(k, 32)
            # repeated squaring, as compiler-rt does
            x = a[0]
            recip = k < 0
            k = abs(k)
            r = None
            one = Fl(x.w, 0x3f800000 if x.w == 32 else 0x3ff0000000000000)
            r = one
            while True:
                if k & 1:
                    r = fo.bin(s, "fmul", r, x)
                k //= 2
                if k == 0:
                    break
                x = fo.bin(s, "fmul", x, x)
            return fo.bin(s, "fdiv", one, r) if recip else r
        return pw
    if p0 in ("fptosi", "fptoui") and parts[1] == "sat":
        return vecmap(lambda s, ins, a: fo.to_int(s, a[0], width(ins.ty), p0 == "fptosi", True), 1)
    if base.startswith("is.fpclass"):
        def fc(s, ins, a):
            v, m = a
            x = v
            if x.conc():
                import numpy as np
                q = x.np()
                neg = x.b >> (x.w - 1)
                cls = 0
                if np.isnan(q):
                    cls = 3
                elif np.isinf(q):
                    cls = 4 if neg else 512
                elif q == 0:
                    cls = 32 if neg else 64
                else:
                    tiny = np.finfo(q.dtype).tiny
                    if abs(q) < tiny:
                        cls = 16 if neg else 128
                    else:
                        cls = 8 if neg else 256
                return int(bool(cls & m))
            return fo.fpclass(s, x, m)
        return vecmap(fc, 1)
    if base.startswith("vector.reduce."):
        op = parts[2]

        def vr(s, ins, a):
            t = ins.b[-1][0].el
            xs = a[-1]
            if op in ("add", "mul", "and", "or", "xor"):
                r = xs[0]
                for x in xs[1:]:
                    r = E.binop(s, op, t, r, x)
                return r
            raise EngineError("vector.reduce." + op)
        return vr
    return None


# ---------------------------------------------------------------- externals

def externs(E):
    X = {}
    mod = E.mod

    def reg(*names):
        def d(f):
            for n in names:
                X[n] = f
            return f
        return d

    # ---- allocator
    def do_alloc(s, size, zero):
        if type(size) is not int:
            size = E.conc(s, size, "allocation size")
        if size > (1 << 36):
            raise EngineError("huge allocation %d" % size)
        return Ptr(E.alloc(s, size, "heap", bytes(size) if zero and size < (1 << 26) else None), 0)

    @reg("malloc")
    def malloc(s, ins, a):
        return do_alloc(s, a[0], False)

    @reg("calloc")
    def calloc(s, ins, a):
        n = E.conc(s, a[0], "calloc")
        m = E.conc(s, a[1], "calloc")
        return do_alloc(s, n * m, True)

    @reg("posix_memalign")
    def pma(s, ins, a):
        n = E.conc(s, a[2], "memalign")
        E.store(s, a[0], ir.PTR, do_alloc(s, n, False))
        return 0

    @reg("aligned_alloc", "memalign")
    def aa(s, ins, a):
        return do_alloc(s, a[1], False)

    @reg("free")
    def free(s, ins, a):
        p = a[0]
        if p.o is None:
            return
        if E.getobj(s, p.o).log is not None:
            return
        o = E.wobj(s, p.o)
        if o.dead or p.off != 0:
            E.memerr(s, "bad free")
        s.mem[p.o] = d = Obj(p.o, o.size, s.id, "freed")
        d.dead = True

    @reg("realloc")
    def realloc(s, ins, a):
        n = E.conc(s, a[1], "realloc")
        p = a[0]
        np_ = do_alloc(s, n, False)
        if p.o is not None:
            old = E.getobj(s, p.o)
            E.memcpy(s, np_, p, min(n, old.size))
            free(s, ins, [p])
        return np_

    # ---- string/memory
    @reg("memcmp", "bcmp")
    def memcmp(s, ins, a):
        n = E.conc(s, a[2], "memcmp length")
        isb = True
        if n == 0:
            return 0
        xs = [E.as_int(s, E.load_scalar(s, E.padd(a[0], i), 1), 8) for i in range(n)]
        ys = [E.as_int(s, E.load_scalar(s, E.padd(a[1], i), 1), 8) for i in range(n)]
        if all(type(x) is int for x in xs + ys):
            return 0 if xs == ys else (1 if xs > ys else mask(32))
        r = z3.BitVecVal(0, 32)
        for x, y in reversed(list(zip(xs, ys))):
            X, Y = bv(x, 8), bv(y, 8)
            r = z3.If(X == Y, r, z3.If(z3.UGT(X, Y), z3.BitVecVal(1, 32), z3.BitVecVal(mask(32), 32)))
        return simp_keep(r)

    @reg("memcpy", "memmove")
    def memcpy(s, ins, a):
        E.memcpy(s, a[0], a[1], a[2])
        return a[0]

    @reg("memset")
    def memset(s, ins, a):
        E.memset(s, a[0], simp(z3.Extract(7, 0, a[1])) if type(a[1]) is not int else a[1] & 255, a[2])
        return a[0]

    @reg("strlen")
    def strlen(s, ins, a):
        p = a[0]
        i = 0
        while True:
            c = E.as_int(s, E.load_scalar(s, E.padd(p, i), 1), 8)
            if type(c) is not int:
                z = E.fork_bool(s, c == 0)
                if z:
                    return i
            elif c == 0:
                return i
            i += 1
            if i > 4096:
                raise EngineError("strlen")

    @reg("getenv")
    def getenv(s, ins, a):
        return NULL

    @reg("abort", "exit", "_exit")
    def abort(s, ins, a):
        E.do_panic(s, "abort/exit")

    # ---- libm
    for nm in ("powf", "expf", "exp2f", "logf", "log2f", "log10f", "sinf", "cosf", "tanf", "tanhf", "sinhf",
               "coshf", "atan2f", "atanf", "asinf", "acosf", "fmodf", "cbrtf", "hypotf"):
        X[nm] = (lambda q: lambda s, ins, a: E.fops.libm(s, q, a))(nm[:-1])
        X[nm[:-1]] = (lambda q: lambda s, ins, a: E.fops.libm(s, q, a))(nm[:-1])
    for nm in ("floorf", "ceilf", "truncf", "roundf", "rintf", "sqrtf"):
        X[nm] = (lambda q: lambda s, ins, a: E.fops.unary(s, q, a[0]))(nm[:-1])
        X[nm[:-1]] = X[nm]
    X["fmaf"] = X["fma"] = lambda s, ins, a: E.fops.fma(s, a[0], a[1], a[2], True)

    # ---- harness interface
    def take(s, kind, n):
        if E.tape is not None:
            if E.tape_i >= len(E.tape):
                v = 0
            else:
                k, v = E.tape[E.tape_i]
                if k != kind:
                    raise EngineError("tape kind mismatch %s %s" % (k, kind))
            E.tape_i += 1
            return v & mask(n)
        return None

    def nd_int(kind, n):
        def f(s, ins, a):
            v = take(s, kind, n)
            if v is None:
                v = z3.BitVec("nd%d_%s" % (len(s.nds), kind), n)
            s.nds.append((kind, v))
            return v
        return f
    X["nd_u8"] = nd_int("u8", 8)
    X["nd_u16"] = nd_int("u16", 16)
    X["nd_u32"] = nd_int("u32", 32)
    X["nd_u64"] = nd_int("u64", 64)

    @reg("nd_bool")
    def nd_bool(s, ins, a):
        v = take(s, "bool", 1)
        if v is None:
            v = z3.Bool("nd%d_bool" % len(s.nds))
        s.nds.append(("bool", v))
        return v

    @reg("nd_f32")
    def nd_f32(s, ins, a):
        v = take(s, "f32", 32)
        if v is None:
            v = E.fops.nd_var("nd%d_f32" % len(s.nds)) if hasattr(E.fops, "nd_var") else \
                Fl(32, z3.BitVec("nd%d_f32" % len(s.nds), 32))
        else:
            v = Fl(32, v)
        s.nds.append(("f32", v if not (isinstance(v, Fl) and v.conc()) else v.b))
        return v

    @reg("nd_unit")
    def nd_unit(s, ins, a):
        """a finite float in [lo, hi] (bounds: the two arguments)"""
        v = nd_f32(s, ins, a)
        E.fops.assume_range(s, v, a[0], a[1])
        return v

    @reg("nd_assume")
    def nd_assume(s, ins, a):
        c = a[0]
        if type(c) is int:
            if not c:
                raise PathEnd("infeasible")
            return
        c = simp(tobool(c))
        if type(c) is int:
            if not c:
                raise PathEnd("infeasible")
            return
        ok, m = E.feasible(s, c)
        if not ok:
            raise PathEnd("infeasible")
        E.add_pc(s, c, m)

    @reg("nd_check")
    def nd_check(s, ins, a):
        msg = read_str(s, a[1], a[2])
        E.do_check(s, a[0], msg)

    def read_str(s, p, n):
        n = E.conc(s, n)
        return bytes(E.as_int(s, E.load_scalar(s, E.padd(p, i), 1), 8) for i in range(n)).decode("utf8", "replace")

    @reg("nd_cover")
    def nd_cover(s, ins, a):
        msg = read_str(s, a[0], a[1])
        c = E.covers.get(msg)
        if c is True:
            return
        if E.tape is not None:
            E.covers[msg] = True
            return
        if c is not None and c >= E.o.get("cover_tries", 40):
            return
        r, m = E.query(s, None)
        E.covers[msg] = True if r == "sat" else (c or 0) + 1

    @reg("nd_may_panic")
    def nd_may_panic(s, ins, a):
        s.may_panic = bool(E.conc(s, a[0])) if type(a[0]) is int else bool(E.fork_bool(s, a[0]))

    @reg("nd_fork")
    def nd_fork(s, ins, a):
        return E.conc(s, a[0], "nd_fork")

    @reg("nd_fork_bool")
    def nd_fork_bool(s, ins, a):
        return E.fork_bool(s, a[0])

    @reg("nd_out_u64")
    def nd_out(s, ins, a):
        s.outs.append(a[0])
        if E.tape is not None:
            E.outs = s.outs

    @reg("nd_opaque")
    def nd_opaque(s, ins, a):
        """an object of a[0] bytes (possibly symbolic) with arbitrary content, 4-byte cells"""
        size = a[0]
        k = len(s.opq)
        if E.tape is not None:
            size = E.conc(s, size)
            oid = E.alloc(s, size, "opaque", bytes(size))
            o = s.mem[oid]
            ent = E.o.get("opq", [])
            if k < len(ent):
                sz, els, pokes = ent[k]
                if els:
                    o.base = (els.to_bytes(4, "little") * (size // 4 + 1))[:size]
                for off, v in pokes:
                    if off + 4 <= size:
                        E.store_at(o, off, 4, v)
            s.opq.append((size, None))
            return Ptr(oid, 0)
        oid = E.alloc(s, size, "opaque")
        o = s.mem[oid]
        fn = z3.Function("opq%d" % k, z3.BitVecSort(64), z3.BitVecSort(32))
        o.log = []
        o.init = fn
        s.opq.append((size, fn))
        return Ptr(oid, 0)

    @reg("hx_nothing")
    def hx_nothing(s, ins, a):
        return None

    @reg("nd_done")
    def nd_done(s, ins, a):
        raise PathEnd("done")

    @reg("nd_fail_unmodelled")
    def nd_unm(s, ins, a):
        raise EngineError("unmodelled: " + read_str(s, a[0], a[1]))

    # ---- misc libc that std touches
    @reg("__errno_location")
    def errno(s, ins, a):
        p = s.env.get("errno")
        if p is None:
            p = s.env["errno"] = Ptr(E.alloc(s, 4, "errno", bytes(4)), 0)
        return p

    import iomodel
    iomodel.register(E, X, reg)
    return X

"""lsx: a symbolic executor for the optimised whole-program LLVM IR that rustc
produces (fat LTO, so std and every dependency are part of the module).

Paths are explored depth first; symbolic inputs are SMT constants; every
nd_check() becomes an SMT query  path-condition /\\ not(cond).
"""
import sys
import time
import re
import z3
import ir
from ir import Const, Reg, Ty
from fl import Fl, libm_call, from_np, from_py, pyfloat, F32, F64, RNE, RTZ, sort_of
import numpy as np

sys.setrecursionlimit(20000)

ADDR_SHIFT = 40
M64 = (1 << 64) - 1
MAXITE = 600


class EngineError(Exception):
    """the engine cannot continue soundly -> the check ends in an error/undecided"""


class PathEnd(Exception):
    def __init__(self, why):
        self.why = why


class Fork(Exception):
    """re-execute the current instruction under each of the given constraints;
    (constraint, pin) pairs"""

    def __init__(self, alts):
        self.alts = alts


class Ptr:
    __slots__ = ("o", "off")

    def __init__(self, o, off):
        self.o = o        # object id, None for integers/null, or 'fn:name'
        self.off = off

    def __repr__(self):
        return "Ptr(%s+%s)" % (self.o, self.off)


NULL = Ptr(None, 0)


class Obj:
    __slots__ = ("id", "size", "cells", "base", "owner", "name", "ro", "dead", "log", "init")

    def __init__(self, id, size, owner, name="", base=None, ro=False):
        self.id = id
        self.size = size
        self.cells = {}
        self.base = base      # bytes: initial content (None: uninitialised)
        self.owner = owner
        self.name = name
        self.ro = ro
        self.dead = False
        self.log = None       # opaque object: list of (off, size, val) writes
        self.init = None

    def clone(self, owner):
        o = Obj(self.id, self.size, owner, self.name, self.base, self.ro)
        o.cells = dict(self.cells)
        o.dead = self.dead
        if self.log is not None:
            o.log = list(self.log)
        o.init = self.init
        return o


class Frame:
    __slots__ = ("fn", "blk", "code", "prev", "i", "regs", "res", "allocas", "invoke")

    def __init__(self, fn, regs, res):
        self.fn = fn
        self.blk = fn.entry
        self.code = fn.blocks[fn.entry]
        self.prev = None
        self.i = 0
        self.regs = regs
        self.res = res
        self.allocas = []
        self.invoke = None

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn
        f.blk = self.blk
        f.code = self.code
        f.prev = self.prev
        f.i = self.i
        f.regs = dict(self.regs)
        f.res = self.res
        f.allocas = list(self.allocas)
        f.invoke = self.invoke
        return f


_sid = [0]


class Abort(Exception):
    """if-conversion given up"""


IFC_SKIP = {"llvm.assume", "llvm.experimental.noalias.scope.decl", "llvm.lifetime.start.p0", "llvm.lifetime.end.p0"}
IFC_OPS = {"phi", "add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "icmp", "fcmp", "select", "fadd", "fsub", "fmul",
           "fdiv", "fneg", "zext", "sext", "trunc", "fpext", "fptrunc", "uitofp", "sitofp", "fptoui", "fptosi", "extractvalue",
           "insertvalue", "freeze", "getelementptr"}
IFC_CALL = re.compile(r"llvm\.(assume|experimental\.noalias|lifetime|pow|fabs|minnum|maxnum|minimumnum|maximumnum|umin|umax|smin|smax|sqrt|"
                      r"floor|ceil|trunc|round|rint|fmuladd|fma|copysign|fptoui\.sat|fptosi\.sat|abs)\b|(powf|pow|cbrtf|sqrtf|expf|tanhf)$")


def ifc_pure(i):
    if i.op in IFC_OPS:
        return True
    return i.op == "call" and type(i.a) is Const and i.a.k == "glob" and IFC_CALL.match(i.a.v) is not None


class State:
    __slots__ = ("id", "frames", "mem", "pc", "nds", "may_panic", "pins", "model", "nextobj",
                 "depth", "outs", "opq", "env", "steps", "tls", "hard", "nchk", "fiv")

    def __init__(self):
        _sid[0] += 1
        self.id = _sid[0]
        self.frames = []
        self.mem = {}
        self.pc = []
        self.nds = []
        self.may_panic = False
        self.pins = {}
        self.model = None
        self.nextobj = 1
        self.depth = 0
        self.outs = []
        self.opq = []
        self.env = {}
        self.steps = 0
        self.tls = {}
        self.hard = False
        self.nchk = 0
        self.fiv = {}

    def fork(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.nds = list(self.nds)
        s.may_panic = self.may_panic
        s.pins = dict(self.pins)
        s.model = self.model
        s.nextobj = self.nextobj
        s.depth = self.depth + 1
        s.outs = list(self.outs)
        s.opq = list(self.opq)
        s.env = dict(self.env)
        s.steps = self.steps
        s.tls = dict(self.tls)
        s.hard = self.hard
        s.nchk = self.nchk
        s.fiv = dict(self.fiv)
        # both sides lose ownership of shared objects
        _sid[0] += 1
        self.id = _sid[0]
        return s


def mask(n):
    return (1 << n) - 1


def sgn(v, n):
    return v - (1 << n) if v >> (n - 1) else v


def is_c(v):
    return type(v) is int


def bv(v, n):
    if type(v) is int:
        return z3.BitVecVal(v, n)
    if n == 1 and isinstance(v, z3.BoolRef):
        return z3.If(v, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    return v


def tobool(v):
    if type(v) is int:
        return z3.BoolVal(bool(v & 1))
    if isinstance(v, z3.BoolRef):
        return v
    return v == 1


def simp(e):
    """simplify; return python int when constant"""
    e = z3.simplify(e)
    if isinstance(e, z3.BoolRef):
        if z3.is_true(e):
            return 1
        if z3.is_false(e):
            return 0
        return e
    if z3.is_bv_value(e):
        return e.as_long()
    return e


_hard = {}
_keep = []


def has_hard(e):
    """does the expression involve floating point or real arithmetic?"""
    k = e.get_id()
    r = _hard.get(k)
    if r is not None:
        return r
    st = [e]
    seen = set()
    r = False
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        h = _hard.get(i)
        if h is not None:
            if h:
                r = True
                break
            continue
        sk = x.sort_kind()
        if sk in (z3.Z3_FLOATING_POINT_SORT, z3.Z3_ROUNDING_MODE_SORT, z3.Z3_REAL_SORT, z3.Z3_INT_SORT):
            r = True
            break
        st.extend(x.children())
    _hard[k] = r
    _keep.append(e)
    return r


PRINT_PAT = re.compile(r"5stdio(6_|7_e|6__|7__e)print")
PANIC_PAT = re.compile(
    r"9panicking|rust_begin_unwind|rust_panic|begin_panic|expect_failed|unwrap_failed|"
    r"handle_alloc_error|7raw_vec12handle_error|capacity_overflow|slice_error_fail|"
    r"slice_index_fail|len_mismatch_fail|copy_from_slice_impl|panic_fmt|index_fail|"
    r"assert_failed|panic_bounds_check|process5abort|6option13expect|10rust_oom|split_at_fail|"
    r"index_len_fail|index_order_fail|3str16slice_error|swap_remove13assert|remove13assert|"
    r"insert13assert|8truncate13assert|drain13assert|9split_off13assert|panic_already|"
    r"already_borrowed|already_mutably")


class Violation:
    def __init__(self, kind, msg, tape, opq, loc, env=None, model_ok=True):
        self.kind = kind      # check | panic | memory
        self.msg = msg
        self.tape = tape
        self.opq = opq
        self.loc = loc
        self.env = env


class Stats:
    def __init__(self):
        self.paths = 0
        self.queries = 0
        self.hard_queries = 0
        self.solver_s = 0.0
        self.forks = 0
        self.steps = 0
        self.checks = 0
        self.checks_trivial = 0
        self.checks_proved = 0
        self.pruned = 0
        self.by = {}


class Engine:
    def __init__(self, mod, entry, opts=None):
        self.mod = mod
        self.entry = entry
        self.o = dict(max_paths=200000, max_steps=30_000_000, time=600, query_timeout=60_000,
                      fpmode="fp", feas_timeout=5000, max_conc=4096, tape=None,
                      uninterp=(), stop_on_violation=True, cancel=None, fpfeas=False, quick_ms=400, witnesses=4, feas_query=10000)
        if opts:
            self.o.update(opts)
        self.stats = Stats()
        self.violations = []
        self.covers = {}
        self.checks_seen = {}
        self.undecided = []
        self.witnesses = []
        self.wit_tries = 0
        self.pending = []
        self.running = []
        self.inflight = {}
        self.globmem = {}
        self.globptr = {}
        self.ifc = self.o.get("ifc", False)
        self.ifc_cache = {}
        self.spec = False
        self.hits = set()
        self.solver = z3.Solver()
        self.solver.set("timeout", self.o["feas_timeout"])
        self.sstack = []
        self.fresh = 0
        self.const_cache = {}
        self.side_axioms = []
        self.uf = {}
        self.t0 = time.time()
        self.tape = self.o["tape"]
        self.tape_i = 0
        self.cur = None
        self.varcache = {}
        self.assumptions = set()
        import intrin
        self.intr = intrin.table(self)
        self.ext = intrin.externs(self)
        if self.o["fpmode"] == "real":
            import realfp
            self.o["fpfeas"] = True
            self.fops = realfp.RealOps(self)
        else:
            import fpops
            self.fops = fpops.FpOps(self)

    # ------------------------------------------------------------ solver
    def _sync(self, pc):
        """solver stack := easy constraints of pc (incremental, common prefix)"""
        st = self.sstack
        k = 0
        n = min(len(st), len(pc))
        while k < n and st[k] is pc[k]:
            k += 1
        if k < len(st):
            self.solver.pop(len(st) - k)
            del st[k:]
        for c in pc[k:]:
            self.solver.push()
            if not has_hard(c):
                self.solver.add(c)
            st.append(c)

    def sat(self, state, extra):
        """is pc /\\ extra satisfiable, over the easy constraints? -> True/False/None(unknown)"""
        self._sync(state.pc)
        t = time.time()
        self.stats.queries += 1
        r = self.solver.check(extra)
        self.stats.solver_s += time.time() - t
        if r == z3.sat:
            return True, self.solver.model()
        if r == z3.unsat:
            return False, None
        return None, None

    def feasible(self, s, c):
        """c: z3 Bool. -> (may be true?, model or None)"""
        if has_hard(c):
            if self.o["fpfeas"]:
                cs = s.pc + [c]
                r, m = self.solve_hard(cs + self.fops.side(cs), self.o["feas_timeout"])
                return (r != "unsat"), None
            return True, None
        if s.model is not None:
            try:
                v = s.model.eval(c, model_completion=True)
                if z3.is_true(v):
                    return True, s.model
            except z3.Z3Exception:
                pass
        r, m = self.sat(s, c)
        if r is False:
            return False, None
        if r is None and not s.hard:
            import portfolio
            if portfolio.nl_lemmas(s.pc + [c], 1500):
                return False, None
        return True, m

    def add_pc(self, s, c, model=None):
        if self.spec:
            raise Abort()
        s.pc.append(c)
        self.fops.learn(s, c, True)
        if has_hard(c):
            s.hard = True
        elif model is not None:
            s.model = model
        elif s.model is not None:
            try:
                if not z3.is_true(s.model.eval(c, model_completion=True)):
                    s.model = None
            except z3.Z3Exception:
                s.model = None

    def check_budget(self):
        if time.time() - self.t0 > self.o["time"]:
            raise EngineError("time budget exhausted")

    def solve_hard(self, cs, timeout=None):
        import portfolio
        t = time.time()
        self.stats.queries += 1
        self.stats.hard_queries += 1
        left = self.o["time"] - (time.time() - self.t0)
        if left < 1:
            raise EngineError("time budget exhausted")
        tmo = min((timeout or self.o["query_timeout"]) / 1000.0, left)
        r, m = portfolio.solve(list(cs), tmo, self)
        self.stats.solver_s += time.time() - t
        return r, m

    # deferred queries: decided by solver processes while exploration goes on
    def defer(self, s, cs, kind, msg):
        import portfolio
        self.stats.queries += 1
        self.stats.hard_queries += 1
        j = portfolio.Job(cs, self.o["query_timeout"] / 1000.0)
        r = j.quick(self.o["quick_ms"])
        if r is not None:
            self.stats.solver_s += j.elapsed
            if r == "sat":
                self.report(kind, msg, self.tape_from(s, j.model), self.opq_from(s, j.model), self.loc_of(s))
            else:
                self.stats.checks_proved += 1
            return
        self.pending.append((j, kind, msg, list(s.nds), list(s.opq), self.loc_of(s)))
        self.pump()

    def pump(self):
        """start and collect deferred queries"""
        import portfolio
        rest = []
        for item in self.running:
            j, kind, msg, nds, opq, loc = item
            if not j.poll():
                rest.append(item)
                continue
            portfolio.release()
            self.stats.solver_s += j.elapsed
            self.stats.by[j.who] = self.stats.by.get(j.who, 0) + 1
            if j.result == "unsat":
                self.stats.checks_proved += 1
            elif j.result == "sat":
                fake = State()
                fake.nds, fake.opq = nds, opq
                self.report(kind, msg, self.tape_from(fake, j.model), self.opq_from(fake, j.model), loc)
            else:
                self.undecided.append("%s %r: no solver answered within %ds" % (kind, msg, j.tmo))
        self.running = rest
        while self.pending:
            if not portfolio.tokens(1, False):
                if not self.running:
                    time.sleep(0.02)
                break
            item = self.pending.pop(0)
            left = self.o["time"] - (time.time() - self.t0)
            item[0].tmo = max(1.0, min(item[0].tmo, left))
            item[0].start()
            self.running.append(item)

    def drain(self):
        while self.pending or self.running:
            self.pump()
            if self.violations and self.o["stop_on_violation"]:
                self.kill()
                return
            if time.time() - self.t0 > self.o["time"]:
                for it in self.pending + self.running:
                    self.undecided.append("%s %r: time budget" % (it[1], it[2]))
                self.kill()
                return
            time.sleep(0.02)

    def kill(self):
        import portfolio
        for it in self.running:
            it[0].stop()
            portfolio.release()
        self.running = []
        self.pending = []

    def report(self, kind, msg, tape, opq, loc):
        self.violations.append(Violation(kind, msg, tape, opq, loc))

    # ------------------------------------------------------------ memory
    def alloc(self, s, size, name="", base=None, ro=False):
        oid = s.nextobj
        s.nextobj += 1
        o = Obj(oid, size, s.id, name, base, ro)
        s.mem[oid] = o
        return oid

    def getobj(self, s, oid):
        o = s.mem.get(oid)
        if o is None:
            o = self.globmem.get(oid)
            if o is None:
                raise EngineError("unknown object %r" % (oid,))
        return o

    def wobj(self, s, oid):
        o = s.mem.get(oid)
        if o is None:
            g = self.globmem.get(oid)
            if g is None:
                raise EngineError("unknown object %r" % (oid,))
            o = g.clone(s.id)
            s.mem[oid] = o
            return o
        if o.owner != s.id:
            o = o.clone(s.id)
            s.mem[oid] = o
        return o

    def memerr(self, s, what):
        if s.hard and self.tape is None:
            # the path may only be infeasible through its floating-point conditions
            r, _ = self.query(s, None)
            if r == "unsat":
                raise PathEnd("infeasible")
        raise EngineError("memory error: %s at %s" % (what, self.loc_of(s)))

    def conc(self, s, e, what=""):
        """python int for e, forking over its feasible values when symbolic"""
        if type(e) is int:
            return e
        k = e.get_id()
        if k in s.pins:
            return s.pins[k][0]
        e2 = simp(e)
        if type(e2) is int:
            s.pins[k] = (e2, e)
            return e2
        # enumerate
        vals = []
        cons = list(s.pc)
        self._sync(cons)
        sol = self.solver
        sol.push()
        try:
            while True:
                t = time.time()
                self.stats.queries += 1
                r = sol.check()
                self.stats.solver_s += time.time() - t
                if r == z3.unsat:
                    break
                if r != z3.sat:
                    # only the constraints that share variables with e (the rest is satisfiable)
                    r, m = self.solve_hard(self.slice(s.pc, e2) + [e2 != v for v, _ in vals])
                    if r == "unsat":
                        break
                    if r != "sat":
                        raise EngineError("concretisation: solver unknown " + what)
                    v = m.eval(e2, model_completion=True).as_long()
                    vals.append((v, None))
                    sol.add(e2 != v)
                    continue
                m = sol.model()
                v = m.eval(e2, model_completion=True).as_long()
                vals.append((v, m))
                if len(vals) > self.o["max_conc"]:
                    raise EngineError("concretisation: too many values " + what)
                sol.add(e2 != v)
        finally:
            sol.pop()
        if not vals:
            raise PathEnd("infeasible")
        vals.sort(key=lambda t: t[0])
        n = e.size()
        raise Fork([(e2 == z3.BitVecVal(v, n), (k, v, e), m) for v, m in vals])

    def slice(self, pc, e):
        vs = self.vars_of(e)
        rest = [(c, self.vars_of(c)) for c in pc if not has_hard(c)]
        out = []
        while True:
            hit = [t for t in rest if t[1] & vs]
            if not hit:
                return out
            rest = [t for t in rest if not (t[1] & vs)]
            for c, v in hit:
                out.append(c)
                vs = vs | v

    def vars_of(self, e):
        k = e.get_id()
        r = self.varcache.get(k)
        if r is None:
            import portfolio
            r = self.varcache[k] = (frozenset(portfolio.consts([e])[0]), e)
        return r[0]

    def pick_ptr(self, v):
        return v

    def inb(self, s, o, off, size):
        """check off+size <= o.size for a symbolic offset"""
        sz = o.size
        szb = z3.BitVecVal(sz, 64) if is_c(sz) else sz
        bad = z3.simplify(z3.Not(z3.And(z3.ULE(off, szb - size), z3.UGE(szb, size))))
        if z3.is_false(bad):
            return
        key = ("inb", bad.get_id())
        if key in s.pins:
            return
        r, m = self.query(s, bad)
        if r != "unsat":
            self.memerr(s, "possible out-of-bounds access to %s (%s)" % (o.name, r))
        s.pins[key] = (1, bad)

    @staticmethod
    def split_off(off):
        """off = base + constant"""
        if z3.is_app_of(off, z3.Z3_OP_BADD):
            ch = off.children()
            k = [c for c in ch if z3.is_bv_value(c)]
            if len(k) == 1:
                rest = [c for c in ch if not z3.is_bv_value(c)]
                e = rest[0]
                for r in rest[1:]:
                    e = e + r
                return e, k[0].as_long()
        return off, 0

    def offsets(self, s, o, off, size):
        """feasible concrete values of a symbolic offset (None: too many), all in bounds"""
        base, k = self.split_off(off)
        key = ("cand", base.get_id())
        c = s.pins.get(key)
        if c is None:
            vals = []
            self._sync(s.pc)
            sol = self.solver
            sol.push()
            try:
                while True:
                    t = time.time()
                    self.stats.queries += 1
                    r = sol.check()
                    self.stats.solver_s += time.time() - t
                    if r == z3.unsat:
                        break
                    if r != z3.sat or len(vals) > MAXITE:
                        vals = None
                        break
                    v = sol.model().eval(base, model_completion=True)
                    vals.append(v.as_long())
                    sol.add(base != v)
            finally:
                sol.pop()
            c = s.pins[key] = (vals, base)
        if c[0] is None:
            return None
        r = sorted((v + k) & M64 for v in c[0])
        if r and (r[0] < 0 or r[-1] + size > o.size):
            # candidates were computed under a weaker path condition
            ok = [v for v in r if v + size <= o.size]
            for v in r:
                if v + size > o.size:
                    q, _ = self.query(s, off == v)
                    if q != "unsat":
                        self.memerr(s, "possible out-of-bounds access to %s" % o.name)
            r = ok
        if not r:
            raise PathEnd("infeasible")
        return r

    def load_scalar(self, s, p, size):
        """raw cell value: int/BV of size*8 bits, Fl or Ptr"""
        o = self.getobj(s, p.o) if type(p.o) is int else None
        if o is None:
            if p.o is None:
                self.memerr(s, "null/dangling dereference %r" % (p,))
            self.memerr(s, "load from function pointer")
        if o.dead:
            self.memerr(s, "use after free " + o.name)
        off = p.off
        if o.log is not None:
            return self.load_log(s, o, off, size)
        if type(off) is not int:
            k = off.get_id()
            if k in s.pins:
                off = s.pins[k][0]
            else:
                off = simp(off)
        if type(off) is int:
            if off + size > o.size:
                self.memerr(s, "out-of-bounds load %s[%d..+%d] size %s" % (o.name, off, size, o.size))
            return self.load_at(o, off, size)
        # symbolic offset: ite over the feasible values
        cand = self.offsets(s, o, off, size)
        if cand is None:
            off = self.conc(s, off, "load offset")
            return self.load_at(o, off, size)
        vals = [(c, self.load_at(o, c, size)) for c in cand]
        if any(isinstance(v, Ptr) for _, v in vals):
            v0 = vals[0][1]
            off = self.conc(s, off, "pointer load offset")
            return self.load_at(o, off, size)
        if all(isinstance(v, Fl) for _, v in vals):
            r = vals[-1][1]
            for c, v in reversed(vals[:-1]):
                r = self.fops.ite(off == c, v, r)
            return r
        n = size * 8
        vals = [(c, self.as_int(s, v, n)) for c, v in vals]
        r = bv(vals[-1][1], n)
        for c, v in reversed(vals[:-1]):
            r = z3.If(off == c, bv(v, n), r)
        return r

    def load_at(self, o, off, size):
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            return c[1]
        # assemble
        cells = o.cells
        if cells:
            hit = []
            for q in range(off - 15, off + size):
                c = cells.get(q)
                if c is not None and q + c[0] > off:
                    hit.append((q, c))
        else:
            hit = []
        if not hit:
            if o.base is not None:
                return int.from_bytes(o.base[off:off + size], "little")
            return 0  # uninitialised: undef
        parts = []
        allc = True
        for b in range(size):
            v = self.load_byte(o, off + b, hit)
            if type(v) is not int:
                allc = False
            parts.append(v)
        if allc:
            return int.from_bytes(bytes(parts), "little")
        return simp_keep(z3.Concat(*[bv(x, 8) for x in reversed(parts)]) if size > 1 else parts[0])

    def load_byte(self, o, off, hit):
        for q, (sz, v) in hit:
            if q <= off < q + sz:
                k = off - q
                if isinstance(v, Ptr):
                    v = self.ptr_int(v)
                if isinstance(v, Fl):
                    v = self.fl_bits_nostate(v)
                if type(v) is int:
                    return (v >> (8 * k)) & 255
                return z3.Extract(8 * k + 7, 8 * k, v)
        if o.base is not None:
            return o.base[off]
        return 0

    def fl_bits_nostate(self, v):
        if v.b is not None:
            return v.b
        return self.fops.bits(v)

    def ptr_int(self, p):
        if p.o is None:
            return p.off
        if type(p.o) is str:
            return self.fn_addr(p.o)
        base = (p.o + 1) << ADDR_SHIFT
        if type(p.off) is int:
            return (base + p.off) & M64
        return simp_keep(p.off + base)

    def fn_addr(self, name):
        t = self.globptr.setdefault("#fnaddr", {})
        a = t.get(name)
        if a is None:
            a = t[name] = (1 << 62) + 16 * (len(t) + 1)
            self.globptr.setdefault("#addrfn", {})[a] = name
        return a

    def int_ptr(self, s, v):
        if type(v) is int:
            if v >> 62 & 1:
                nme = self.globptr.get("#addrfn", {}).get(v)
                if nme:
                    return Ptr(nme, 0)
            oid = (v >> ADDR_SHIFT) - 1
            if oid > 0 and (oid in s.mem or oid in self.globmem):
                return Ptr(oid, v & ((1 << ADDR_SHIFT) - 1))
            return Ptr(None, v)
        hi = simp(z3.Extract(63, ADDR_SHIFT, v))
        if type(hi) is int:
            oid = hi - 1
            if oid > 0 and (oid in s.mem or oid in self.globmem):
                return Ptr(oid, simp_keep(v - ((oid + 1) << ADDR_SHIFT)))
        return self.int_ptr(s, self.conc(s, v, "inttoptr"))

    def as_int(self, s, v, n):
        if type(v) is int:
            return v & mask(n)
        if isinstance(v, Fl):
            b = v.b if v.b is not None else self.fops.bits(v)
            return self.trunc(b, v.w, n)
        if isinstance(v, Ptr):
            return self.trunc(self.ptr_int(v), 64, n)
        if isinstance(v, z3.BoolRef):
            return z3.If(v, z3.BitVecVal(1, n), z3.BitVecVal(0, n)) if n > 1 else v
        if v.size() != n:
            if n == 1:
                return simp(z3.Extract(0, 0, v) == 1)
            return simp(z3.Extract(n - 1, 0, v))
        return v

    def trunc(self, b, w, n):
        if type(b) is int:
            return b & mask(n)
        if n < w:
            return simp(z3.Extract(n - 1, 0, b))
        return b

    def conv_load(self, s, v, ty):
        k = ty.k
        if k == "i":
            n = (ty.n + 7) // 8 * 8
            r = self.as_int(s, v, n)
            if ty.n == n:
                return r
            if type(r) is int:
                return r & mask(ty.n)
            if ty.n == 1:
                return simp(z3.Extract(0, 0, r) == 1)
            return simp(z3.Extract(ty.n - 1, 0, r))
        if k == "f":
            if isinstance(v, Fl):
                return v
            if isinstance(v, Ptr):
                v = self.ptr_int(v)
            return self.fops.from_bits(v, ty.n)
        if k == "p":
            if isinstance(v, Ptr):
                return v
            if isinstance(v, Fl):
                v = self.as_int(s, v, 64)
            return self.int_ptr(s, v)
        raise EngineError("load type %r" % ty)

    def load(self, s, p, ty):
        k = ty.k
        if k in "ifp":
            return self.conv_load(s, self.load_scalar(s, p, (ty.n + 7) // 8 if k == "i" else ty.size), ty)
        if k == "x" and ty.el.k == "i" and ty.el.n == 1:
            raise EngineError("load <n x i1>")
        if k in "ax":
            es = ty.el.size
            return [self.load(s, self.padd(p, i * es), ty.el) for i in range(ty.n)]
        if k == "s":
            return [self.load(s, self.padd(p, ty.offs[i]), e) for i, e in enumerate(ty.els)]
        raise EngineError("load type %r" % ty)

    def padd(self, p, d):
        if d == 0:
            return p
        if type(p.off) is int:
            return Ptr(p.o, (p.off + d) & M64)
        return Ptr(p.o, p.off + d)

    def store(self, s, p, ty, v):
        k = ty.k
        if k in "ifp":
            size = ty.size
            if k == "i":
                size = (ty.n + 7) // 8
                n = size * 8
                if ty.n != n:
                    if type(v) is not int:
                        if isinstance(v, z3.BoolRef):
                            v = z3.If(v, z3.BitVecVal(1, n), z3.BitVecVal(0, n))
                        else:
                            v = z3.ZeroExt(n - ty.n, v)
            self.store_scalar(s, p, size, v)
            return
        if k in "ax":
            es = ty.el.size
            for i in range(ty.n):
                self.store(s, self.padd(p, i * es), ty.el, v[i])
            return
        if k == "s":
            for i, e in enumerate(ty.els):
                self.store(s, self.padd(p, ty.offs[i]), e, v[i])
            return
        raise EngineError("store type %r" % ty)

    def store_scalar(self, s, p, size, v):
        if type(p.o) is not int:
            self.memerr(s, "store through %r" % (p,))
        off = p.off
        if type(off) is not int:
            k = off.get_id()
            if k in s.pins:
                off = s.pins[k][0]
            else:
                off = simp(off)
        o = self.wobj(s, p.o)
        if o.dead:
            self.memerr(s, "use after free " + o.name)
        if o.ro:
            self.memerr(s, "write to constant " + o.name)
        if o.log is not None:
            self.store_log(s, o, off, size, v)
            return
        if type(off) is int:
            if off + size > o.size:
                self.memerr(s, "out-of-bounds store %s[%d..+%d] size %s" % (o.name, off, size, o.size))
            self.store_at(o, off, size, v)
            return
        cand = self.offsets(s, o, off, size)
        if cand is None or isinstance(v, Ptr):
            off = self.conc(s, off, "store offset")
            self.store_at(self.wobj(s, p.o), off, size, v)
            return
        olds = [(c, self.load_at(o, c, size)) for c in cand]
        if any(isinstance(x, Ptr) for _, x in olds):
            off = self.conc(s, off, "store offset")
            self.store_at(self.wobj(s, p.o), off, size, v)
            return
        n = size * 8
        for c, old in olds:
            if isinstance(v, Fl):
                if not isinstance(old, Fl):
                    old = self.fops.from_bits(old, v.w)
                nv = self.fops.ite(off == c, v, old)
            else:
                nv = z3.If(off == c, bv(v, n), bv(self.as_int(s, old, n), n))
            self.store_at(o, c, size, nv)

    def store_at(self, o, off, size, v):
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == size:
            cells[off] = (size, v)
            return
        # remove overlaps
        for q in range(off - 15, off + size):
            c = cells.get(q)
            if c is not None and q + c[0] > off:
                del cells[q]
                sz, ov = c
                # keep the bytes outside [off, off+size)
                for b in range(sz):
                    if not (off <= q + b < off + size):
                        cells[q + b] = (1, self.byte_of(ov, b))
        cells[off] = (size, v)

    def byte_of(self, v, k):
        if isinstance(v, Ptr):
            v = self.ptr_int(v)
        if isinstance(v, Fl):
            v = self.fl_bits_nostate(v)
        if type(v) is int:
            return (v >> (8 * k)) & 255
        return simp(z3.Extract(8 * k + 7, 8 * k, v))

    # opaque (symbolic-size) objects: write log over an uninterpreted initial content
    def load_log(self, s, o, off, size):
        offb = bv(off, 64)
        self.inb(s, o, offb, size)
        g = 4
        if size % g and size != 1:
            raise EngineError("opaque load of size %d" % size)
        if size > g:
            parts = [self.as_int(s, self.load_log(s, o, simp_keep(offb + i * g), g), 32)
                     for i in range(size // g)]
            return simp_keep(z3.Concat(*[bv(x, 32) for x in reversed(parts)]))
        r = None
        default = o.init(offb)
        stack = []
        for (woff, wsize, v) in reversed(o.log):
            if wsize != size:
                raise EngineError("opaque mixed-size access")
            c = simp(bv(woff, 64) == offb)
            if type(c) is int and c == 1:
                default = v
                break
            if type(c) is int:
                continue
            stack.append((c, v))
        r = default
        for c, v in reversed(stack):
            if isinstance(r, Fl) and isinstance(v, Fl):
                r = self.fops.ite(c, v, r)
            else:
                r = z3.If(c, bv(self.as_int(s, v, size * 8), size * 8),
                          bv(self.as_int(s, r, size * 8), size * 8))
        return r

    def store_log(self, s, o, off, size, v):
        offb = bv(off, 64)
        self.inb(s, o, offb, size)
        if size == 4 or size == 1:
            o.log.append((off, size, v))
            return
        if size % 4:
            raise EngineError("opaque store of size %d" % size)
        iv = self.as_int(s, v, size * 8)
        for i in range(size // 4):
            part = (iv >> (32 * i)) & mask(32) if type(iv) is int else z3.Extract(32 * i + 31, 32 * i, iv)
            o.log.append((simp_keep(offb + 4 * i), 4, part))

    def memcpy(self, s, d, sp, n):
        n = self.conc(s, n, "memcpy length")
        if n == 0:
            return
        if type(d.o) is not int or type(sp.o) is not int:
            self.memerr(s, "memcpy through %r %r" % (d, sp))
        so = self.getobj(s, sp.o)
        if so.log is not None or self.getobj(s, d.o).log is not None or \
                type(sp.off) is not int or type(d.off) is not int:
            # element-wise (4 or 1 bytes)
            g = 4 if n % 4 == 0 else 1
            if so.log is None and type(sp.off) is not int:
                sp = Ptr(sp.o, self.conc(s, sp.off, "memcpy src"))
            dob = self.getobj(s, d.o)
            if dob.log is None and type(d.off) is not int:
                d = Ptr(d.o, self.conc(s, d.off, "memcpy dst"))
            vals = [self.load_scalar(s, self.padd(sp, i), g) for i in range(0, n, g)]
            for i, v in enumerate(vals):
                self.store_scalar(s, self.padd(d, i * g), g, v)
            return
        if so.dead or sp.off + n > so.size:
            self.memerr(s, "memcpy source out of bounds")
        do = self.wobj(s, d.o)
        if do.dead or do.ro or d.off + n > do.size:
            self.memerr(s, "memcpy destination out of bounds")
        a, b = sp.off, sp.off + n
        items = []
        covered = []
        cells = so.cells
        if len(cells) < n:
            ks = sorted(q for q in cells if q < b and q + cells[q][0] > a)
        else:
            ks = [q for q in range(a - 15, b) if q in cells and q + cells[q][0] > a]
        pos = a
        base = so.base
        for q in ks:
            sz, v = cells[q]
            if q > pos:
                items.append(("raw", pos, q))
            if q < a or q + sz > b:
                for bb in range(sz):
                    if a <= q + bb < b:
                        items.append(("cell", q + bb, 1, self.byte_of(v, bb)))
            else:
                items.append(("cell", q, sz, v))
            pos = q + sz
        if pos < b:
            items.append(("raw", pos, b))
        dd = d.off - a
        self.clear_range(do, d.off, n)
        for it in items:
            if it[0] == "cell":
                do.cells[it[1] + dd] = (it[2], it[3])
            else:
                self.fill_raw(do, it[1] + dd, base[it[1]:it[2]] if base is not None else None,
                              it[2] - it[1])

    def clear_range(self, o, off, n):
        cells = o.cells
        if len(cells) < n:
            ks = [q for q in cells if q < off + n and q + cells[q][0] > off]
        else:
            ks = [q for q in range(off - 15, off + n) if q in cells and q + cells[q][0] > off]
        for q in ks:
            sz, v = cells.pop(q)
            for b in range(sz):
                if not (off <= q + b < off + n):
                    cells[q + b] = (1, self.byte_of(v, b))

    def fill_raw(self, o, off, data, n):
        """set bytes (already cleared of cells); data None = uninitialised"""
        if data is None:
            data = bytes(n)
            if o.base is None:
                return
        if o.base is None:
            if not any(data):
                # reads of missing bytes yield 0 already
                return
            o.base = bytes(o.size)
        if n == o.size and off == 0:
            o.base = bytes(data)
        else:
            o.base = o.base[:off] + bytes(data) + o.base[off + n:]

    def memset(self, s, d, v, n):
        if type(n) is not int:
            n = self.conc(s, n, "memset length")
        if n == 0:
            return
        if type(d.o) is not int:
            self.memerr(s, "memset through %r" % (d,))
        o = self.wobj(s, d.o)
        if o.log is not None:
            g = 4 if n % 4 == 0 else 1
            if type(v) is not int:
                raise EngineError("memset sym")
            x = int.from_bytes(bytes([v & 255]) * g, "little")
            for i in range(0, n, g):
                self.store_scalar(s, self.padd(d, i), g, x)
            return
        off = self.conc(s, d.off, "memset offset")
        if o.dead or off + n > o.size:
            self.memerr(s, "memset out of bounds")
        o = self.wobj(s, d.o)
        self.clear_range(o, off, n)
        if type(v) is int:
            if (v & 255) == 0 and o.base is None:
                return
            self.fill_raw(o, off, bytes([v & 255]) * n, n)
        else:
            for i in range(n):
                o.cells[off + i] = (1, v)

    # ------------------------------------------------------------ constants
    def const(self, s, c, ty):
        k = c.k
        if k == "int":
            return c.v
        if k == "float":
            return Fl(ty.n, c.v)
        if k == "null":
            return NULL
        if k == "undef" or k == "zero":
            return self.zero(ty)
        if k == "glob":
            return self.globref(s, c.v)
        if k == "agg":
            return [self.const(s, v, t) for t, v in c.v]
        if k == "str":
            return list(c.v)
        if k == "gep":
            bty, base, idx = c.v
            return self.gep(s, self.const(s, base, ir.PTR), bty,
                            [(t, self.const(s, v, t)) for t, v in idx])
        if k == "cast":
            op, fty, v, tty = c.v
            return self.cast(s, op, fty, self.const(s, v, fty), tty)
        if k == "bin":
            op, t, a, b = c.v
            return self.binop(s, op, t, self.const(s, a, t), self.const(s, b, t))
        raise EngineError("const %r" % c)

    def zero(self, ty):
        k = ty.k
        if k == "i":
            return 0
        if k == "f":
            return Fl(ty.n, 0)
        if k == "p":
            return NULL
        if k in "ax":
            return [self.zero(ty.el) for _ in range(ty.n)]
        if k == "s":
            return [self.zero(e) for e in ty.els]
        raise EngineError("zero %r" % ty)

    def globref(self, s, name):
        p = self.globptr.get(name)
        if p is not None:
            return p
        g = self.mod.glob(name)
        if g is None:
            # function
            p = Ptr("fn:" + name, 0)
            self.globptr[name] = p
            return p
        if g["kind"] == "alias":
            p = self.const(s, g["to"], ir.PTR)
            self.globptr[name] = p
            return p
        oid = 1_000_000 + len(self.globptr)
        o = Obj(oid, max(g["ty"].size, 0), -1, "@" + name, None, False)
        o.base = bytes(o.size)
        self.globmem[oid] = o
        p = Ptr(oid, 0)
        self.globptr[name] = p
        if g["init"] is not None:
            self.init_obj(s, o, 0, g["ty"], g["init"])
        o.ro = bool(g["const"])
        return p

    def init_obj(self, s, o, off, ty, c):
        if c.k in ("zero", "undef"):
            return
        if c.k == "str":
            b = c.v
            o.base = o.base[:off] + b + o.base[off + len(b):]
            return
        if c.k == "agg":
            if ty.k in "ax":
                for i, (t, v) in enumerate(c.v):
                    self.init_obj(s, o, off + i * ty.el.size, ty.el, v)
            else:
                for i, (t, v) in enumerate(c.v):
                    self.init_obj(s, o, off + ty.offs[i], t, v)
            return
        v = self.const(s, c, ty)
        o.cells[off] = (ty.size, v)

    def ev(self, s, regs, x, ty):
        if type(x) is Reg:
            return regs[x.n]
        c = x
        if c.k == "int":
            return c.v
        if c.k in ("float", "null"):
            return self.const(s, c, ty)
        return self.const(s, c, ty)

    # ------------------------------------------------------------ scalar ops
    def binop(self, s, op, ty, a, b):
        if ty.k == "x":
            return [self.binop(s, op, ty.el, x, y) for x, y in zip(a, b)]
        n = ty.n
        if type(a) is int and type(b) is int:
            m = (1 << n) - 1
            if op == "add":
                return (a + b) & m
            if op == "sub":
                return (a - b) & m
            if op == "mul":
                return (a * b) & m
            if op == "and":
                return a & b
            if op == "or":
                return a | b
            if op == "xor":
                return a ^ b
            if op == "shl":
                return (a << b) & m if b < n else 0
            if op == "lshr":
                return a >> b if b < n else 0
            if op == "ashr":
                return (sgn(a, n) >> min(b, n - 1)) & m
            if op == "udiv":
                if b == 0:
                    self.memerr(s, "udiv by zero")
                return a // b
            if op == "urem":
                if b == 0:
                    self.memerr(s, "urem by zero")
                return a % b
            sa, sb = sgn(a, n), sgn(b, n)
            if sb == 0:
                self.memerr(s, "sdiv by zero")
            q = abs(sa) // abs(sb)
            if (sa < 0) != (sb < 0):
                q = -q
            if op == "sdiv":
                return q & m
            if op == "srem":
                return (sa - q * sb) & m
            raise EngineError(op)
        if n == 1:
            A, B = tobool(a), tobool(b)
            if op == "and":
                if type(a) is int:
                    return b if a else 0
                if type(b) is int:
                    return a if b else 0
                return z3.And(A, B)
            if op == "or":
                if type(a) is int:
                    return 1 if a else b
                if type(b) is int:
                    return 1 if b else a
                return z3.Or(A, B)
            if op in ("xor", "add", "sub"):
                if type(b) is int:
                    return z3.Not(A) if b else a
                if type(a) is int:
                    return z3.Not(B) if a else b
                return z3.Xor(A, B)
            raise EngineError("i1 " + op)
        # cheap identities
        if type(b) is int:
            if b == 0 and op in ("add", "sub", "or", "xor", "shl", "lshr", "ashr"):
                return a
            if b == 0 and op in ("and", "mul"):
                return 0
            if b == 1 and op in ("mul", "udiv", "sdiv"):
                return a
            if b == mask(n) and op == "and":
                return a
        elif type(a) is int:
            if a == 0 and op in ("add", "or", "xor"):
                return b
            if a == 0 and op in ("and", "mul", "shl", "lshr", "ashr"):
                return 0
            if a == 1 and op == "mul":
                return b
            if a == mask(n) and op == "and":
                return b
        A, B = bv(a, n), bv(b, n)
        if op == "add":
            r = A + B
        elif op == "sub":
            r = A - B
        elif op == "mul":
            r = A * B
        elif op == "and":
            r = A & B
        elif op == "or":
            r = A | B
        elif op == "xor":
            r = A ^ B
        elif op == "shl":
            r = A << B
        elif op == "lshr":
            r = z3.LShR(A, B)
        elif op == "ashr":
            r = A >> B
        elif op == "udiv":
            self.nonzero(s, B, n)
            r = z3.UDiv(A, B)
        elif op == "urem":
            self.nonzero(s, B, n)
            r = z3.URem(A, B)
        elif op == "sdiv":
            self.nonzero(s, B, n)
            r = A / B
        elif op == "srem":
            self.nonzero(s, B, n)
            r = z3.SRem(A, B)
        else:
            raise EngineError(op)
        return simp(r)

    def nonzero(self, s, B, n):
        if z3.is_bv_value(B):
            if B.as_long() == 0:
                self.memerr(s, "division by zero (UB)")
            return
        r, _ = self.sat(s, B == 0)
        if r is not False:
            self.memerr(s, "possible division by zero (UB)")

    def icmp(self, s, pred, ty, a, b):
        if ty.k == "x":
            return [self.icmp(s, pred, ty.el, x, y) for x, y in zip(a, b)]
        if ty.k == "p":
            if a.o == b.o or (a.o is None and b.o is None):
                a, b, n = a.off, b.off, 64
            else:
                if pred == "eq":
                    return 0
                if pred == "ne":
                    return 1
                a, b, n = self.ptr_int(a), self.ptr_int(b), 64
        else:
            n = ty.n
        if type(a) is int and type(b) is int:
            if pred == "eq":
                return int(a == b)
            if pred == "ne":
                return int(a != b)
            if pred[0] == "s":
                a, b = sgn(a, n), sgn(b, n)
            p = pred[1:]
            return int(a < b if p == "lt" else a <= b if p == "le" else a > b if p == "gt" else a >= b)
        if n == 1:
            A, B = tobool(a), tobool(b)
            if pred == "eq":
                return simp(A == B)
            if pred == "ne":
                return simp(A != B)
            if pred in ("ult", "sgt"):
                return simp(z3.And(z3.Not(A), B))
            if pred in ("ugt", "slt"):
                return simp(z3.And(A, z3.Not(B)))
            if pred in ("ule", "sge"):
                return simp(z3.Or(z3.Not(A), B))
            return simp(z3.Or(A, z3.Not(B)))
        if self.fops.intof:
            r = self.fops.icmp(pred, a, b)
            if r is not None:
                return r
        A, B = bv(a, n), bv(b, n)
        if pred == "eq":
            r = A == B
        elif pred == "ne":
            r = A != B
        elif pred == "ult":
            r = z3.ULT(A, B)
        elif pred == "ule":
            r = z3.ULE(A, B)
        elif pred == "ugt":
            r = z3.UGT(A, B)
        elif pred == "uge":
            r = z3.UGE(A, B)
        elif pred == "slt":
            r = A < B
        elif pred == "sle":
            r = A <= B
        elif pred == "sgt":
            r = A > B
        else:
            r = A >= B
        return simp(r)

    def cast(self, s, op, fty, v, ty):
        if fty.k == "x" and op not in ("bitcast",):
            return [self.cast(s, op, fty.el, x, ty.el) for x in v]
        if op == "zext":
            if type(v) is int:
                return v
            if fty.n == 1:
                return z3.If(v, z3.BitVecVal(1, ty.n), z3.BitVecVal(0, ty.n))
            return z3.ZeroExt(ty.n - fty.n, v)
        if op == "sext":
            if type(v) is int:
                return sgn(v, fty.n) & mask(ty.n)
            if fty.n == 1:
                return z3.If(v, z3.BitVecVal(mask(ty.n), ty.n), z3.BitVecVal(0, ty.n))
            return z3.SignExt(ty.n - fty.n, v)
        if op == "trunc":
            if type(v) is int:
                return v & mask(ty.n)
            if ty.n == 1:
                return simp(z3.Extract(0, 0, v) == 1)
            return simp(z3.Extract(ty.n - 1, 0, v))
        if op in ("ptrtoint", "ptrtoaddr"):
            return self.trunc(self.ptr_int(v), 64, ty.n)
        if op == "inttoptr":
            if type(v) is not int and v.size() < 64:
                v = z3.ZeroExt(64 - v.size(), v)
            return self.int_ptr(s, v)
        if op == "addrspacecast":
            return v
        if op == "bitcast":
            return self.bitcast(s, fty, v, ty)
        if op == "fpext" or op == "fptrunc":
            return self.fops.fconv(s, v, ty.n)
        if op in ("uitofp", "sitofp"):
            n = fty.n
            if isinstance(v, z3.BoolRef):
                n = 8
                v = z3.If(v, z3.BitVecVal(255 if op == "sitofp" else 1, 8), z3.BitVecVal(0, 8))
            return self.fops.from_int(s, v, n, op == "sitofp", ty.n)
        if op in ("fptoui", "fptosi"):
            return self.fops.to_int(s, v, ty.n, op == "fptosi", sat=False)
        raise EngineError("cast " + op)

    def bitcast(self, s, fty, v, ty):
        # through raw little-endian bytes of scalar elements
        if fty.k == "i" and ty.k == "f":
            return self.fops.from_bits(v, ty.n)
        if fty.k == "f" and ty.k == "i":
            return self.as_int(s, v, ty.n)
        if fty.k == ty.k == "i" or fty.k == ty.k == "p" or fty.k == ty.k == "f":
            return v
        # generic: flatten to one big integer
        total, n = self.flatten(s, fty, v)
        return self.unflatten(s, ty, total)

    def flatten(self, s, ty, v):
        if ty.k == "x":
            parts = [self.flatten(s, ty.el, x) for x in v]
            n = sum(p[1] for p in parts)
            if all(type(p[0]) is int for p in parts):
                r = 0
                sh = 0
                for x, w in parts:
                    r |= x << sh
                    sh += w
                return r, n
            if len(parts) == 1:
                return parts[0]
            return simp(z3.Concat(*[bv(x, w) for x, w in reversed(parts)])), n
        if ty.k == "i":
            return v, ty.n
        if ty.k == "f":
            return self.as_int(s, v, ty.n), ty.n
        if ty.k == "p":
            return self.ptr_int(v), 64
        raise EngineError("flatten %r" % ty)

    def unflatten(self, s, ty, v):
        def ext(v, lo, w):
            if type(v) is int:
                return (v >> lo) & mask(w)
            if w == 1:
                return simp(z3.Extract(lo, lo, v) == 1)
            return simp(z3.Extract(lo + w - 1, lo, v))
        if ty.k == "x":
            w = ty.el.n if ty.el.k in "if" else 64
            return [self.unflatten(s, ty.el, ext(v, i * w, w)) for i in range(ty.n)]
        if ty.k == "i":
            return v
        if ty.k == "f":
            return self.fops.from_bits(v, ty.n)
        if ty.k == "p":
            return self.int_ptr(s, v)
        raise EngineError("unflatten %r" % ty)

    def gep(self, s, base, ty, idx):
        off = 0
        first = True
        sym = None
        for it, v in idx:
            if first:
                stride = ty.size
                first = False
            elif ty.k in "ax":
                ty = ty.el
                stride = ty.size
            else:
                off += ty.offs[v]
                ty = ty.els[v]
                continue
            if type(v) is int:
                off += sgn(v, it.n) * stride
            else:
                e = v
                if it.n < 64:
                    e = z3.SignExt(64 - it.n, e)
                if stride != 1:
                    e = e * stride
                sym = e if sym is None else sym + e
        if sym is None:
            return self.padd(base, off) if off else base
        e = sym
        if off:
            e = e + (off & M64)
        if type(base.off) is int:
            if base.off:
                e = e + base.off
        else:
            e = e + base.off
        r = simp(e)
        return Ptr(base.o, r)

    def select(self, s, c, a, b):
        """ite of values; may raise Fork for pointers"""
        if a is b:
            return a
        if type(a) is int and type(b) is int and a == b:
            return a
        if isinstance(a, Fl) or isinstance(b, Fl):
            return self.fops.ite(c, a, b)
        if isinstance(a, Ptr):
            if a.o == b.o:
                if type(a.off) is int and type(b.off) is int and a.off == b.off:
                    return a
                return Ptr(a.o, simp(z3.If(c, bv(a.off, 64), bv(b.off, 64))))
            return None
        if isinstance(a, list):
            r = [self.select(s, c, x, y) for x, y in zip(a, b)]
            if any(x is None for x in r):
                return None
            return r
        if isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef):
            return simp(z3.If(c, tobool(a), tobool(b)))
        if type(a) is int and type(b) is int:
            return None  # caller knows the width
        n = a.size() if type(a) is not int else b.size()
        return simp_keep(z3.If(c, bv(a, n), bv(b, n)))

    # ------------------------------------------------------------ events
    def loc_of(self, s):
        for f in reversed(s.frames):
            if f.i < len(f.code):
                m = re.search(r"!dbg (!\d+)", f.code[f.i].line or "")
                if m:
                    return self.mod_loc(m.group(1))
        return s.frames[-1].fn.name if s.frames else "?"

    def mod_loc(self, mid):
        import dbginfo
        return dbginfo.get(self.mod).loc(mid)

    def tape_from(self, s, m):
        out = []
        for kind, e in s.nds:
            if type(e) is int:
                out.append((kind, e))
                continue
            if isinstance(e, Fl):
                e = self.fops.nd_bits(e, m)
                out.append((kind, e))
                continue
            v = m.eval(e, model_completion=True)
            i = self.fops.intof.get(e.get_id()) if self.fops.intof and z3.is_bv(e) else None
            if i is not None and m[i[0].decl()] is not None:
                out.append((kind, m[i[0].decl()].as_long()))
                continue
            if isinstance(e, z3.BoolRef):
                out.append((kind, 1 if z3.is_true(v) else 0))
            else:
                out.append((kind, v.as_long()))
        return out

    def opq_from(self, s, m):
        """contents of opaque objects that the model determines"""
        out = []
        for (size, init) in s.opq:
            sz = size if type(size) is int else m.eval(size, model_completion=True).as_long()
            ent = []
            fi = m[init]
            if fi is not None and not isinstance(fi, z3.FuncInterp):
                fi = None
            els = 0
            if fi is not None:
                try:
                    for k in range(fi.num_entries()):
                        en = fi.entry(k)
                        ent.append((en.arg_value(0).as_long(), en.value().as_long()))
                    ev = fi.else_value()
                    els = ev.as_long() if ev is not None and z3.is_bv_value(ev) else 0
                except z3.Z3Exception:
                    pass
            out.append((sz, els, ent))
        return out

    def goal(self, s, neg):
        """(constraints, hard?)"""
        cs = list(s.pc) + ([neg] if neg is not None else [])
        hard = any(has_hard(c) for c in cs)
        if hard or self.fops.sidec:
            side = self.fops.side(cs)
            if side:
                cs, hard = cs + side, True
        return cs, hard

    def query(self, s, neg):
        """decide pc /\\ neg.  -> ('unsat',None) ('sat',model) ('unknown',None)"""
        cs, hard = self.goal(s, neg)
        if hard:
            return self.solve_hard(cs)
        t = time.time()
        self._sync(s.pc)
        self.stats.queries += 1
        r = self.solver.check(*([neg] if neg is not None else []))
        self.stats.solver_s += time.time() - t
        if r == z3.sat:
            return "sat", self.solver.model()
        if r == z3.unsat:
            return "unsat", None
        return self.solve_hard(cs)

    def violation(self, s, kind, msg, m):
        loc = self.loc_of(s)
        v = Violation(kind, msg, self.tape_from(s, m), self.opq_from(s, m), loc)
        self.violations.append(v)

    def do_check(self, s, c, msg):
        self.stats.checks += 1
        s.nchk += 1
        self.checks_seen[msg] = self.checks_seen.get(msg, 0) + 1
        if self.tape is not None:
            c = c if type(c) is int else None
            if c is None:
                raise EngineError("concrete run with symbolic check")
            if not c:
                self.violations.append(Violation("check", msg, [], [], self.loc_of(s)))
                raise PathEnd("check")
            return
        if type(c) is int and c:
            # true on this path whatever the inputs
            self.stats.checks_trivial += 1
            return
        neg = None if type(c) is int else z3.Not(tobool(c))
        cs, hard = self.goal(s, neg)
        if hard:
            self.defer(s, cs, "check", msg)
            if type(c) is int:
                raise PathEnd("check")
            return
        r, m = self.query(s, neg)
        if r == "sat":
            self.violation(s, "check", msg, m)
            raise PathEnd("check")
        if r == "unsat":
            if type(c) is int:
                raise PathEnd("infeasible")
            self.stats.checks_proved += 1
            self.add_pc(s, tobool(c))
            return
        self.undecided.append("check %r: solver unknown" % msg)

    def do_panic(self, s, what):
        if self.tape is not None:
            self.violations.append(Violation("panic" if not s.may_panic else "okpanic", what, [], [],
                                             self.loc_of(s)))
            raise PathEnd("panic")
        if s.may_panic:
            self.stats.checks += 1
            self.stats.checks_trivial += 1
            raise PathEnd("panic(allowed)")
        cs, hard = self.goal(s, None)
        if hard:
            self.defer(s, cs, "panic", what)
            raise PathEnd("panic")
        r, m = self.query(s, None)
        if r == "sat":
            self.violation(s, "panic", what, m)
        elif r != "unsat":
            self.undecided.append("panic %s: solver unknown" % what)
        raise PathEnd("panic")

    # ------------------------------------------------------------ run
    def witness(self, s, why):
        """a concrete input that drives the real code down this path (replayed natively)"""
        n = self.stats.paths
        if len(self.witnesses) >= self.o["witnesses"] or (n & (n - 1)) or self.wit_tries > 8:
            return
        self.wit_tries += 1
        cs, hard = self.goal(s, None)
        if hard:
            try:
                r, m = self.solve_hard(cs, 4000 if self.witnesses else 15000)
            except EngineError:
                return
        else:
            r, m = self.query(s, None)
        if r == "sat":
            outs = []
            for o in s.outs:
                if type(o) is int:
                    outs.append(o)
                else:
                    v = m.eval(o, model_completion=True)
                    outs.append(v.as_long() if z3.is_bv_value(v) else None)
            self.witnesses.append(dict(tape=self.tape_from(s, m), opq=self.opq_from(s, m), checks=s.nchk,
                                       outs=outs, why=why))

    def run(self):
        try:
            self.run_()
        finally:
            self.kill()

    def run_(self):
        g = self.mod.glob(self.entry) if self.mod.fn(self.entry) is None else None
        fn = self.mod.fn(g["to"].v if g and g["kind"] == "alias" and g["to"].k == "glob" else self.entry)
        if fn is None:
            raise EngineError("no entry " + self.entry)
        s = State()
        s.frames.append(Frame(fn, {}, None))
        work = [s]
        self.work = work
        while work:
            s = work.pop()
            self.check_budget()
            if self.o["cancel"] and self.o["cancel"]():
                raise EngineError("cancelled")
            try:
                self.run_state(s)
            except PathEnd as e:
                if e.why == "infeasible":
                    self.stats.pruned += 1
                else:
                    self.stats.paths += 1
                if self.tape is None and (e.why == "done" or e.why == "panic(allowed)"):
                    self.witness(s, e.why)
            if self.pending or self.running:
                self.pump()
            if self.violations and self.o["stop_on_violation"]:
                break
            if self.stats.paths > self.o["max_paths"]:
                raise EngineError("path budget exhausted")
        self.drain()

    def run_state(self, s):
        self.cur = s
        frames = s.frames
        step = self.step
        n = 0
        while True:
            f = frames[-1]
            ins = f.code[f.i]
            n += 1
            if n & 0xfff == 0:
                self.check_budget()
                s.steps += 0
            self.stats.steps += 1
            try:
                step(s, f, ins)
            except Fork as fk:
                alts = fk.alts
                self.stats.forks += len(alts) - 1
                rest = alts[1:]
                children = []
                for c, pin, m in rest:
                    ch = s.fork()
                    self.add_pc(ch, c, m)
                    if pin:
                        ch.pins[pin[0]] = (pin[1], pin[2])
                    children.append(ch)
                c, pin, m = alts[0]
                self.add_pc(s, c, m)
                if pin:
                    s.pins[pin[0]] = (pin[1], pin[2])
                for ch in reversed(children):
                    self.work.append(ch)
                frames = s.frames
            if self.stats.steps > self.o["max_steps"]:
                raise EngineError("step budget exhausted")

    def goto(self, s, f, target):
        self.hits.add((f.fn.name, target))
        f.prev = f.blk
        f.blk = target
        code = f.fn.blocks[target]
        f.code = code
        # phis, evaluated simultaneously
        i = 0
        upd = None
        while code[i].op == "phi":
            ins = code[i]
            v = self.ev(s, f.regs, ins.x[f.prev], ins.ty)
            if upd is None:
                upd = []
            upd.append((ins.res, v))
            i += 1
        if upd:
            for k, v in upd:
                f.regs[k] = v
        f.i = i

    def branch(self, s, f, c, ta, tb):
        """c symbolic"""
        c = simp(tobool(c))
        if type(c) is int:
            self.goto(s, f, ta if c else tb)
            return
        k = c.get_id()
        if k in s.pins:
            self.goto(s, f, ta if s.pins[k][0] else tb)
            return
        if self.tape is not None:
            raise EngineError("symbolic branch in a concrete run: %s" % c)
        nc = z3.Not(c)
        okt, mt = self.feasible(s, c)
        okf, mf = self.feasible(s, nc) if okt else (True, None)
        if okt and okf and self.ifc and self.if_convert(s, f, c, ta, tb):
            return
        if okt and okf:
            self.stats.forks += 1
            ch = s.fork()
            self.add_pc(ch, nc, mf)
            ch.pins[k] = (0, c)
            cf = ch.frames[-1]
            self.goto(ch, cf, tb)
            self.work.append(ch)
            self.add_pc(s, c, mt)
            s.pins[k] = (1, c)
            self.goto(s, f, ta)
        elif okt:
            s.pins[k] = (1, c)
            self.goto(s, f, ta)
        else:
            s.pins[k] = (0, c)
            self.goto(s, f, tb)

    # if-conversion: a small acyclic region without side effects between a branch and the block
    # where its arms meet again is executed once, its results being conditional values
    def ifc_region(self, fn, src, ta, tb):
        k = (fn.name, src, ta, tb)
        r = self.ifc_cache.get(k)
        if r is None:
            r = self.ifc_cache[k] = self.ifc_find(fn, src, ta, tb) or ()
        return r

    def ifc_succ(self, code):
        t = code[-1]
        if t.op == "br":
            return [t.x]
        if t.op == "cbr":
            return [t.a, t.b]
        return None

    def ifc_find(self, fn, src, ta, tb):
        if ta == tb:
            return None
        pure = {}

        def ok(b):
            if b not in pure:
                code = fn.blocks[b]
                pure[b] = self.ifc_succ(code) is not None and all(ifc_pure(i) for i in code[:-1])
            return pure[b]

        def explore(start, stop):
            """blocks on paths from start to stop in topological order, or None"""
            state, order = {}, []

            def go(b):
                if b == stop:
                    return True
                if b == src or state.get(b) == 1:
                    return False
                if state.get(b) == 2:
                    return True
                if not ok(b) or len(state) > 40:
                    return False
                state[b] = 1
                for t in self.ifc_succ(fn.blocks[b]):
                    if not go(t):
                        return False
                state[b] = 2
                order.append(b)
                return True
            for st in start:
                if not go(st):
                    return None
            return order[::-1]
        # candidates for the meeting point, nearest first
        cand, todo = [], [ta, tb]
        while todo and len(cand) < 60:
            b = todo.pop(0)
            if b in cand:
                continue
            cand.append(b)
            if ok(b):
                todo += self.ifc_succ(fn.blocks[b])
        best = None
        for j in cand:
            o = explore([ta, tb], j)
            if o is None:
                continue
            # entered through the branch only
            if best is None or len(o) < len(best[1]):
                best = (j, o)
        return best

    def if_convert(self, s, f, c, ta, tb):
        src = f.blk
        reg = self.ifc_region(f.fn, src, ta, tb)
        if not reg:
            return False
        join, order = reg
        if "phi" != f.fn.blocks[join][0].op and not order:
            return False
        saved = (f.regs, f.blk, f.prev, f.code, f.i)
        f.regs = dict(saved[0])
        npc, nfresh = len(s.pc), self.fresh
        self.spec = True
        try:
            edges = {}                       # (from, to) -> guard
            for t, g in ((ta, c), (tb, z3.Not(c))):
                edges.setdefault((src, t), []).append(g)

            def phis(b):
                code = f.fn.blocks[b]
                ins_ = [(p, z3.Or(*g) if len(g) > 1 else g[0]) for (p, t), g in edges.items() if t == b]
                out = []
                i = 0
                while code[i].op == "phi":
                    ins = code[i]
                    v = None
                    for p, g in ins_:
                        w = self.ev(s, f.regs, ins.x[p], ins.ty)
                        v = w if v is None else _sel1(self, s, simp(g), w, v, ins.ty)
                    out.append((ins.res, v))
                    i += 1
                for k, v in out:
                    f.regs[k] = v
                return i
            for b in order:
                gs = [g for (p, t), l in edges.items() if t == b for g in l]
                if not gs:
                    continue
                g = simp(z3.Or(*gs)) if len(gs) > 1 else gs[0]
                f.code = code = f.fn.blocks[b]
                f.prev, f.blk = None, b
                f.i = phis(b)
                while f.i < len(code) - 1:
                    i = f.i
                    ins = code[i]
                    if ins.op == "call" and ins.a.v in IFC_SKIP:
                        f.i += 1
                        continue
                    self.step(s, f, ins)
                    if f.i != i + 1 or f.code is not code or s.frames[-1] is not f:
                        raise Abort()
                t = code[-1]
                gz = g if not type(g) is int else z3.BoolVal(bool(g))
                if t.op == "br":
                    edges.setdefault((b, t.x), []).append(gz)
                else:
                    cc = self.ev(s, f.regs, t.c, None)
                    if type(cc) is not int:
                        cc = simp(tobool(cc))
                    if type(cc) is int:
                        edges.setdefault((b, t.a if cc else t.b), []).append(gz)
                    else:
                        edges.setdefault((b, t.a), []).append(z3.And(gz, cc))
                        edges.setdefault((b, t.b), []).append(z3.And(gz, z3.Not(cc)))
            i = phis(join)
            if len(s.pc) != npc:
                raise Abort()
        except (Abort, Fork, PathEnd, EngineError, KeyError) as x:
            f.regs, f.blk, f.prev, f.code, f.i = saved
            del s.pc[npc:]
            return False
        finally:
            self.spec = False
        for b in order:
            self.hits.add((f.fn.name, b))
        self.hits.add((f.fn.name, join))
        self.stats.merged = getattr(self.stats, "merged", 0) + 1
        f.prev, f.blk, f.code, f.i = None, join, f.fn.blocks[join], i
        return True

    def fork_bool(self, s, c):
        """decide a symbolic Bool by forking; returns 0/1"""
        c = simp(tobool(c))
        if type(c) is int:
            return c
        k = c.get_id()
        if k in s.pins:
            return s.pins[k][0]
        nc = z3.Not(c)
        alts = []
        ok, m = self.feasible(s, c)
        if ok:
            alts.append((c, (k, 1, c), m))
        ok2, m2 = self.feasible(s, nc)
        if ok2:
            alts.append((nc, (k, 0, c), m2))
        if not alts:
            raise PathEnd("infeasible")
        raise Fork(alts)

    def step(self, s, f, ins):
        op = ins.op
        regs = f.regs
        ev = self.ev
        h = DISPATCH.get(op)
        if h is None:
            raise EngineError("opcode %s: %s" % (op, ins.line))
        h(self, s, f, ins, regs, ev)

    # calls
    def call(self, s, f, ins, regs, ev):
        callee = ins.a
        if type(callee) is Const and callee.k == "asm":
            if callee.v[0] == '""':
                f.i += 1
                return
            raise EngineError("inline asm: %s" % ins.line)
        if type(callee) is Reg or callee.k != "glob":
            p = ev(s, regs, callee, ir.PTR)
            if type(p.o) is not str:
                raise EngineError("indirect call through %r" % (p,))
            name = p.o[3:]
        else:
            name = callee.v
        if name.startswith("llvm."):
            h = self.intr.get(name)
            if h is None:
                h = self.intr_lookup(name)
            args = [None if v is None else ev(s, regs, v, t) for t, v in ins.b]
            r = h(s, ins, args)
            if ins.res is not None:
                regs[ins.res] = r
            self.after_call(s, f, ins)
            return
        name = self.resolve(name)
        h = self.ext.get(name)
        if h is not None:
            args = [None if v is None else ev(s, regs, v, t) for t, v in ins.b]
            r = h(s, ins, args)
            if ins.res is not None:
                regs[ins.res] = r
            self.after_call(s, f, ins)
            return
        if PANIC_PAT.search(name):
            self.do_panic(s, self.short(name))
        hk = self.hook(name)
        if hk is not None:
            args = [None if v is None else ev(s, regs, v, t) for t, v in ins.b]
            r = hk(s, ins, args)
            if ins.res is not None:
                regs[ins.res] = r
            self.after_call(s, f, ins)
            return
        fn = self.mod.fn(name)
        if fn is None:
            raise EngineError("call to unmodelled external %s" % name)
        self.hits.add((name, fn.entry))
        args = [ev(s, regs, v, t) for t, v in ins.b]
        if len(s.frames) > 400:
            raise EngineError("call depth")
        nf = Frame(fn, {}, ins.res)
        nf.regs = {pn: a for (pn, _), a in zip(fn.params, args)}
        nf.invoke = ins.x
        if ins.x is None:
            f.i += 1
        s.frames.append(nf)

    def after_call(self, s, f, ins):
        # extern handlers may have pushed frames; they act on f only
        if ins.x is not None and ins.op == "call" and type(ins.x) is str:
            self.goto(s, f, ins.x)
        else:
            f.i += 1

    _res = None

    def resolve(self, name):
        if "5stdio" in name and PRINT_PAT.search(name):
            # print!/eprint!: formatting is not executed; the harness may count the calls
            return "hx_printed" if name.find("_eprint") < 0 and self.mod.fn("hx_printed") else "hx_nothing"
        while True:
            g = self.mod.gsrc.get(name)
            if g is None:
                return name
            gg = self.mod.glob(name)
            if gg["kind"] == "alias" and gg["to"].k == "glob":
                name = gg["to"].v
            else:
                return name

    def hook(self, name):
        return None

    def short(self, name):
        ids = re.findall(r"(?<=\d)[a-z_][A-Za-z_0-9]*", name)
        return name if len(name) < 60 else "..." + name[-60:]

    def intr_lookup(self, name):
        import intrin
        h = intrin.lookup(self, name)
        if h is None:
            raise EngineError("intrinsic " + name)
        self.intr[name] = h
        return h

    def ret(self, s, v):
        fr = s.frames.pop()
        for oid in fr.allocas:
            o = s.mem.pop(oid, None)
        if not s.frames:
            raise PathEnd("done")
        f = s.frames[-1]
        if fr.res is not None:
            f.regs[fr.res] = v
        if fr.invoke is not None:
            self.goto(s, f, fr.invoke)

    def functions(self):
        """source functions whose code was executed symbolically (from !dbg)"""
        import dbginfo
        d = dbginfo.get(self.mod)
        ids = set()
        for fn, blk in self.hits:
            f = self.mod.fn(fn)
            for ins in f.blocks[blk]:
                m = re.search(r"!dbg (!\d+)", ins.line or "")
                if m:
                    ids.add(m.group(1))
        out = set()
        for i in ids:
            for nm, file, _ in d.funcs(i):
                out.add((nm, file))
        return out

    def newvar(self, prefix, n):
        self.fresh += 1
        return z3.BitVec("%s!%d" % (prefix, self.fresh), n)

    def newreal(self, prefix):
        self.fresh += 1
        return z3.Real("%s!%d" % (prefix, self.fresh))

    def candidate(self, s, kind, msg, m):
        """something that may show up as a failure: only native replay can tell"""
        self.violations.append(Violation("maybe " + kind, msg, self.tape_from(s, m), self.opq_from(s, m),
                                         self.loc_of(s)))


def simp_keep(e):
    r = z3.simplify(e)
    if z3.is_bv_value(r):
        return r.as_long()
    return r


# ------------------------------------------------------------------ dispatch

def _bin(E, s, f, ins, regs, ev):
    regs[ins.res] = E.binop(s, ins.op, ins.ty, ev(s, regs, ins.a, ins.ty), ev(s, regs, ins.b, ins.ty))
    f.i += 1


def _fbin(E, s, f, ins, regs, ev):
    a = ev(s, regs, ins.a, ins.ty)
    b = ev(s, regs, ins.b, ins.ty)
    if ins.ty.k == "x":
        regs[ins.res] = [E.fops.bin(s, ins.op, x, y) for x, y in zip(a, b)]
    else:
        regs[ins.res] = E.fops.bin(s, ins.op, a, b)
    f.i += 1


def _fneg(E, s, f, ins, regs, ev):
    a = ev(s, regs, ins.a, ins.ty)
    regs[ins.res] = [E.fops.neg(s, x) for x in a] if ins.ty.k == "x" else E.fops.neg(s, a)
    f.i += 1


def _icmp(E, s, f, ins, regs, ev):
    regs[ins.res] = E.icmp(s, ins.x, ins.ty, ev(s, regs, ins.a, ins.ty), ev(s, regs, ins.b, ins.ty))
    f.i += 1


def _fcmp(E, s, f, ins, regs, ev):
    a = ev(s, regs, ins.a, ins.ty)
    b = ev(s, regs, ins.b, ins.ty)
    if ins.ty.k == "x":
        regs[ins.res] = [E.fops.cmp(s, ins.x, x, y) for x, y in zip(a, b)]
    else:
        regs[ins.res] = E.fops.cmp(s, ins.x, a, b)
    f.i += 1


def _cast(E, s, f, ins, regs, ev):
    regs[ins.res] = E.cast(s, ins.op, ins.x, ev(s, regs, ins.a, ins.x), ins.ty)
    f.i += 1


def _load(E, s, f, ins, regs, ev):
    regs[ins.res] = E.load(s, ev(s, regs, ins.a, ir.PTR), ins.ty)
    f.i += 1


def _store(E, s, f, ins, regs, ev):
    E.store(s, ev(s, regs, ins.b, ir.PTR), ins.ty, ev(s, regs, ins.a, ins.ty))
    f.i += 1


def _gep(E, s, f, ins, regs, ev):
    base = ev(s, regs, ins.a, ir.PTR)
    regs[ins.res] = E.gep(s, base, ins.ty, [(t, ev(s, regs, v, t)) for t, v in ins.b])
    f.i += 1


def _select(E, s, f, ins, regs, ev):
    c = ev(s, regs, ins.c, ins.x)
    a = ev(s, regs, ins.a, ins.ty)
    b = ev(s, regs, ins.b, ins.ty)
    if ins.x.k == "x":
        out = []
        for ci, x, y in zip(c, a, b):
            out.append(_sel1(E, s, ci, x, y, ins.ty.el))
        regs[ins.res] = out
    else:
        regs[ins.res] = _sel1(E, s, c, a, b, ins.ty)
    f.i += 1


def _sel1(E, s, c, a, b, ty):
    if type(c) is int:
        return a if c else b
    if ty.k == "i" and type(a) is int and type(b) is int:
        if a == b:
            return a
        if ty.n == 1:
            return c if a else z3.Not(c)
        return z3.If(c, z3.BitVecVal(a, ty.n), z3.BitVecVal(b, ty.n))
    if ty.k in "as" and not isinstance(a, list):
        raise EngineError("select agg")
    if ty.k in "ax":
        return [_sel1(E, s, c, x, y, ty.el) for x, y in zip(a, b)]
    if ty.k == "s":
        return [_sel1(E, s, c, x, y, t) for x, y, t in zip(a, b, ty.els)]
    r = E.select(s, c, a, b)
    if r is None:
        return a if E.fork_bool(s, c) else b
    return r


def _br(E, s, f, ins, regs, ev):
    E.goto(s, f, ins.x)


def _cbr(E, s, f, ins, regs, ev):
    c = ev(s, regs, ins.c, None)
    if type(c) is int:
        E.goto(s, f, ins.a if c else ins.b)
    else:
        E.branch(s, f, c, ins.a, ins.b)


def _switch(E, s, f, ins, regs, ev):
    v = ev(s, regs, ins.a, ins.ty)
    if type(v) is not int and not isinstance(v, z3.BoolRef):
        v = simp(v)
    if type(v) is int:
        for cv, t in ins.x:
            if cv == v:
                E.goto(s, f, t)
                return
        E.goto(s, f, ins.b)
        return
    n = ins.ty.n
    if n == 1:
        v = bv(v, 1)
    # group by target
    groups = {}
    for cv, t in ins.x:
        groups.setdefault(t, []).append(cv)
    key = (id(ins), v.get_id())
    if key in s.pins:
        t = s.pins[key][0]
        E.goto(s, f, t)
        return
    alts = []
    allc = []
    for t, cvs in groups.items():
        c = z3.Or(*[v == z3.BitVecVal(x, n) for x in cvs]) if len(cvs) > 1 else v == z3.BitVecVal(cvs[0], n)
        allc.append(c)
        if t == ins.b:
            continue
        ok, m = E.feasible(s, c)
        if ok:
            alts.append((c, (key, t, v), m))
    rest = [c for t, c in zip(groups, allc) if t != ins.b]
    d = z3.Not(z3.Or(*rest)) if rest else z3.BoolVal(True)
    ok, m = E.feasible(s, d)
    if ok:
        alts.append((d, (key, ins.b, v), m))
    if not alts:
        raise PathEnd("infeasible")
    raise Fork(alts)


def _call(E, s, f, ins, regs, ev):
    E.call(s, f, ins, regs, ev)


def _ret(E, s, f, ins, regs, ev):
    E.ret(s, None if ins.a is None else ev(s, regs, ins.a, ins.ty))


def _unreach(E, s, f, ins, regs, ev):
    if E.tape is None:
        r, _ = E.query(s, None)
        if r == "unsat":
            raise PathEnd("infeasible")
    raise EngineError("reached 'unreachable' in %s" % f.fn.name)


def _extractvalue(E, s, f, ins, regs, ev):
    v = ev(s, regs, ins.a, ins.ty)
    for i in ins.x:
        v = v[i]
    regs[ins.res] = v
    f.i += 1


def _insertvalue(E, s, f, ins, regs, ev):
    v = ev(s, regs, ins.a, ins.ty)
    x = ev(s, regs, ins.b, ins.c)

    def ins_(v, idx):
        v = list(v)
        if len(idx) == 1:
            v[idx[0]] = x
        else:
            v[idx[0]] = ins_(v[idx[0]], idx[1:])
        return v
    regs[ins.res] = ins_(v, ins.x)
    f.i += 1


def _extractelement(E, s, f, ins, regs, ev):
    v = ev(s, regs, ins.a, ins.ty)
    i = E.conc(s, ev(s, regs, ins.b, ir.ity(64)), "extractelement")
    regs[ins.res] = v[i]
    f.i += 1


def _insertelement(E, s, f, ins, regs, ev):
    v = list(ev(s, regs, ins.a, ins.ty))
    i = E.conc(s, ev(s, regs, ins.c, ir.ity(64)), "insertelement")
    v[i] = ev(s, regs, ins.b, ins.ty.el)
    regs[ins.res] = v
    f.i += 1


def _shuffle(E, s, f, ins, regs, ev):
    a = ev(s, regs, ins.a, ins.ty)
    b = ev(s, regs, ins.b, ins.ty)
    m = ev(s, regs, ins.c, ins.x)
    ab = list(a) + list(b)
    regs[ins.res] = [ab[i] if i < len(ab) else a[0] for i in m]
    f.i += 1


def _alloca(E, s, f, ins, regs, ev):
    n = 1
    if ins.a is not None:
        n = E.conc(s, ev(s, regs, ins.a, ir.ity(64)), "alloca")
    oid = E.alloc(s, ins.ty.size * n, "stack")
    f.allocas.append(oid)
    regs[ins.res] = Ptr(oid, 0)
    f.i += 1


def _freeze(E, s, f, ins, regs, ev):
    regs[ins.res] = ev(s, regs, ins.a, ins.ty)
    f.i += 1


def _atomicrmw(E, s, f, ins, regs, ev):
    p = ev(s, regs, ins.a, ir.PTR)
    v = ev(s, regs, ins.b, ins.ty)
    old = E.load(s, p, ins.ty)
    k = ins.x
    n = ins.ty.n
    if k == "xchg":
        nv = v
    elif k in ("add", "sub", "and", "or", "xor"):
        nv = E.binop(s, k, ins.ty, old, v)
    elif k in ("umax", "umin", "max", "min"):
        pred = {"umax": "ugt", "umin": "ult", "max": "sgt", "min": "slt"}[k]
        c = E.icmp(s, pred, ins.ty, old, v)
        nv = _sel1(E, s, c, old, v, ins.ty)
    else:
        raise EngineError("atomicrmw " + k)
    E.store(s, p, ins.ty, nv)
    regs[ins.res] = old
    f.i += 1


def _cmpxchg(E, s, f, ins, regs, ev):
    p = ev(s, regs, ins.a, ir.PTR)
    cmp_ = ev(s, regs, ins.b, ins.ty)
    new = ev(s, regs, ins.c, ins.ty)
    old = E.load(s, p, ins.ty)
    c = E.icmp(s, "eq", ins.ty, old, cmp_)
    if type(c) is not int:
        c = E.fork_bool(s, c)
    if c:
        E.store(s, p, ins.ty, new)
    regs[ins.res] = [old, c]
    f.i += 1


def _bad(E, s, f, ins, regs, ev):
    raise EngineError("opcode " + ins.op)


DISPATCH = {}
for _o in ir.BINOPS:
    DISPATCH[_o] = _bin
for _o in ir.FBIN:
    DISPATCH[_o] = _fbin
for _o in ir.CASTS:
    DISPATCH[_o] = _cast
DISPATCH.update({
    "fneg": _fneg, "icmp": _icmp, "fcmp": _fcmp, "load": _load, "store": _store,
    "getelementptr": _gep, "select": _select, "br": _br, "cbr": _cbr, "switch": _switch,
    "call": _call, "ret": _ret, "unreachable": _unreach, "extractvalue": _extractvalue,
    "insertvalue": _insertvalue, "extractelement": _extractelement,
    "insertelement": _insertelement, "shufflevector": _shuffle, "alloca": _alloca,
    "freeze": _freeze, "atomicrmw": _atomicrmw, "cmpxchg": _cmpxchg, "landingpad": _bad,
    "resume": _bad})

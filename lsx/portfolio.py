"""Decide a conjunction of SMT formulas with a portfolio of solvers.

z3 runs in-process for a moment; what it does not settle is written out as SMT-LIB2
and given to several solvers at once (bit-blasting cvc5/CaDiCaL, z3, and -- where no
floating point is involved -- integer encodings of the bit-vectors, which keep the
mod-2^k semantics).  The first sat/unsat wins.  A sat answer is re-solved by z3 with
the inputs fixed to the reported values, so that every model comes from one place."""
import os
import re
import signal
import subprocess
import tempfile
import time
import z3

SEM = None          # multiprocessing semaphore limiting concurrent solver processes
TMP = None
CVC5 = "cvc5"
Z3 = "z3-new"


def consts(cs):
    seen = set()
    out = {}
    st = list(cs)
    fp = False
    fpk = (z3.Z3_FLOATING_POINT_SORT, z3.Z3_ROUNDING_MODE_SORT)
    real = False
    mul = False
    while st:
        e = st.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        sk = e.sort_kind()
        if sk in fpk:
            fp = True
        elif sk in (z3.Z3_REAL_SORT, z3.Z3_INT_SORT):
            real = True
        if z3.is_app(e):
            if e.num_args() == 0:
                if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out[e.decl().name()] = e
            else:
                if e.decl().kind() in (z3.Z3_OP_BMUL, z3.Z3_OP_BUDIV, z3.Z3_OP_BUREM, z3.Z3_OP_BSDIV,
                                       z3.Z3_OP_BUREM_I, z3.Z3_OP_BUDIV_I):
                    mul = True
                st.extend(e.children())
    return out, fp, real, mul


class Job:
    """one query, running in solver subprocesses"""

    def __init__(self, cs, tmo, want=None):
        self.cs = cs
        self.tmo = tmo
        self.result = None
        self.model = None
        self.procs = []
        self.files = []
        self.who = None
        self.t0 = None
        self.tokens = 0
        self.elapsed = 0.0

    # -- quick in-process attempt
    def quick(self, ms):
        s = z3.Solver()
        s.set("timeout", int(ms))
        for c in self.cs:
            s.add(c)
        t = time.time()
        r = s.check()
        self.elapsed += time.time() - t
        if r == z3.sat:
            self.result, self.model, self.who = "sat", s.model(), "z3"
        elif r == z3.unsat:
            self.result, self.who = "unsat", "z3"
        return self.result

    def start(self):
        self.t0 = time.time()
        s = z3.Solver()
        for c in self.cs:
            s.add(c)
        self.vars, fp, real, mul = consts(self.cs)
        names = [n for n in self.vars if n.startswith("nd")]
        txt = s.to_smt2()
        txt = txt.replace("(check-sat)", "")
        self.names = names
        gv = "(get-value (%s))\n" % " ".join("|%s|" % n for n in names) if names else ""
        body = "(set-option :produce-models true)\n(set-logic ALL)\n" + txt + "\n(check-sat)\n" + gv
        fd, fn = tempfile.mkstemp(suffix=".smt2", dir=TMP)
        os.write(fd, body.encode())
        os.close(fd)
        self.files.append(fn)
        ms = int(self.tmo * 1000)
        if real:
            cmds = [("z3", [Z3, fn]), ("cvc5", [CVC5, "--nl-ext=full", "--nl-cov", fn])]
        elif fp:
            cmds = [("cvc5", [CVC5, "--bv-sat-solver=cadical", fn]), ("z3", [Z3, fn])]
        elif mul:
            cmds = [("cvc5-int", [CVC5, "--solve-bv-as-int=sum", fn]),
                    ("z3", [Z3, fn]), ("z3-int", [Z3, "smt.bv.solver=2", fn]),
                    ("cvc5", [CVC5, "--bv-sat-solver=cadical", fn])]
        else:
            cmds = [("cvc5", [CVC5, "--bv-sat-solver=cadical", fn]), ("z3", [Z3, fn])]
        for who, c in cmds:
            of = tempfile.TemporaryFile(dir=TMP)
            p = subprocess.Popen(c, stdout=of, stderr=subprocess.STDOUT, start_new_session=True,
                                 preexec_fn=_limits)
            self.procs.append((who, p, of))

    def poll(self):
        """-> True when finished"""
        if self.result is not None:
            return True
        alive = []
        for who, p, of in self.procs:
            if p.poll() is None:
                alive.append((who, p, of))
                continue
            of.seek(0)
            out = of.read().decode("utf8", "replace")
            of.close()
            first = out.split("\n", 1)[0].strip()
            if first == "unsat":
                self.result, self.who = "unsat", who
            elif first == "sat":
                m = self.read_model(out)
                if m is not None:
                    self.result, self.model, self.who = "sat", m, who
            if self.result:
                break
        if self.result is None:
            self.procs = alive
            if not alive or time.time() - self.t0 > self.tmo:
                self.result = "unknown"
        if self.result is not None:
            self.stop()
            return True
        return False

    def stop(self):
        for who, p, of in self.procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
        self.procs = []
        for f in self.files:
            try:
                os.unlink(f)
            except OSError:
                pass
        self.files = []
        if self.t0:
            self.elapsed += time.time() - self.t0
            self.t0 = None

    def read_model(self, out):
        s = z3.Solver()
        s.set("timeout", 20000)
        for c in self.cs:
            s.add(c)
        for m in re.finditer(r"\(\|?([A-Za-z0-9_!]+)\|? (#x[0-9a-f]+|#b[01]+|\(_ bv\d+ \d+\)|true|false|"
                             r"\(?-?[ 0-9./()-]+\)?)\)", out):
            n, v = m.group(1), m.group(2)
            if n not in self.vars:
                continue
            e = self.vars[n]
            if v in ("true", "false"):
                s.add(e if v == "true" else z3.Not(e))
            elif z3.is_int(e):
                if v.isdigit():
                    s.add(e == int(v))
            elif v.startswith("#x"):
                s.add(e == z3.BitVecVal(int(v[2:], 16), e.size()))
            elif v.startswith("#b"):
                s.add(e == z3.BitVecVal(int(v[2:], 2), e.size()))
            elif v.startswith("(_ bv"):
                s.add(e == z3.BitVecVal(int(v[5:].split()[0]), e.size()))
        if s.check() == z3.sat:
            return s.model()
        return None


def _limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    os.nice(5)


def tokens(n, block=True):
    if SEM is None:
        return True
    return SEM.acquire(block)


def release():
    if SEM is not None:
        SEM.release()


def _muls(cs):
    seen = set()
    out = []
    st = list(cs)
    while st:
        e = st.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(e) and e.num_args():
            if e.decl().kind() == z3.Z3_OP_BMUL and e.num_args() == 2 and \
                    not any(z3.is_bv_value(c) for c in e.children()):
                out.append(e)
            st.extend(e.children())
    return out


def nl_lemmas(cs, ms):
    """is the conjunction unsatisfiable using only these facts about each product of two
    variables: it is monotone and exact while both factors are below 2^32?  (products
    become free variables, so unsat here is unsat of the original)"""
    cs = [z3.simplify(c) for c in cs]
    muls = _muls(cs)
    if not muls:
        return False
    # inner products first
    muls.sort(key=lambda e: len(_muls([e])))
    sub = []
    prods = []          # (a64, b64, M64)
    lem = []
    lim = z3.BitVecVal(1 << 32, 64)
    one = z3.BitVecVal(1, 64)

    def wide(e):
        # the low n bits of a product depend only on the low n bits of the factors
        if z3.is_app_of(e, z3.Z3_OP_EXTRACT) and e.params()[1] == 0:
            e = e.arg(0)
        return e if e.size() == 64 else z3.simplify(z3.ZeroExt(64 - e.size(), e))
    for k, e in enumerate(muls):
        if e.size() > 64:
            return False
        a, b = [z3.substitute(c, *sub) if sub else c for c in e.children()]
        a, b = wide(z3.simplify(a)), wide(z3.simplify(b))
        M = None
        for (x, y, m) in prods:
            if (x.eq(a) and y.eq(b)) or (x.eq(b) and y.eq(a)):
                M = m
        if M is None:
            M = z3.BitVec("nlm!%d" % k, 64)
            g = z3.And(z3.ULT(a, lim), z3.ULT(b, lim))
            lem.append(z3.Implies(g, z3.And(
                z3.ULE(M, z3.BitVecVal(((1 << 32) - 1) ** 2, 64)),
                z3.Implies(z3.UGE(b, one), z3.UGE(M, a)), z3.Implies(z3.UGE(a, one), z3.UGE(M, b)),
                z3.Implies(z3.Or(a == 0, b == 0), M == 0),
                z3.Implies(b == one, M == a), z3.Implies(a == one, M == b))))
            for (x, y, m) in prods:
                for (p, q) in ((x, y), (y, x)):
                    for (r, s) in ((a, b), (b, a)):
                        if not q.eq(s):
                            continue
                        # p*q = m, r*q = M
                        gg = z3.And(z3.ULT(p, lim), z3.ULT(r, lim), z3.ULT(q, lim))
                        lem.append(z3.Implies(gg, z3.And(
                            z3.Implies(z3.ULT(p, r), z3.And(z3.ULE(m + q, M), z3.ULE(q, M))),
                            z3.Implies(z3.ULT(r, p), z3.And(z3.ULE(M + q, m), z3.ULE(q, m))),
                            z3.Implies(p == r, m == M),
                            z3.Implies(p + 1 == r, m + q == M), z3.Implies(r + 1 == p, M + q == m))))
            prods.append((a, b, M))
        sub.append((e, M if e.size() == 64 else z3.Extract(e.size() - 1, 0, M)))
    s = z3.Solver()
    s.set("timeout", int(ms))
    for c in cs:
        s.add(z3.substitute(c, *reversed(sub)))
    for c in lem:
        s.add(c)
    return s.check() == z3.unsat


def small_model(cs, ms):
    """a model whose integer inputs are small, if there is one"""
    vs, fp, real, mul = consts(cs)
    s = z3.Solver()
    s.set("timeout", int(ms))
    for c in cs:
        s.add(c)
    for n, e in vs.items():
        if n.startswith("nd") and z3.is_bv(e) and e.size() in (32, 64):
            s.add(z3.ULT(e, z3.BitVecVal(8, e.size())))
    return s.model() if s.check() == z3.sat else None


def solve(cs, tmo, E, quick=None):
    """synchronous"""
    j = Job(cs, tmo)
    vs, fp, real, mul = consts(cs)
    if mul and not fp and not real:
        t = time.time()
        if nl_lemmas(cs, 8000):
            return "unsat", None
        m = small_model(cs, 4000)
        if m is not None:
            return "sat", m
    if j.quick(min(tmo * 1000, quick or 1500)) is None:
        tokens(1)
        try:
            j.start()
            while not j.poll():
                time.sleep(0.005 if time.time() - j.t0 < 1 else 0.03)
        finally:
            j.stop()
            release()
    return j.result, j.model

"""Parser for the textual LLVM IR that rustc/llvm-dis produce (LLVM 20+ syntax).

Only what the symbolic executor needs is kept: types, globals with their
initialisers, and functions (parsed lazily, one at a time, on first call).
Anything the parser does not understand raises IRError -- it never guesses.
"""
import re
import struct


class IRError(Exception):
    pass


# ---------------------------------------------------------------- types

class Ty:
    __slots__ = ("k", "n", "el", "els", "size", "align", "offs", "packed")

    def __init__(self, k, n=0, el=None, els=None, packed=False):
        self.k = k          # i f p v(oid) a(rray) x(vector) s(truct) l(abel) m(etadata) fn
        self.n = n          # bits (i, f) or count (a, x)
        self.el = el
        self.els = els
        self.packed = packed
        self.offs = None
        if k == "i":
            b = max(1, (n + 7) // 8)
            p = 1
            while p < b:
                p *= 2
            self.size = p
            self.align = min(p, 16)
        elif k == "f":
            self.size = self.align = n // 8
        elif k == "p":
            self.size = self.align = 8
        elif k == "a":
            self.size = el.size * n
            self.align = el.align
        elif k == "x":
            if el.k == "i" and el.n == 1:
                self.size = max(1, (n + 7) // 8)
            else:
                self.size = el.size * n
            p = 1
            while p < self.size:
                p *= 2
            self.align = max(p, 1)
        elif k == "s":
            off = 0
            al = 1
            self.offs = []
            for e in els:
                a = 1 if packed else e.align
                off = (off + a - 1) // a * a
                self.offs.append(off)
                off += e.size
                al = max(al, a)
            self.size = (off + al - 1) // al * al
            self.align = al
        else:
            self.size = self.align = 0

    def __repr__(self):
        k = self.k
        if k == "i":
            return "i%d" % self.n
        if k == "f":
            return "f%d" % self.n
        if k in "ax":
            return "%s%dx%r" % (k, self.n, self.el)
        if k == "s":
            return "{%s}" % ",".join(map(repr, self.els))
        return k


_ity = {}


def ity(n):
    t = _ity.get(n)
    if t is None:
        t = _ity[n] = Ty("i", n)
    return t


FLOAT = Ty("f", 32)
DOUBLE = Ty("f", 64)
HALF = Ty("f", 16)
PTR = Ty("p")
VOID = Ty("v")
LABEL = Ty("l")
META = Ty("m")

TOK = re.compile(r'''
   c"(?:[^"\\]|\\.)*"
 | "(?:[^"\\]|\\.)*"
 | [%@]"(?:[^"\\]|\\.)*"
 | [%@][-\w.$]+
 | \#\d+
 | ![\w.]*
 | -?\d+\.\d+(?:[eE][+-]?\d+)?
 | [+-](?:inf|qnan)\b
 | [+-]?(?:s?nan)\(0x[0-9A-Fa-f]+\)
 | f0x[0-9A-Fa-f]+
 | 0x[KLMHR]?[0-9A-Fa-f]+
 | -?\d+
 | \.\.\.
 | [A-Za-z_][\w.]*
 | [\[\]{}()<>,=*:|]
''', re.X)


def tokenize(s):
    return TOK.findall(s)


# ---------------------------------------------------------------- constants
# register operand: ('r', name); constants: ('c', type, payload)
#   int: python int; float: bits int; ptr: None/('g', name)/('gep',...)
#   aggregate: list of constants; 'zero', 'undef'

class Const:
    __slots__ = ("k", "v")

    def __init__(self, k, v=None):
        self.k = k  # int, float, null, undef, zero, glob, agg, str, gep, cast, bin
        self.v = v

    def __repr__(self):
        return "C(%s,%r)" % (self.k, self.v)


class Reg:
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return "%" + str(self.n)


ATTR_PAREN = {"align", "dereferenceable", "dereferenceable_or_null", "range", "captures",
              "initializes", "sret", "byval", "elementtype", "nofpclass", "inalloca", "byref",
              "preallocated", "allocsize", "memory", "dead_on_return"}
FLAGS = {"nuw", "nsw", "exact", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc",
         "fast", "inbounds", "nusw", "disjoint", "nneg", "samesign", "volatile", "tail",
         "musttail", "notail", "fastcc", "coldcc", "ccc", "preserve_mostcc", "preserve_allcc",
         "preserve_nonecc", "tailcc", "inrange"}
VALWORDS = {"null", "undef", "poison", "true", "false", "zeroinitializer", "getelementptr",
            "inttoptr", "ptrtoint", "bitcast", "splat", "none", "sub", "add", "trunc", "xor",
            "blockaddress", "dso_local_equivalent", "ptrtoaddr", "asm"}


def unq(name):
    if name.startswith('"'):
        return name[1:-1]
    return name


def cstr(tok):
    body = tok[2:-1]
    out = bytearray()
    i = 0
    while i < len(body):
        ch = body[i]
        if ch == "\\":
            if body[i + 1] == "\\":
                out.append(92)
                i += 2
            else:
                out.append(int(body[i + 1:i + 3], 16))
                i += 3
        else:
            out.extend(ch.encode("latin1", "replace") if ord(ch) < 256 else ch.encode("utf8"))
            i += 1
    return bytes(out)


class P:
    """token cursor"""
    __slots__ = ("t", "i", "mod")

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else ""

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def acc(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def exp(self, x):
        y = self.next()
        if y != x:
            raise IRError("expected %r got %r in %r" % (x, y, " ".join(self.t)[:300]))

    def skip_paren(self):
        d = 0
        while True:
            t = self.next()
            if t == "":
                raise IRError("unbalanced")
            if t == "(":
                d += 1
            elif t == ")":
                d -= 1
                if d == 0:
                    return

    def type(self):
        t = self.next()
        if t[0] == "i" and t[1:].isdigit():
            ty = ity(int(t[1:]))
        elif t == "ptr":
            ty = PTR
            if self.peek() == "addrspace":
                self.next()
                self.skip_paren()
        elif t == "float":
            ty = FLOAT
        elif t == "double":
            ty = DOUBLE
        elif t == "half":
            ty = HALF
        elif t == "void":
            ty = VOID
        elif t == "label":
            ty = LABEL
        elif t == "metadata":
            ty = META
        elif t == "[":
            n = int(self.next())
            self.exp("x")
            e = self.type()
            self.exp("]")
            ty = Ty("a", n, e)
        elif t == "<":
            if self.peek() == "{":
                self.next()
                els = self.types_until("}")
                self.exp(">")
                ty = Ty("s", els=els, packed=True)
            else:
                n = int(self.next())
                self.exp("x")
                e = self.type()
                self.exp(">")
                ty = Ty("x", n, e)
        elif t == "{":
            ty = Ty("s", els=self.types_until("}"))
        elif t.startswith("%"):
            ty = self.mod.named_type(unq(t[1:]))
        else:
            raise IRError("type? %r in %r" % (t, " ".join(self.t)[:200]))
        return ty

    def types_until(self, close):
        els = []
        if self.acc(close):
            return els
        while True:
            els.append(self.type())
            if self.acc(close):
                return els
            self.exp(",")

    def skip_attrs(self):
        while True:
            t = self.peek()
            if not t:
                return
            if t in ATTR_PAREN:
                self.next()
                if self.peek() == "(":
                    self.skip_paren()
                elif t == "align" and self.peek().isdigit():
                    self.next()
                continue
            if t[0] == '"':
                self.next()
                if self.acc("="):
                    self.next()
                continue
            if t[0] == "#":
                self.next()
                continue
            if t[0].isalpha() and t not in VALWORDS and not t.startswith("f0x") and t[:2] != 'c"':
                self.next()
                continue
            return

    def skip_flags(self):
        while self.peek() in FLAGS:
            t = self.next()
            if t == "inrange" and self.peek() == "(":
                self.skip_paren()

    def value(self, ty):
        t = self.next()
        c = t[0]
        if c == "%":
            return Reg(unq(t[1:]))
        if c == "@":
            return Const("glob", unq(t[1:]))
        if t == "true":
            return Const("int", 1)
        if t == "false":
            return Const("int", 0)
        if t == "null" or t == "none":
            return Const("null")
        if t in ("undef", "poison"):
            return Const("undef")
        if t == "zeroinitializer":
            return Const("zero")
        if t == "splat":
            self.exp("(")
            ety = self.type()
            v = self.value(ety)
            self.exp(")")
            return Const("agg", [(ety, v)] * ty.n)
        if t[:2] == 'c"':
            return Const("str", cstr(t))
        if ty.k == "f":
            return Const("float", parse_float(t, ty.n))
        if c.isdigit() or c == "-":
            if ty.k == "i":
                return Const("int", int(t) & ((1 << ty.n) - 1))
            raise IRError("num for %r: %s" % (ty, t))
        if t in ("getelementptr",):
            self.skip_flags()
            self.exp("(")
            bty = self.type()
            self.exp(",")
            pty = self.type()
            base = self.value(pty)
            idx = []
            while self.acc(","):
                self.skip_flags()
                it = self.type()
                idx.append((it, self.value(it)))
            self.exp(")")
            return Const("gep", (bty, base, idx))
        if t in ("inttoptr", "ptrtoint", "bitcast", "trunc", "ptrtoaddr"):
            self.exp("(")
            fty = self.type()
            v = self.value(fty)
            self.exp("to")
            tty = self.type()
            self.exp(")")
            return Const("cast", (t, fty, v, tty))
        if t in ("sub", "add", "xor"):
            self.skip_flags()
            self.exp("(")
            t1 = self.type()
            a = self.value(t1)
            self.exp(",")
            t2 = self.type()
            b = self.value(t2)
            self.exp(")")
            return Const("bin", (t, t1, a, b))
        if t in ("{", "[", "<"):
            packed = False
            if t == "<" and self.peek() == "{":
                self.next()
                packed = True
                close = "}"
            else:
                close = {"{": "}", "[": "]", "<": ">"}[t]
            els = []
            if not self.acc(close):
                while True:
                    et = self.type()
                    els.append((et, self.value(et)))
                    if self.acc(close):
                        break
                    self.exp(",")
            if packed:
                self.exp(">")
            return Const("agg", els)
        if t == "asm":
            # asm [sideeffect] ... "str", "constraints"
            while self.peek() and self.peek()[0] != '"':
                self.next()
            s = self.next()
            self.exp(",")
            cons = self.next()
            return Const("asm", (s, cons))
        raise IRError("value? %r in %r" % (t, " ".join(self.t)[:400]))

    def tval(self):
        ty = self.type()
        self.skip_attrs()
        return ty, self.value(ty)


def parse_float(t, bits):
    if t.startswith("f0x"):
        return int(t[3:], 16)
    if t.startswith("0x"):
        if t[2] in "KLMHR":
            return int(t[3:], 16)
        d = struct.unpack("<d", struct.pack("<Q", int(t, 16)))[0]
    elif t in ("+inf", "inf"):
        d = float("inf")
    elif t == "-inf":
        d = float("-inf")
    elif t.endswith("qnan"):
        neg = t[0] == "-"
        return (0x7fc00000 | neg << 31) if bits == 32 else (0x7ff8 << 48 | neg << 63)
    elif "nan" in t:
        raise ValueError("float literal " + t)
    else:
        d = float(t)
    if bits == 32:
        return struct.unpack("<I", struct.pack("<f", d))[0]
    return struct.unpack("<Q", struct.pack("<d", d))[0]


# ---------------------------------------------------------------- instructions

class Ins:
    __slots__ = ("op", "res", "ty", "a", "b", "c", "x", "line")

    def __init__(self, op, res=None, ty=None, a=None, b=None, c=None, x=None, line=None):
        self.op = op
        self.res = res
        self.ty = ty
        self.a = a
        self.b = b
        self.c = c
        self.x = x
        self.line = line

    def __repr__(self):
        return "<%s>" % (self.line or self.op)


BINOPS = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and",
          "or", "xor"}
FBIN = {"fadd", "fsub", "fmul", "fdiv", "frem"}
CASTS = {"zext", "sext", "trunc", "fptoui", "fptosi", "uitofp", "sitofp", "fpext", "fptrunc",
         "bitcast", "ptrtoint", "inttoptr", "addrspacecast", "ptrtoaddr"}


class Fn:
    __slots__ = ("name", "params", "blocks", "entry", "ret", "ninstr", "vararg")


class Module:
    def __init__(self, path):
        self.path = path
        self.fn_src = {}
        self.fns = {}
        self.globals = {}
        self.gsrc = {}
        self.aliases = {}
        self.types_src = {}
        self.types = {}
        self.decls = set()
        with open(path, encoding="latin1") as f:
            lines = f.read().split("\n")
        self.lines = lines
        i = 0
        n = len(lines)
        nm = re.compile(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)')
        while i < n:
            l = lines[i]
            if l.startswith("define"):
                m = nm.search(l)
                j = i
                while lines[j] != "}":
                    j += 1
                self.fn_src[unq(m.group(1))] = (i, j)
                i = j
            elif l.startswith("@"):
                m = nm.match(l)
                self.gsrc[unq(m.group(1))] = l
            elif l.startswith("declare"):
                self.decls.add(unq(nm.search(l).group(1)))
            elif l.startswith("%") and " = type " in l:
                name, body = l.split(" = type ", 1)
                self.types_src[unq(name[1:])] = body
            i += 1

    def named_type(self, name):
        t = self.types.get(name)
        if t is None:
            src = self.types_src[name]
            t = self.types[name] = P(tokenize(src), self).type()
        return t

    # -- globals
    def glob(self, name):
        """-> dict(kind='global'|'alias'|'decl', ty, init, const, tls)"""
        g = self.globals.get(name)
        if g is not None:
            return g
        l = self.gsrc.get(name)
        if l is None:
            return None
        l = re.sub(r"(, ![\w.]+ ![\w.]+)+$", "", l)
        toks = tokenize(l)
        p = P(toks, self)
        p.next()
        p.exp("=")
        ext = tls = False
        g = None
        while True:
            t = p.next()
            if t in ("global", "constant"):
                ty = p.type()
                init = None
                if not ext and p.peek() and p.peek() != ",":
                    init = p.value(ty)
                g = dict(kind="decl" if ext else "global", ty=ty, init=init,
                         const=(t == "constant"), tls=tls)
                break
            if t == "alias":
                p.type()
                d = 0                       # a function type's parameters
                while d or p.peek() != ",":
                    t = p.next()
                    d += (t == "(") - (t == ")")
                p.next()
                p.type()
                g = dict(kind="alias", to=p.value(PTR))
                break
            if t in ("external", "extern_weak"):
                ext = True
            if t == "thread_local":
                tls = True
                if p.peek() == "(":
                    p.skip_paren()
            if t == "":
                raise IRError("global? " + l[:200])
        self.globals[name] = g
        return g

    # -- functions
    def fn(self, name):
        f = self.fns.get(name)
        if f is None:
            src = self.fn_src.get(name)
            if src is None:
                return None
            f = self.fns[name] = self.parse_fn(name, *src)
        return f

    def parse_fn(self, name, i, j):
        lines = self.lines
        f = Fn()
        f.name = name
        head = lines[i]
        toks = tokenize(head)
        p = P(toks, self)
        k = 0
        while True:
            t = toks[k]
            if t[0] == "@" and unq(t[1:]) == name:
                break
            k += 1
        # return type: parse from the start, skipping attributes
        q = P(toks, self)
        q.next()
        while True:
            save = q.i
            t = q.peek()
            if t in ATTR_PAREN:
                q.next()
                if q.peek() == "(":
                    q.skip_paren()
                elif q.peek().isdigit():
                    q.next()
                continue
            try:
                ty = q.type()
                if q.i == k:
                    break
            except IRError:
                pass
            q.i = save + 1
            if q.i > k:
                raise IRError("ret type of " + head[:200])
        f.ret = ty
        p.i = k + 1
        p.exp("(")
        f.params = []
        f.vararg = False
        cnt = 0
        if not p.acc(")"):
            while True:
                if p.acc("..."):
                    f.vararg = True
                    p.exp(")")
                    break
                ty = p.type()
                p.skip_attrs()
                t = p.peek()
                if t[0] == "%":
                    p.next()
                    nme = unq(t[1:])
                    if nme == str(cnt):
                        cnt += 1
                else:
                    nme = str(cnt)
                    cnt += 1
                f.params.append((nme, ty))
                if p.acc(")"):
                    break
                p.exp(",")
        f.blocks = {}
        cur = None
        label = re.compile(r'^("(?:[^"\\]|\\.)*"|[-\w.$]+):')
        ln = i + 1
        f.ninstr = 0
        while ln < j:
            l = lines[ln]
            ln += 1
            if not l.strip() or l.lstrip().startswith(";"):
                continue
            if not l.startswith(" "):
                m = label.match(l)
                if not m:
                    raise IRError("label? " + l)
                cur = []
                f.blocks[unq(m.group(1))] = cur
                if len(f.blocks) == 1:
                    f.entry = unq(m.group(1))
                continue
            if cur is None:
                cur = []
                f.entry = str(cnt)
                f.blocks[f.entry] = cur
            s = l.strip()
            if s.startswith("switch ") and s.rstrip().endswith("["):
                while True:
                    l2 = lines[ln].strip()
                    ln += 1
                    s += " " + l2
                    if l2.startswith("]"):
                        break
            elif "invoke " in s and not s.startswith("store"):
                l2 = lines[ln].strip()
                if l2.startswith("to label"):
                    s += " " + l2
                    ln += 1
            elif "landingpad" in s:
                while lines[ln].strip().startswith(("cleanup", "catch", "filter")):
                    ln += 1
            ins = self.parse_ins(s)
            if ins is not None:
                cur.append(ins)
                f.ninstr += 1
        return f

    def parse_ins(self, s):
        if s.startswith("#dbg"):
            return None
        toks = tokenize(s)
        p = P(toks, self)
        res = None
        if p.peek(1) == "=" and p.peek()[0] == "%":
            res = unq(p.next()[1:])
            p.next()
        op = p.next()
        while op in ("tail", "musttail", "notail"):
            op = p.next()
        I = lambda **kw: Ins(op, res, line=s, **kw)
        if op in BINOPS or op in FBIN:
            p.skip_flags()
            ty = p.type()
            a = p.value(ty)
            p.exp(",")
            b = p.value(ty)
            return I(ty=ty, a=a, b=b)
        if op == "fneg":
            p.skip_flags()
            ty = p.type()
            return I(ty=ty, a=p.value(ty))
        if op in ("icmp", "fcmp"):
            p.skip_flags()
            pred = p.next()
            ty = p.type()
            a = p.value(ty)
            p.exp(",")
            b = p.value(ty)
            return I(ty=ty, a=a, b=b, x=pred)
        if op in CASTS:
            p.skip_flags()
            fty = p.type()
            a = p.value(fty)
            p.exp("to")
            ty = p.type()
            return I(ty=ty, a=a, x=fty)
        if op == "load":
            atomic = p.acc("atomic")
            p.skip_flags()
            ty = p.type()
            p.exp(",")
            pt = p.type()
            a = p.value(pt)
            return I(ty=ty, a=a)
        if op == "store":
            atomic = p.acc("atomic")
            p.skip_flags()
            ty = p.type()
            a = p.value(ty)
            p.exp(",")
            pt = p.type()
            b = p.value(pt)
            return I(ty=ty, a=a, b=b)
        if op == "getelementptr":
            p.skip_flags()
            ty = p.type()
            p.exp(",")
            pt = p.type()
            a = p.value(pt)
            idx = []
            while p.acc(","):
                if p.peek().startswith("!"):
                    break
                it = p.type()
                idx.append((it, p.value(it)))
            return I(ty=ty, a=a, b=idx, x=pt)
        if op == "select":
            p.skip_flags()
            ct = p.type()
            c = p.value(ct)
            p.exp(",")
            ty = p.type()
            a = p.value(ty)
            p.exp(",")
            t2 = p.type()
            b = p.value(t2)
            return I(ty=ty, a=a, b=b, c=c, x=ct)
        if op == "phi":
            p.skip_flags()
            ty = p.type()
            inc = {}
            while True:
                p.exp("[")
                v = p.value(ty)
                p.exp(",")
                bb = unq(p.next()[1:])
                p.exp("]")
                inc[bb] = v
                if not p.acc(","):
                    break
                if p.peek().startswith("!"):
                    break
            return I(ty=ty, x=inc)
        if op == "br":
            if p.acc("label"):
                return I(x=unq(p.next()[1:]))
            p.type()
            c = p.value(ity(1))
            p.exp(",")
            p.exp("label")
            a = unq(p.next()[1:])
            p.exp(",")
            p.exp("label")
            b = unq(p.next()[1:])
            return Ins("cbr", None, c=c, a=a, b=b, line=s)
        if op == "switch":
            ty = p.type()
            v = p.value(ty)
            p.exp(",")
            p.exp("label")
            d = unq(p.next()[1:])
            p.exp("[")
            cases = []
            while not p.acc("]"):
                ct = p.type()
                cv = p.value(ct)
                p.exp(",")
                p.exp("label")
                cases.append((cv.v, unq(p.next()[1:])))
            return I(ty=ty, a=v, b=d, x=cases)
        if op in ("call", "invoke"):
            p.skip_flags()
            # skip return attributes
            while True:
                t = p.peek()
                if t in ATTR_PAREN:
                    p.next()
                    if p.peek() == "(":
                        p.skip_paren()
                    elif p.peek().isdigit():
                        p.next()
                    continue
                save = p.i
                try:
                    ty = p.type()
                    break
                except IRError:
                    p.i = save + 1
            if p.peek() == "(":
                # explicit function type
                p.skip_paren()
            callee = p.value(PTR)
            p.exp("(")
            args = []
            if not p.acc(")"):
                while True:
                    at = p.type()
                    if at.k == "m":
                        # metadata argument: skip
                        d = 0
                        while True:
                            t = p.peek()
                            if d == 0 and t in (",", ")"):
                                break
                            if t == "(":
                                d += 1
                            if t == ")":
                                d -= 1
                            p.next()
                        args.append((at, None))
                    else:
                        p.skip_attrs()
                        args.append((at, p.value(at)))
                    if p.acc(")"):
                        break
                    p.exp(",")
            x = None
            if op == "invoke":
                while not p.acc("to"):
                    p.next()
                p.exp("label")
                x = unq(p.next()[1:])
            return Ins("call", res, ty=ty, a=callee, b=args, x=x, line=s)
        if op == "ret":
            ty = p.type()
            if ty.k == "v":
                return I(ty=ty)
            return I(ty=ty, a=p.value(ty))
        if op == "unreachable":
            return I()
        if op == "extractvalue":
            ty = p.type()
            a = p.value(ty)
            idx = []
            while p.acc(","):
                if p.peek().startswith("!"):
                    break
                idx.append(int(p.next()))
            return I(ty=ty, a=a, x=idx)
        if op == "insertvalue":
            ty = p.type()
            a = p.value(ty)
            p.exp(",")
            t2 = p.type()
            b = p.value(t2)
            idx = []
            while p.acc(","):
                if p.peek().startswith("!"):
                    break
                idx.append(int(p.next()))
            return I(ty=ty, a=a, b=b, x=idx, c=t2)
        if op == "extractelement":
            ty = p.type()
            a = p.value(ty)
            p.exp(",")
            t2 = p.type()
            return I(ty=ty, a=a, b=p.value(t2))
        if op == "insertelement":
            ty = p.type()
            a = p.value(ty)
            p.exp(",")
            t2 = p.type()
            b = p.value(t2)
            p.exp(",")
            t3 = p.type()
            return I(ty=ty, a=a, b=b, c=p.value(t3))
        if op == "shufflevector":
            ty = p.type()
            a = p.value(ty)
            p.exp(",")
            t2 = p.type()
            b = p.value(t2)
            p.exp(",")
            t3 = p.type()
            return I(ty=ty, a=a, b=b, c=p.value(t3), x=t3)
        if op == "alloca":
            ty = p.type()
            n = None
            if p.acc(","):
                if p.peek()[0] == "i" and p.peek()[1:].isdigit():
                    t = p.type()
                    n = p.value(t)
            return I(ty=ty, a=n)
        if op == "freeze":
            ty = p.type()
            return I(ty=ty, a=p.value(ty))
        if op == "fence":
            return None
        if op == "atomicrmw":
            p.skip_flags()
            kind = p.next()
            p.type()
            a = p.value(PTR)
            p.exp(",")
            ty = p.type()
            return I(ty=ty, a=a, b=p.value(ty), x=kind)
        if op == "cmpxchg":
            p.skip_flags()
            p.acc("weak")
            p.skip_flags()
            p.type()
            a = p.value(PTR)
            p.exp(",")
            ty = p.type()
            b = p.value(ty)
            p.exp(",")
            p.type()
            c = p.value(ty)
            return I(ty=ty, a=a, b=b, c=c)
        if op in ("landingpad", "resume", "cleanupret", "catchswitch"):
            return I()
        raise IRError("instruction? " + s[:300])

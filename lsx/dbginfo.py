"""!dbg metadata -> (function, file, line)"""
import re

_c = {}


class Dbg:
    def __init__(self, mod):
        self.md = {}
        rx = re.compile(r"^(!\d+) = (?:distinct )?(!DI(?:Location|Subprogram|LexicalBlock|LexicalBlockFile|File|Namespace)\(.*)$")
        for l in mod.lines:
            if l.startswith("!"):
                m = rx.match(l)
                if m:
                    self.md[m.group(1)] = m.group(2)
        self.cache = {}

    def field(self, s, k):
        m = re.search(r'\b%s: ("(?:[^"\\]|\\.)*"|[^,)]+)' % k, s)
        return m.group(1).strip('"') if m else None

    def sub(self, mid):
        """scope -> (function name, linkage, file)"""
        n = 0
        while mid in self.md and n < 50:
            s = self.md[mid]
            if s.startswith("!DISubprogram"):
                f = self.field(s, "file")
                fn = self.md.get(f, "")
                return (self.qual(s), self.field(s, "linkageName"),
                        (self.field(fn, "directory") or "", self.field(fn, "filename") or ""))
            mid = self.field(s, "scope")
            n += 1
        return ("?", None, ("", ""))

    def qual(self, s):
        nm = self.field(s, "name") or "?"
        sc = self.field(s, "scope")
        n = 0
        while sc in self.md and n < 20:
            t = self.md[sc]
            q = self.field(t, "name")
            if q:
                nm = q + "::" + nm
            sc = self.field(t, "scope")
            n += 1
        return nm

    def funcs(self, mid):
        """all (function, file) in the inline chain of a location"""
        out = []
        while mid in self.md:
            s = self.md[mid]
            if not s.startswith("!DILocation"):
                break
            nm, ln, (d, f) = self.sub(self.field(s, "scope"))
            out.append((nm, f if f.startswith("/") else d + "/" + f, self.field(s, "line")))
            mid = self.field(s, "inlinedAt")
        return out

    def loc(self, mid):
        ch = self.funcs(mid)
        for nm, f, ln in ch:
            if "/repo/" in f or f.startswith("/repo"):
                return "%s (%s:%s)" % (nm, f, ln)
        return "%s (%s:%s)" % ch[0] if ch else "?"


def get(mod):
    k = id(mod)
    if k not in _c:
        _c[k] = Dbg(mod)
    return _c[k]

"""Program model over the facts mcx extracts: functions with resolved CFGs, records, class hierarchy, call graph.
Nothing here runs the analysed code."""
import json, os, subprocess, sys, time, glob, hashlib, re, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
SRC = REPO + "/src"


class AnalysisBroken(Exception):
    """An anchor vanished, a unit does not parse, a rule has no instance: neither pass nor violation."""


# ---------------------------------------------------------------------------------------------- expressions
# tags whose sub-expressions sit at fixed positions
def kids(e):
    t = e[0]
    if t == "c":
        if e[3] is not None:
            yield e[3]
        yield from e[2]
    elif t == "k":
        yield from e[2]
    elif t == "cp":
        yield e[1]
        yield from e[2]
    elif t in ("m", "x0"):
        yield e[1]
    elif t == "x":
        yield e[1]
        yield e[2]
    elif t == "b":
        yield e[2]
        yield e[3]
    elif t == "u":
        yield e[2]
    elif t == "?:":
        yield e[1]
        yield e[2]
        yield e[3]
    elif t == "cast":
        yield e[4]
    elif t == "new":
        if e[3] is not None:
            yield e[3]
        if e[4] is not None:
            yield e[4]
    elif t == "del":
        yield e[2]
    elif t == "il":
        yield from e[1]
    elif t == "ret" or t == "thr":
        if e[1] is not None:
            yield e[1]
    elif t == "decl":
        for d in e[1:]:
            if d[1] is not None:
                yield d[1]
    elif t in ("finit", "binit"):
        if e[2] is not None:
            yield e[2]
    elif t == "bm":
        yield e[2]
    elif t == "ail":
        yield e[1]
    elif t == "?":
        for k in e[2:]:
            if isinstance(k, list):
                yield k


class Fn:
    __slots__ = ("o", "S", "name", "P", "_el", "_bl", "_pred", "_dom", "_rpo", "_cs", "_pdom", "_aux")

    def __init__(self, o, S, P):
        self.o, self.S, self.P = o, S, P
        self.name = S[o["f"]]
        self._el = self._bl = self._pred = self._dom = self._rpo = self._cs = self._pdom = None
        self._aux = {}

    # -- signature
    @property
    def nm(self):
        return self.o["nm"]

    @property
    def cls(self):
        c = self.o.get("cls")
        return None if c is None else self.S[c]

    @property
    def rt(self):
        return self.S[self.o["rt"]]

    @property
    def const(self):
        return "const" in self.o

    @property
    def static(self):
        return "static" in self.o

    @property
    def virt(self):
        return "virt" in self.o

    @property
    def ctor(self):
        return "ctor" in self.o

    @property
    def cctor(self):
        return "cctor" in self.o

    @property
    def dtor(self):
        return "dtor" in self.o

    @property
    def impl(self):
        return "impl" in self.o

    @property
    def lam(self):
        return "lambda" in self.o

    @property
    def access(self):
        return self.o["acc"]  # 0 public 1 protected 2 private 3 none

    @property
    def params(self):
        return [(p[0], self.S[p[1]], p[2]) for p in self.o["ps"]]

    @property
    def file(self):
        return self.S[self.o.get("bfile", self.o["file"])]

    @property
    def line(self):
        return self.o.get("line", 0)

    @property
    def has_body(self):
        return "els" in self.o

    @property
    def vars(self):
        return [(v[0], self.S[v[1]], v[2], v[3]) for v in self.o.get("vars", [])]

    def vtype(self, i):
        return self.S[self.o["vars"][i][1]]

    def vname(self, i):
        return self.o["vars"][i][0]

    def vkind(self, i):
        return self.o["vars"][i][2]

    def loc(self, line=None):
        f = self.file
        if f.startswith(REPO + "/"):
            f = f[len(REPO) + 1:]
        return "%s:%d" % (f, line if line else self.line)

    @property
    def short(self):
        return short(self.name)

    # -- body
    @property
    def el(self):
        if self._el is None:
            self._el = {e[0]: (e[1], e[2]) for e in self.o.get("els", [])}
        return self._el

    @property
    def bl(self):
        if self._bl is None:
            self._bl = {b[0]: b for b in self.o.get("bl", [])}
        return self._bl

    @property
    def entry(self):
        return self.o["en"]

    @property
    def exit(self):
        return self.o["ex"]

    def succs(self, b):
        return [s for s in self.bl[b][3] if s is not None]

    @property
    def pred(self):
        if self._pred is None:
            p = {b: [] for b in self.bl}
            for b in self.bl:
                for s in self.succs(b):
                    p[s].append(b)
            self._pred = p
        return self._pred

    @property
    def rpo(self):
        if self._rpo is None:
            seen = set()
            order = []
            st = [(self.entry, iter(self.succs(self.entry)))]
            seen.add(self.entry)
            while st:
                b, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(self.succs(s))))
                        break
                else:
                    order.append(b)
                    st.pop()
            order.reverse()
            self._rpo = order
        return self._rpo

    def e(self, x):
        """resolve a reference node"""
        while x is not None and x[0] == "r":
            x = self.el[x[1]][1]
        return x

    def walk(self, x, follow=False):
        st = [x]
        while st:
            n = st.pop()
            if n is None:
                continue
            if n[0] == "r":
                if follow:
                    st.append(self.el[n[1]][1])
                continue
            yield n
            st.extend(kids(n))

    def walk_full(self, x):
        return self.walk(x, True)

    def all_nodes(self):
        """every expression node of the body once, with (block, element id, line, node)"""
        for b in self.o.get("bl", []):
            for i in b[1]:
                ln, ex = self.el[i]
                if ex[0] == "r":
                    continue
                for n in self.walk(ex):
                    yield b[0], i, ln, n
            if b[2] is not None and b[2][1] is not None:
                for n in self.walk(b[2][1]):
                    yield b[0], None, b[2][2], n

    def callee(self, n):
        return self.S[n[1]]

    def calls(self):
        """(block, elem, line, node, calleeName) of every call / construction"""
        if self._cs is None:
            r = []
            for b, i, ln, n in self.all_nodes():
                if n[0] == "c":
                    r.append((b, i, n[6] if len(n) > 6 and n[6] else ln, n, self.S[n[1]]))
                elif n[0] == "k":
                    r.append((b, i, n[4] or ln, n, self.S[n[1]]))
            self._cs = r
        return self._cs

    def dom(self):
        """immediate-dominator based dominator sets as a dict block->set (small functions) """
        if self._dom is None:
            rpo = self.rpo
            idx = {b: k for k, b in enumerate(rpo)}
            idom = {self.entry: self.entry}
            pred = self.pred
            ch = True
            while ch:
                ch = False
                for b in rpo[1:]:
                    new = None
                    for p in pred[b]:
                        if p in idom:
                            if new is None:
                                new = p
                            else:
                                x, y = p, new
                                while x != y:
                                    while idx[x] > idx[y]:
                                        x = idom[x]
                                    while idx[y] > idx[x]:
                                        y = idom[y]
                                new = x
                    if new is not None and idom.get(b) != new:
                        idom[b] = new
                        ch = True
            self._dom = idom
        return self._dom

    def dominates(self, a, b):
        idom = self.dom()
        if b not in idom:
            return True
        while True:
            if a == b:
                return True
            if idom[b] == b:
                return False
            b = idom[b]


def short(name):
    """readable name: drop the parameter list and std noise"""
    i = name.find("(", 1)
    depth = 0
    # cut at the first '(' outside template brackets
    for k, c in enumerate(name):
        if c == "<":
            depth += 1
        elif c == ">":
            depth -= 1
        elif c == "(" and depth <= 0 and not name.startswith("(", k - 0) or (c == "(" and depth <= 0):
            if name[k:].startswith("(anon)") or name[k:].startswith("(lambda"):
                continue
            return name[:k].replace("MEDCoupling::", "").replace("INTERP_KERNEL::", "")
    return name.replace("MEDCoupling::", "").replace("INTERP_KERNEL::", "")


class Rec:
    __slots__ = ("name", "file", "line", "bases", "fields", "ms", "abs")

    def __init__(self, o, S):
        self.name = S[o["n"]]
        self.file = S[o["file"]]
        self.line = o["line"]
        self.bases = [S[b] for b in o["bases"]]
        self.fields = [(S[f[0]], S[f[1]], bool(f[2]), f[3], f[4]) for f in o["fields"]]
        self.ms = [S[m] for m in o["ms"]]
        self.abs = "abs" in o


class Program:
    def __init__(self):
        self.F = {}  # with bodies
        self.D = {}  # every declared callee seen
        self.R = {}
        self.E = {}
        self.V = {}
        self.units = []
        self.files = set()
        self.errors = 0

    def load(self, path):
        S = []
        ended = False
        with open(path) as f:
            for l in f:
                o = json.loads(l)
                k = o["k"]
                if k == "S":
                    S.append(sys.intern(o["v"]))
                elif k == "F":
                    n = S[o["f"]]
                    if n not in self.F:
                        self.F[n] = Fn(o, S, self)
                elif k == "D":
                    n = S[o["f"]]
                    if n not in self.D:
                        self.D[n] = Fn(o, S, self)
                elif k == "R":
                    n = S[o["n"]]
                    if n not in self.R:
                        self.R[n] = Rec(o, S)
                elif k == "E":
                    self.E.setdefault(S[o["n"]], (o["cs"], S[o["file"]], o["line"]))
                elif k == "V":
                    self.V.setdefault(S[o["n"]], (S[o["t"]], o["init"], S[o["file"]], o["line"], S))
                elif k == "U":
                    self.files.update(o["files"])
                    self.errors += o["err"]
                elif k == "END":
                    ended = True
        if not ended:
            raise AnalysisBroken("fact file %s is truncated" % path)

    def finish(self):
        self._bases = {}
        self._subs = {}
        for r in self.R.values():
            for b in r.bases:
                self._subs.setdefault(b, set()).add(r.name)
        # overriders: method -> set of methods overriding it (transitively)
        self.over = {}
        direct = {}
        for d in list(self.D.values()):
            for o in d.o.get("ov", []):
                direct.setdefault(d.S[o], set()).add(d.name)
        self._direct_over = direct
        self._callers = None
        self._cg = None

    def all_bases(self, c):
        if c in self._bases:
            return self._bases[c]
        r = set()
        self._bases[c] = r
        if c in self.R:
            for b in self.R[c].bases:
                r.add(b)
                r |= self.all_bases(b)
        return r

    def is_a(self, c, base):
        return c == base or base in self.all_bases(c)

    def subclasses(self, c):
        r = set()
        st = [c]
        while st:
            x = st.pop()
            for s in self._subs.get(x, ()):
                if s not in r:
                    r.add(s)
                    st.append(s)
        return r

    def overriders(self, m):
        r = set()
        st = [m]
        while st:
            x = st.pop()
            for s in self._direct_over.get(x, ()):
                if s not in r:
                    r.add(s)
                    st.append(s)
        return r

    def targets(self, fn, n):
        """possible bodies of a call node (class hierarchy analysis)"""
        name = fn.S[n[1]]
        if n[0] == "k":
            return [name]
        d = self.D.get(name)
        if d is None or not d.virt or n[4]:
            return [name]
        st = fn.S[n[5]] if n[5] is not None else None
        r = [name]
        for o in self.overriders(name):
            r.append(o)
        if st is not None:
            st = strip(st)
            ok = []
            for o in r:
                oc = self.D[o].cls
                if self.is_a(oc, st) or self.is_a(st, oc):
                    ok.append(o)
            # drop base implementations overridden for st itself
            r = ok or r
        return r

    def fields_of(self, c, inherited=True):
        r = []
        if c in self.R:
            r = list(self.R[c].fields)
            if inherited:
                for b in self.R[c].bases:
                    r += self.fields_of(b)
        return r


def strip(t):
    """class name behind pointers, references and const"""
    t = t.strip()
    ch = True
    while ch:
        ch = False
        for suf in ("*", "&", " const", "&&"):
            if t.endswith(suf):
                t = t[: -len(suf)].strip()
                ch = True
        if t.startswith("const "):
            t = t[6:].strip()
            ch = True
        if t.startswith("volatile "):
            t = t[9:].strip()
            ch = True
    return t


def is_ptr(t):
    return t.rstrip().endswith("*") or t.rstrip().endswith("*const")


MCAUTO = ("MEDCoupling::MCAuto<", "MEDCoupling::MCConstAuto<")


def targs(t):
    """template arguments of a type name"""
    i = t.find("<")
    if i < 0:
        return []
    r, d, b = [], 0, i + 1
    for k in range(i + 1, len(t)):
        c = t[k]
        if c == "<" or c == "(":
            d += 1
        elif c == ")" or (c == ">" and d > 0):
            d -= 1
        elif c == ">" :
            r.append(t[b:k].strip())
            return r
        elif c == "," and d == 0:
            r.append(t[b:k].strip())
            b = k + 1
    return r


def auto_of(t):
    """T of MCAuto<T>"""
    t = strip(t)
    for m in MCAUTO:
        if t.startswith(m) and t.endswith(">"):
            return strip(t[len(m):-1])
    return None

"""Must-facts dataflow: which relations between access paths are established whenever a function returns normally (or
returns true / false), and at every program point.

Access paths ("terms") are resolved through single-definition locals, references, casts, smart-pointer operators and
one-expression getters, so a renamed local, an introduced alias, or an extracted helper yields the same facts.  A
summary of every callee in the project is instantiated at its call sites.

Facts:
  ("EQ", a, b)      a and b compared and found equal
  ("LE", a, b)      a <= b (up to the precision the code uses)
  ("NULL", a) / ("NN", a)   pointer null / not null
  ("DC", a, type)   a is of the dynamic type
  ("T", t) / ("F", t)       the boolean term t holds / does not
  ("DONE", callee, recv, args)  the call was executed and came back normally
"""
import sys
from sa.core import strip, auto_of, short

sys.setrecursionlimit(20000)
BOT = None  # unreachable
MCOPS = ("operator->", "operator*", "retn", "retnConstCast", "iAmATrollConstCast", "shameOnMe", "takeRef", "get", "")
ITER_BEGIN = ("begin", "cbegin", "rbegin", "getConstPointer", "getPointer", "data", "getConstPointerLoc", "rwBegin")


def mentions(t, x):
    if t == x:
        return True
    if isinstance(t, tuple):
        for k in t:
            if isinstance(k, tuple) and mentions(k, x):
                return True
    return False


def has_local(t):
    if isinstance(t, tuple):
        if t and t[0] in ("l", "?"):
            return True
        return any(has_local(k) for k in t if isinstance(k, tuple))
    return False


def subst(t, m):
    if not isinstance(t, tuple):
        return t
    if t[0] == "this":
        return m.get("this", ("?", "this"))
    if t[0] == "p":
        return m.get(t[1], ("?", "p"))
    return tuple(subst(k, m) if isinstance(k, tuple) else k for k in t)


def root(t):
    while t[0] in ("f", "[]"):
        t = t[1]
    return t


def defs_of(f):
    """var -> list of ("init"|"asg", expr) / ("inc",) / ("mut",)"""
    a = f._aux.get("defs")
    if a is not None:
        return a
    P = f.P
    d = {}

    def add(v, x):
        d.setdefault(v, []).append(x)

    def base_var(e):
        e = f.e(e)
        while e is not None:
            if e[0] == "v":
                return e[1]
            if e[0] == "cast":
                e = f.e(e[4])
                continue
            if e[0] == "x":
                return None
            if e[0] == "m" and not e[3]:
                e = f.e(e[1])
                continue
            return None
        return None

    for b, i, ln, n in f.all_nodes():
        t = n[0]
        if t == "decl":
            for v, ini in n[1:]:
                if ini is not None:
                    add(v, ("init", ini))
        elif t == "b" and n[1].endswith("=") and n[1] not in ("==", "!=", "<=", ">="):
            l = f.e(n[2])
            if l[0] == "v":
                add(l[1], ("asg", n[3]) if n[1] == "=" else ("mut",))
            else:
                v = base_var(n[2])
                if v is not None:
                    add(v, ("mut",))
        elif t == "u" and n[1] in ("++", "--", "p++", "p--"):
            l = f.e(n[2])
            if l[0] == "v":
                add(l[1], ("inc",))
            else:
                v = base_var(n[2])
                if v is not None:
                    add(v, ("mut",))
        elif t == "u" and n[1] == "&":
            v = base_var(n[2])
            if v is not None:
                add(v, ("addr",))
        elif t in ("c", "k"):
            cal = P.D.get(f.S[n[1]])
            if cal is None:
                continue
            ps = cal.params
            for k, a in enumerate(n[2]):
                if k < len(ps) and ps[k][1].endswith("&") and not ps[k][1].startswith("const ") and \
                        " const &" not in ps[k][1]:
                    v = base_var(a)
                    if v is not None:
                        add(v, ("mut",))
            if t == "c" and n[3] is not None and not cal.const and not cal.static:
                v = base_var(n[3])
                if v is not None:
                    if cal.nm in ("operator++", "operator--"):
                        add(v, ("inc",))
                    elif cal.nm == "operator=" and len(n[2]) == 1:
                        add(v, ("asg", n[2][0]))
                    elif auto_of(f.vtype(v)) is not None and cal.nm != "takeRef":
                        pass
                    elif cal.nm in ("begin", "end", "rbegin", "rend", "operator[]", "at", "front", "back", "data",
                                    "operator*", "operator->", "find"):
                        pass
                    elif f.vtype(v).rstrip().endswith(("&", "*")):
                        pass
                    else:
                        add(v, ("mut",))
        elif t == "lam":
            for c in n[2]:
                if c and c[0] == "cap" and c[2]:
                    add(c[1], ("addr",))
    f._aux["defs"] = d
    return d


def reaching(f):
    """use node of a local with several plain definitions -> {id(def): def expression} reaching it"""
    r = f._aux.get("reach")
    if r is not None:
        return r
    r = f._aux["reach"] = {}
    ds = defs_of(f)
    multi = {v for v, l in ds.items() if len(l) > 1 and f.vkind(v) == "l" and all(d[0] in ("init", "asg") for d in l)}
    if not multi:
        return r
    IN = {f.entry: {}}
    work = list(f.rpo)
    it = 0

    def step(b, st, rec):
        for i in f.bl[b][1]:
            ln, ex = f.el[i]
            if ex[0] == "r":
                continue
            new = []
            for n in f.walk(ex):
                if n[0] == "v" and n[1] in multi and rec:
                    r[id(n)] = st.get(n[1], {})
                elif n[0] == "decl":
                    for v, ini in n[1:]:
                        if v in multi and ini is not None:
                            new.append((v, ini))
                elif n[0] == "b" and n[1] == "=":
                    l = f.e(n[2])
                    if l[0] == "v" and l[1] in multi:
                        new.append((l[1], n[3]))
                elif n[0] == "c" and n[3] is not None and len(n[2]) == 1:
                    l = f.e(n[3])
                    if l[0] == "v" and l[1] in multi:
                        d = f.P.D.get(f.S[n[1]])
                        if d is not None and d.nm == "operator=":
                            new.append((l[1], n[2][0]))
            for v, e in new:
                st[v] = {id(e): e}
        if rec and f.bl[b][2] is not None and f.bl[b][2][1] is not None:
            for n in f.walk(f.bl[b][2][1]):
                if n[0] == "v" and n[1] in multi:
                    r[id(n)] = st.get(n[1], {})
        return st

    ch = True
    while ch and it < 40:
        ch = False
        it += 1
        for b in f.rpo:
            if b not in IN:
                continue
            o = step(b, dict(IN[b]), False)
            for s in f.succs(b):
                if s not in IN:
                    IN[s] = dict(o)
                    ch = True
                else:
                    t = IN[s]
                    for v, d in o.items():
                        if v not in t:
                            t[v] = d
                            ch = True
                        elif not set(d) <= set(t[v]):
                            t[v] = {**t[v], **d}
                            ch = True
    for b in f.rpo:
        if b in IN:
            step(b, dict(IN[b]), True)
    return r


class Engine:
    def __init__(self, P, eqfns=None, maxdepth=14):
        self.P = P
        self.sum = {}
        self.stack = []
        self.maxdepth = maxdepth
        self.ret = {}
        self.eqfns = eqfns or (lambda name, d: False)
        self.nfn = 0
        self.track_done = True

    # ------------------------------------------------------------------------------------------------ terms
    def term(self, f, e, depth=0):
        if e is None:
            return ("?", "none")
        c = f._aux.setdefault("term", {})
        k = id(e)
        if k in c:
            return c[k]
        if depth > 40:
            return ("?", "deep")
        r = self._term(f, e, depth)
        c[k] = r
        return r

    def _term(self, f, e, depth):
        e = f.e(e)
        t = e[0]
        T = lambda x: self.term(f, x, depth + 1)
        if t == "this":
            return ("this",)
        if t in ("i",):
            return ("c", e[1])
        if t == "e":
            return ("c", e[2])
        if t in ("f", "s"):
            return ("c", e[1])
        if t == "null":
            return ("c", "null")
        if t == "g":
            return ("g", f.S[e[1]])
        if t == "v":
            ds = defs_of(f).get(e[1])
            if ds is not None and len(ds) > 1 and f.vkind(e[1]) == "l" and f.vtype(e[1]) != "bool" and \
                    all(d[0] in ("init", "asg") for d in ds):
                d = reaching(f).get(id(e))
                if d is not None and len(d) == 1:
                    x = f.e(next(iter(d.values())))
                    if x[0] not in ("il", "new") and not (x[0] == "k" and not x[2]):
                        return self.term(f, x, depth + 1)
            return self.var_term(f, e[1], depth)
        if t == "m":
            return ("f", T(e[1]), f.S[e[2]])
        if t == "cast":
            return T(e[4])
        if t == "u":
            if e[1] == "*":
                x = self.unit(T(e[2]))
                return x
            if e[1] == "&":
                return T(e[2])
            if e[1] in ("++", "--", "p++", "p--"):
                return T(e[2])
            return ("op", e[1], T(e[2]))
        if t == "x":
            return self.index(T(e[1]), T(e[2]))
        if t == "b":
            if e[1] == ",":
                return T(e[3])
            if e[1] == "=":
                return T(e[3])
            return ("op", e[1], T(e[2]), T(e[3]))
        if t == "?:":
            return ("op", "?:", T(e[1]), T(e[2]), T(e[3]))
        if t == "k":
            cls = f.S[e[3]]
            if len(e[2]) == 1:
                d = self.P.D.get(f.S[e[1]])
                if auto_of(cls) is not None or (d is not None and (d.cctor or (
                        d.params and strip(d.params[0][1]) == strip(cls)))):
                    return T(e[2][0])
            return ("call", "new " + short(cls), None) + tuple(T(a) for a in e[2])
        if t == "c":
            return self.call_term(f, e, depth)
        if t == "new":
            return ("?", "new", id(e))
        if t == "il" and len(e[1]) == 1:
            return T(e[1][0])
        if t == "sz":
            return ("c", "sizeof " + f.S[e[1]])
        return ("?", id(e))

    def unit(self, x):
        """dereference of a pointer/iterator term"""
        if x[0] == "call" and x[1] in ITER_BEGIN and x[2] is not None:
            return ("[]", x[2], ("c", 0))
        if x[0] == "itr":
            return ("[]", x[1], ("it",))
        if x[0] == "op" and x[1] == "+" and len(x) == 4:
            return self.index(x[2], x[3])
        return x

    def index(self, b, i):
        if b[0] == "call" and b[1] in ITER_BEGIN and b[2] is not None:
            b = b[2]
        if b[0] == "itr":
            return ("[]", b[1], ("it", i))
        return ("[]", b, i)

    def var_term(self, f, v, depth):
        kind = f.vkind(v)
        ds = defs_of(f).get(v, [])
        me = ("l", v, f.vname(v))
        if kind == "p":
            if any(d[0] == "asg" for d in ds):
                return me
            if any(d[0] == "inc" for d in ds):
                return ("itr", ("p", v))
            return ("p", v)
        if kind == "s":
            return me
        real = [d for d in ds if d[0] in ("init", "asg")]
        soft = [d for d in ds if d[0] not in ("init", "asg")]
        # constructor of an empty container / default: opaque local
        if len(real) == 1 and not soft:
            if depth > 30:
                return me
            e = f.e(real[0][1])
            if e[0] == "k" and not e[2]:
                return me
            if e[0] in ("il",):
                return me
            if e[0] == "new":
                return me
            g = self.term(f, e, depth + 1)
            return g
        if real and soft and all(d[0] == "inc" for d in soft):
            ts = {self.term(f, d[1], depth + 1) for d in real}
            if len(ts) == 1:
                t = next(iter(ts))
                if t[0] == "call" and t[1] in ITER_BEGIN and t[2] is not None:
                    return ("itr", t[2])
                if f.vtype(v).rstrip().endswith("*") and t[0] not in ("c", "?", "l"):
                    return ("itr", t)
        if len(real) > 1 and not soft:
            ts = {self.term(f, d[1], depth + 1) for d in real}
            ts2 = {t for t in ts if t != ("c", "null") and not (t[0] == "call" and t[1].startswith("new "))}
            if len(ts2) == 1 and not f.vtype(v) == "bool":
                t = next(iter(ts2))
                if t[0] not in ("c", "?", "l") and len(ts) == 1:
                    return t
        return me

    def call_term(self, f, e, depth):
        name = f.S[e[1]]
        d = self.P.D.get(name)
        nm = d.nm if d is not None else short(name)
        T = lambda x: self.term(f, x, depth + 1)
        base = T(e[3]) if e[3] is not None else None
        if d is not None and d.cls is not None and base is not None:
            if auto_of(d.cls) is not None and (nm in MCOPS or nm.startswith("operator ")):
                return base
            if d.cls.startswith("std::") and (nm in ("operator->", "get", "c_str", "str", "operator bool") and not e[2]):
                return base
            if nm in ("operator*",) and not e[2] and d.cls.startswith(("std::", "__gnu_cxx::")):
                return self.unit(base)
            if nm in ("operator[]", "at") and len(e[2]) == 1:
                return self.index(base, T(e[2][0]))
            if nm == "operator->" and d.cls.startswith("__gnu_cxx::"):
                return self.unit(base)
        if nm in ("operator*", "operator->", "operator[]") and d is not None and d.cls and \
                d.cls.startswith(("__gnu_cxx::", "std::")) and base is not None:
            return self.index(base, T(e[2][0])) if e[2] else self.unit(base)
        if nm in ("ToIdType", "FromIdType", "CheckAndGetName", "move", "forward", "addressof", "DynamicCast",
                  "DynamicCastSafe", "StaticCast") and len(e[2]) >= 1 and base is None:
            return T(e[2][0])
        # getter
        r = self.ret_term(name, f, e)
        if r is not None:
            m = {"this": base} if base is not None else {}
            for i, a in enumerate(e[2]):
                m[i] = T(a)
            return subst(r, m)
        return ("call", nm, base) + tuple(T(a) for a in e[2])

    def ret_term(self, name, f=None, e=None):
        """term of a function that is one return of an access path"""
        P = self.P
        if f is not None:
            d = P.D.get(name)
            if d is not None and d.virt and not e[4]:
                tg = [t for t in P.targets(f, e) if t in P.F]
                if not tg or len(tg) > 8:
                    return None
                rs = {self.ret_term(t) for t in tg}
                return next(iter(rs)) if len(rs) == 1 else None
        if name in self.ret:
            return self.ret[name]
        self.ret[name] = None
        g = P.F.get(name)
        if g is None or len(g.o.get("bl", ())) > 24:
            return None
        rets = [x for b, i, ln, x in g.all_nodes() if x[0] == "ret"]
        if len(rets) > 1 and g.rt.rstrip().endswith("*"):
            ts = {self.term(g, x[1]) for x in rets if x[1] is not None}
            ts.discard(("c", "null"))
            if len(ts) == 1:
                t = next(iter(ts))
                if not has_local(t) and t[0] in ("f", "this", "p"):
                    self.ret[name] = t
                    return t
            return None
        if len(rets) != 1 or rets[0][1] is None:
            return None
        # only an effect-free body
        for b, i, ln, x in g.all_nodes():
            if x[0] in ("thr", "del", "new"):
                return None
            if x[0] == "b" and x[1].endswith("=") and x[1] not in ("==", "!=", "<=", ">="):
                return None
            if x[0] == "u" and x[1] in ("++", "--", "p++", "p--"):
                return None
        if any(b[2] is not None for b in g.bl.values()):
            return None
        t = self.term(g, rets[0][1])
        if has_local(t) or t[0] not in ("f", "this", "p", "c", "[]", "call", "op", "g"):
            return None
        if t[0] in ("call", "op"):
            # keep accessor chains only
            if len(repr(t)) > 400:
                return None
        self.ret[name] = t
        return t

    # ------------------------------------------------------------------------------------------------ conditions
    def implied(self, f, e, val, depth=0):
        """facts known when e evaluates to val; BOT when impossible"""
        e = f.e(e)
        if depth > 60:
            return frozenset()
        I = lambda x, v: self.implied(f, x, v, depth + 1)
        t = e[0]
        if t == "i":
            return frozenset() if bool(e[1]) == val else BOT
        if t == "u" and e[1] == "!":
            return I(e[2], not val)
        if t == "cast":
            if e[2] in ("PointerToBoolean",):
                return self.nul(f, e[4], not val)
            if e[2] in ("IntegralToBoolean", "FloatingToBoolean"):
                x = f.e(e[4])
                if x[0] in ("c",) and strip(f.S[e[5]]) not in ("bool",):
                    tt = self.term(f, x)
                    if not val:
                        return frozenset([self.eq(tt, ("c", 0))]) | self.cmp0(f, x)
                    return frozenset([("NZ", tt)])
            return I(e[4], val)
        if t == "b":
            op = e[1]
            if op == "&&" or op == "||":
                a, b = e[2], e[3]
                if (op == "&&") == val:
                    return join_and(I(a, val), I(b, val))
                # a && b false: a false, or a true and b false
                av, an, bv, bn = I(a, val), I(a, not val), I(b, val), I(b, not val)
                r = meet(av, join_and(an, bv))
                if r is not BOT:
                    imp = set()
                    for ps, qs in ((an, bv), (bn, av)):
                        if ps is BOT or qs is BOT:
                            continue
                        ps = [p for p in ps if p[0] in ("NN", "NULL", "T", "F")]
                        if len(ps) == 1:
                            for q in qs:
                                if q[0] in ("NN", "NULL", "EQ", "T", "F"):
                                    imp.add(("IMP", ps[0], q))
                    r = r | imp
                return r
            if op == "=":
                return I(e[3], val)
            if op == ",":
                return I(e[3], val)
            if op in ("==", "!="):
                pos = (op == "==") == val
                l, r = f.e(e[2]), f.e(e[3])
                if self.isnull(f, r):
                    return self.nul(f, l, pos)
                if self.isnull(f, l):
                    return self.nul(f, r, pos)
                for a, b in ((l, r), (r, l)):
                    if b[0] == "i" and b[1] in (0, 1) and self.isbool(f, a):
                        return I(a, bool(b[1]) == pos)
                s = set()
                if pos:
                    s.add(self.eq(self.term(f, l), self.term(f, r)))
                    for a, b in ((l, r), (r, l)):
                        if b[0] == "i" and b[1] == 0:
                            s |= self.cmp0(f, a)
                else:
                    s.add(("NE",) + self.eq(self.term(f, l), self.term(f, r))[1:])
                return frozenset(s)
            if op in ("<", ">", "<=", ">="):
                return self.rel(f, op, e[2], e[3], val)
        if t == "?:":
            return meet(join_and(I(e[1], True), I(e[2], val)), join_and(I(e[1], False), I(e[3], val)))
        if t == "v":
            v = e[1]
            ds = defs_of(f).get(v, [])
            real = [d for d in ds if d[0] in ("init", "asg")]
            if len(real) == 1 and len(ds) == 1 and f.vkind(v) == "l":
                if f.vtype(v).rstrip().endswith("*"):
                    return self.nul(f, e, not val)
                r = I(real[0][1], val)
                return r
            return frozenset([("T" if val else "F", self.term(f, e))])
        if t == "c":
            return self.call_cond(f, e, val, depth)
        if t in ("m", "x"):
            return frozenset([("T" if val else "F", self.term(f, e))])
        return frozenset()

    def isbool(self, f, e):
        e = f.e(e)
        if e[0] == "cast":
            return self.isbool(f, e[4]) if e[2] != "IntegralCast" or True else False
        if e[0] == "c":
            d = self.P.D.get(f.S[e[1]])
            return d is not None and d.rt == "bool"
        if e[0] == "v":
            return f.vtype(e[1]) == "bool"
        if e[0] == "u" and e[1] == "!":
            return True
        if e[0] == "b" and e[1] in ("==", "!=", "<", ">", "<=", ">=", "&&", "||"):
            return True
        return False

    def isnull(self, f, e):
        e = f.e(e)
        while e[0] == "cast":
            e = f.e(e[4])
        return e[0] == "null"

    def nul(self, f, e, isnull):
        x = f.e(e)
        dc = None
        seen = 0
        while seen < 20:
            seen += 1
            if x[0] == "cast":
                if x[1] == "d":
                    dc = x
                    break
                x = f.e(x[4])
            elif x[0] == "v" and f.vkind(x[1]) == "l":
                ds = defs_of(f).get(x[1], [])
                if len(ds) == 1 and ds[0][0] in ("init", "asg"):
                    x = f.e(ds[0][1])
                else:
                    break
            else:
                break
        t = self.term(f, e)
        if t[0] == "itr":
            t = t[1]
        if dc is not None:
            ty = strip(f.S[dc[3]])
            if isnull:
                return frozenset([("NDC", t, ty)])
            return frozenset([("DC", t, ty), ("NN", t)])
        return frozenset([("NULL" if isnull else "NN", t)])

    def eq(self, a, b):
        if a[0] == b[0] == "call" and a[1] == b[1] and a[1] in ITER_BEGIN and len(a) == len(b) == 3 and a[2] and b[2]:
            a, b = a[2], b[2]
        if repr(a) > repr(b):
            a, b = b, a
        return ("EQ", a, b)

    def cmp0(self, f, e):
        """x.compare(y)==0, strcmp(x,y)==0"""
        e = f.e(e)
        if e[0] == "c":
            d = self.P.D.get(f.S[e[1]])
            if d is not None:
                if d.nm == "compare" and e[3] is not None and len(e[2]) == 1:
                    return {self.eq(self.term(f, e[3]), self.term(f, e[2][0]))}
                if d.nm in ("strcmp", "memcmp", "strncmp") and len(e[2]) >= 2:
                    return {self.eq(self.term(f, e[2][0]), self.term(f, e[2][1]))}
        return set()

    def rel(self, f, op, l, r, val):
        neg = {"<": ">=", ">": "<=", "<=": ">", ">=": "<"}
        if not val:
            op = neg[op]
        L, R = self.term(f, l), self.term(f, r)
        s = set()
        if op in ("<", "<="):
            s.add(("LE", L, R))
            if op == "<":
                s.add(("LT", L, R))
            small, big = L, R
        else:
            s.add(("LE", R, L))
            if op == ">":
                s.add(("LT", R, L))
            small, big = R, L
        # |a-b| <= eps ; a-b <= eps ; -eps <= a-b
        a = small
        if a[0] == "call" and a[1] in ("fabs", "abs", "fabsf", "fabsl") and len(a) == 4:
            x = a[3]
            if x[0] == "op" and x[1] == "-" and len(x) == 4:
                s.add(self.eq(x[2], x[3]))
        if a[0] == "op" and a[1] == "-" and len(a) == 4:
            s.add(("LE", a[2], a[3]))
        if big[0] == "op" and big[1] == "-" and len(big) == 4:
            s.add(("LE", big[3], big[2]))
        return frozenset(s)

    def call_cond(self, f, e, val, depth):
        P = self.P
        name = f.S[e[1]]
        d = P.D.get(name)
        if d is None:
            return frozenset()
        nm = d.nm
        base = e[3]
        # smart pointer null tests
        if d.cls is not None and auto_of(d.cls) is not None and base is not None:
            if nm == "isNull":
                return self.nul(f, base, val)
            if nm == "isNotNull":
                return self.nul(f, base, not val)
            if nm.startswith("operator ") and not e[2]:
                return self.nul(f, base, not val)
            if nm == "operator==" and len(e[2]) == 1:
                if self.isnull(f, e[2][0]):
                    return self.nul(f, base, val)
                return frozenset([self.eq(self.term(f, base), self.term(f, e[2][0]))]) if val else frozenset()
        if nm in ("operator==", "operator!="):
            ops = ([base] if base is not None else []) + list(e[2])
            if len(ops) == 2:
                pos = (nm == "operator==") == val
                a, b = ops
                if self.isnull(f, b):
                    return self.nul(f, a, pos)
                if self.isnull(f, a):
                    return self.nul(f, b, pos)
                ta, tb = self.term(f, a), self.term(f, b)
                s = set()
                if pos:
                    s.add(self.eq(ta, tb))
                    if name in P.F:
                        x = self.inst(f, e, self.summary(name)[0 if nm == "operator==" else 1])
                        s |= x or set()
                else:
                    s.add(("NE",) + self.eq(ta, tb)[1:])
                return frozenset(s)
        if nm == "empty" and base is not None and not e[2]:
            t = self.term(f, base)
            return frozenset([("EMPTY", t)]) if val else frozenset([("NEMPTY", t)])
        s = set()
        tt = ("call", nm, self.term(f, base) if base is not None else None) + tuple(self.term(f, a) for a in e[2])
        s.add(("T" if val else "F", tt))
        if nm == "equal" and len(e[2]) >= 3 and val and (d.name.startswith("std::") or d.cls is None):
            a, b = self.term(f, e[2][0]), self.term(f, e[2][2])
            en = self.term(f, e[2][1])
            for q in ITER_BEGIN:
                pass
            ca = a[2] if a[0] == "call" and a[1] in ITER_BEGIN and a[2] is not None else a
            cb = b[2] if b[0] == "call" and b[1] in ITER_BEGIN and b[2] is not None else b
            ok = True
            if en[0] == "call" and en[1] in ("end", "cend"):
                ok = en[2] == ca
            s.add(self.eq(("[]", ca, ("all",)), ("[]", cb, ("all",))))
            if ok:
                s.add(self.eq(ca, cb))
        if self.eqfns(name, d) and val:
            ops = ([base] if base is not None else []) + list(e[2])
            if len(ops) >= 2:
                s.add(self.eq(self.term(f, ops[0]), self.term(f, ops[1])))
        # summaries
        tg = [t for t in (P.targets(f, e) if d.virt else [name])]
        known = [t for t in tg if t in P.F]
        if known and (not d.virt or len(known) <= 8):
            acc = BOT
            for t in known:
                sm = self.summary(t)
                acc = meet(acc, sm[0] if val else sm[1])
            if acc is not BOT:
                x = self.inst(f, e, acc)
                s |= x
        return frozenset(s)

    # ------------------------------------------------------------------------------------------------ summaries
    def inst(self, f, e, facts):
        if facts is BOT:
            return None
        m = {}
        if e[0] == "c" and e[3] is not None:
            m["this"] = self.term(f, e[3])
        for i, a in enumerate(e[2]):
            m[i] = self.term(f, a)
        r = set()
        for x in facts:
            y = subst(x, m)
            if y[0] == "EQ":
                y = self.eq(y[1], y[2])
            r.add(y)
        return r

    def summary(self, name):
        """(facts on return true, on return false, on any normal return); BOT where impossible"""
        if name in self.sum:
            return self.sum[name]
        g = self.P.F.get(name)
        if g is None or name in self.stack or len(self.stack) > self.maxdepth or "nocfg" in g.o:
            return (frozenset(), frozenset(), frozenset())
        self.stack.append(name)
        try:
            r = self.analyse(g)[0]
        finally:
            self.stack.pop()
        # facts on locals do not leave the function
        def ext(s):
            if s is BOT:
                return BOT
            return frozenset(x for x in s if not any(has_local(k) for k in x if isinstance(k, tuple)))
        r = tuple(ext(s) for s in r)
        if not self.stack or True:
            self.sum[name] = r
        return r

    def loops(self, f):
        """header -> list of back edge sources"""
        a = f._aux.get("loops")
        if a is None:
            a = {}
            for b in f.rpo:
                for s in f.succs(b):
                    if f.dominates(s, b):
                        a.setdefault(s, []).append(b)
            f._aux["loops"] = a
        return a

    def leaving(self, f, b, s):
        """bodies of the loops whose normal exit is the edge b -> s (the loop's own test fails)"""
        r = []
        for h in self.loops(f):
            body = self.in_loop(f, h)
            if b in body and s not in body and self.tests(f, h, b):
                r.append(body)
        return r

    def tests(self, f, h, b):
        """b holds the test of the loop of header h (reached from h without a branch)"""
        x, seen = h, set()
        while x not in seen:
            seen.add(x)
            if x == b:
                return True
            if f.bl[x][2] is not None:
                return False
            nx = [y for y in f.bl[x][3][:1] if y is not None]
            if not nx:
                return False
            x = nx[0]
        return False

    def in_loop(self, f, h):
        """blocks of the natural loop of header h"""
        c = f._aux.setdefault("loopbody", {})
        if h not in c:
            body = {h}
            st = list(self.loops(f).get(h, ()))
            while st:
                x = st.pop()
                if x in body:
                    continue
                body.add(x)
                st.extend(f.pred[x])
            c[h] = body
        return c[h]

    def analyse(self, f, want_points=False):
        """forward must analysis; returns ((T,F,ANY), in-states per block, exits)"""
        self.nfn += 1
        tracked = [i for i, v in enumerate(f.vars) if v[1] == "bool" and v[2] == "l" and
                   len(defs_of(f).get(i, ())) > 1 and all(d[0] in ("init", "asg") for d in defs_of(f)[i])][:4]
        tracked = set(tracked)
        IN = {f.entry: {(): frozenset()}}
        loops = self.loops(f)
        back = {}
        T = F = A = BOT
        exits = []
        order = f.rpo
        pos = {b: i for i, b in enumerate(order)}
        edge = {}
        force = False
        it = 0
        while True:
            changed = False
            it += 1
            T = F = A = BOT
            exits = []
            for b in order:
                if b == f.entry:
                    st = {(): frozenset()}
                else:
                    st = None
                    stb = None
                    isloop = b in loops
                    for p in f.pred[b]:
                        x = edge.get((p, b))
                        if x is None:
                            continue
                        if isloop and p in loops[b]:
                            stb = merge(stb, x)
                            st = merge(st, x)
                        else:
                            st = merge(st, x)
                    if isloop:
                        back[b] = stb
                if st is None:
                    continue
                IN[b] = st
                out, rets = self.transfer(f, b, st, tracked)
                for (ln, e, s) in rets:
                    tv = self.implied(f, e, True) if e is not None and f.rt == "bool" else frozenset()
                    fv = self.implied(f, e, False) if e is not None and f.rt == "bool" else frozenset()
                    for key, ss in s.items():
                        kv = dict(key)
                        ee = f.e(e) if e is not None else None
                        t1, f1 = tv, fv
                        if ee is not None and ee[0] == "v" and ee[1] in kv:
                            t1 = frozenset() if kv[ee[1]] else BOT
                            f1 = frozenset() if not kv[ee[1]] else BOT
                        T = meet(T, BOT if t1 is BOT else self.close(ss, t1))
                        F = meet(F, BOT if f1 is BOT else self.close(ss, f1))
                        A = meet(A, ss)
                    exits.append((b, ln, e, s))
                blk = f.bl[b]
                term = blk[2]
                if out is None:
                    continue
                # loop exit: at least one iteration is assumed for facts about what the loop visits
                outx = out
                if b in loops and back.get(b) is not None:
                    bo, _ = self.transfer(f, b, back[b], tracked)
                    if bo is not None:
                        outx = {}
                        for k in bo:
                            outx[k] = bo[k] | (out.get(k) or frozenset())
                body = self.in_loop(f, b) if b in loops else None
                succ = blk[3]
                for k, s in enumerate(succ):
                    if s is None:
                        continue
                    o = out
                    if body is not None and s not in body:
                        o = outx
                        if back.get(b) is None and not force:
                            continue
                    if term is None and k >= 1:
                        # exceptional edge of a call: nothing the block did is known to have happened
                        if s == f.exit:
                            continue
                        o = st
                    if term is not None and len(succ) == 2 and term[0] not in ("SwitchStmt", "CXXTryStmt", "catch") \
                            and term[1] is not None:
                        val = (k == 0)
                        if succ[0] == succ[1]:
                            o2 = o
                        else:
                            o2 = self.assume(f, term[1], val, o, tracked)
                    elif term is not None and term[0] == "SwitchStmt" and term[1] is not None:
                        lab = f.bl[s][4]
                        if lab and lab[0] == "case" and lab[1] is not None and lab[1] == lab[2]:
                            q = self.eq(self.term(f, term[1]), ("c", lab[1]))
                            o2 = {kk: vv | {q} for kk, vv in o.items()}
                        else:
                            o2 = o
                    else:
                        o2 = o
                    if not o2:
                        if (b, s) in edge:
                            pass
                        continue
                    if s == f.exit:
                        if not rets and not blk[5] and not self.throws(f, b):
                            for ss in o2.values():
                                T = meet(T, ss)
                                F = meet(F, ss)
                                A = meet(A, ss)
                            exits.append((b, None, None, o2))
                        continue
                    if edge.get((b, s)) != o2:
                        edge[(b, s)] = o2
                        changed = True
            if it > 60:
                break
            if not changed:
                if force or all(back.get(h) is not None for h in loops if h in IN):
                    break
                force = True
        return (T, F, A), IN, exits

    def throws(self, f, b):
        for i in f.bl[b][1]:
            if f.el[i][1][0] == "thr":
                return True
        return False

    def assume(self, f, c, val, st, tracked):
        e = f.e(c)
        neg = False
        while e[0] == "u" and e[1] == "!":
            e = f.e(e[2])
            neg = not neg
        res = {}
        if e[0] == "v" and e[1] in tracked:
            v = val != neg
            for k, s in st.items():
                kv = dict(k)
                if e[1] in kv:
                    if kv[e[1]] == v:
                        res[k] = s
                else:
                    kv[e[1]] = v
                    res[tuple(sorted(kv.items()))] = s
            return res
        im = self.implied(f, c, val)
        if im is BOT:
            return {}
        for k, s in st.items():
            # contradiction pruning on null facts
            bad = False
            for x in im:
                if x[0] == "NULL" and ("NN", x[1]) in s:
                    bad = True
                elif x[0] == "NN" and ("NULL", x[1]) in s:
                    bad = True
                elif x[0] == "T" and ("F", x[1]) in s and x[1][0] != "[]":
                    bad = True
                elif x[0] == "F" and ("T", x[1]) in s and x[1][0] != "[]":
                    bad = True
                elif x[0] == "NE" and ("EQ",) + x[1:] in s and not any(has_local(q) for q in x[1:]) and \
                        not any("[]" in repr(q) or "call" in repr(q) for q in x[1:]):
                    bad = True
            if not bad:
                res[k] = self.close(s, im)
        return res

    def close(self, s, im):
        """both null, or each not above the other: equal"""
        r = s | im
        imps = [x for x in r if x[0] == "IMP"]
        while imps:
            new = {x[2] for x in imps if x[1] in r and x[2] not in r}
            if not new:
                break
            im = im | new
            r = r | new
        add = set()
        for x in im:
            if x[0] in ("NULL", "EMPTY"):
                for y in r:
                    if y[0] == x[0] and y[1] != x[1] and mirror(x[1], y[1]):
                        add.add(self.eq(x[1], y[1]))
            elif x[0] == "LE" and ("LE", x[2], x[1]) in r:
                add.add(self.eq(x[1], x[2]))
        return r | add if add else r

    def transfer(self, f, b, st, tracked):
        cur = dict(st)
        rets = []
        for i in f.bl[b][1]:
            ln, ex = f.el[i]
            if ex[0] == "r":
                continue
            for n in f.walk(ex):
                t = n[0]
                if t == "decl":
                    for v, ini in n[1:]:
                        cur = self.assign(f, v, ini, cur, tracked)
                elif t == "b" and n[1] == "=":
                    l = f.e(n[2])
                    if l[0] == "v":
                        cur = self.assign(f, l[1], n[3], cur, tracked)
                    else:
                        cur = self.kill_term(f, self.term(f, l), cur)
                elif t == "b" and n[1].endswith("=") and n[1] not in ("==", "!=", "<=", ">="):
                    l = f.e(n[2])
                    if l[0] == "v":
                        cur = self.assign(f, l[1], None, cur, tracked)
                    else:
                        cur = self.kill_term(f, self.term(f, l), cur)
                elif t == "u" and n[1] in ("++", "--", "p++", "p--"):
                    l = f.e(n[2])
                    if l[0] == "v":
                        cur = self.generalize(f, l[1], cur)
                elif t == "c" or t == "k":
                    cur = self.do_call(f, n, cur)
                elif t == "ret":
                    rets.append((ln, n[1], cur))
        if rets:
            # facts of the very return expression are already in cur
            rets = [(ln, e, cur) for ln, e, _ in rets]
            return cur, rets
        return cur, rets

    def generalize(self, f, v, cur):
        """the counter moves on: what was said of element [v] now is of the elements visited"""
        me = ("l", v, f.vname(v))
        full = self.covering(f, v)
        out = {}
        for k, s in cur.items():
            n = set()
            for x in s:
                if mentions(x, me):
                    y = gen(x, me) if full else None
                    if y is not None and not mentions(y, me):
                        if y[0] == "EQ":
                            y = self.eq(y[1], y[2])
                            n |= self.spread(f, y)
                            a, c = y[1], y[2]
                            while a[0] == c[0] == "[]" and a[2] == c[2] and a[2][0] in ("all", "it"):
                                a, c = a[1], c[1]
                                n.add(self.eq(a, c))
                        n.add(y)
                else:
                    n.add(x)
            out[k] = frozenset(n)
        return out

    def covering(self, f, v):
        """a counter that starts at 0, only goes up by one, and is not stopped short of a size"""
        c = f._aux.setdefault("cover", {})
        if v not in c:
            ok = True
            for d in defs_of(f).get(v, []):
                if d[0] in ("init", "asg"):
                    e = f.e(d[1])
                    while e[0] == "cast":
                        e = f.e(e[4])
                    if e[0] == "i" and e[1] != 0:
                        ok = False
            for b, i, ln, n in f.all_nodes():
                if n[0] == "b" and n[1] in ("<", "!=", "<="):
                    l = f.e(n[2])
                    while l[0] == "cast":
                        l = f.e(l[4])
                    if l[0] == "v" and l[1] == v and any(b == h for h in self.loops(f)):
                        t = self.term(f, n[3])
                        if t[0] == "op" and t[1] in ("-", "/", ">>"):
                            ok = False
            c[v] = ok
        return c[v]

    def spread(self, f, y):
        """two local arrays written as {a,b,c} and {d,e,f} compared element by element"""
        a, b = y[1], y[2]
        if a[0] != "[]" or b[0] != "[]" or a[1][0] != "l" or b[1][0] != "l" or a[2] != b[2]:
            return set()
        xs = []
        for t in (a[1], b[1]):
            ds = defs_of(f).get(t[1], [])
            if len(ds) != 1 or ds[0][0] != "init":
                return set()
            e = f.e(ds[0][1])
            if e[0] != "il":
                return set()
            xs.append([self.term(f, k) for k in e[1]])
        if len(xs[0]) != len(xs[1]):
            return set()
        return {self.eq(p, q) for p, q in zip(*xs)}

    def assign(self, f, v, e, cur, tracked):
        me = ("l", v, f.vname(v))
        out = {}
        tv = fv = frozenset()
        if v in tracked and e is not None:
            tv, fv = self.implied(f, e, True), self.implied(f, e, False)
        for k, s in cur.items():
            s = frozenset(x for x in s if not mentions(x, me))
            if v in tracked:
                kv = dict(k)
                if e is None:
                    kv.pop(v, None)
                    kk = tuple(sorted(kv.items()))
                    out[kk] = s if kk not in out else out[kk] & s
                    continue
                for val, im in ((True, tv), (False, fv)):
                    if im is BOT:
                        continue
                    ee = f.e(e)
                    if ee[0] == "v" and ee[1] in kv and kv[ee[1]] != val:
                        continue
                    kv2 = dict(kv)
                    kv2[v] = val
                    kk = tuple(sorted(kv2.items()))
                    ns = s | im
                    out[kk] = ns if kk not in out else out[kk] & ns
            else:
                out[k] = s if k not in out else out[k] & s
        return out

    def kill_term(self, f, t, cur):
        if t[0] not in ("f", "[]"):
            return cur
        return {k: frozenset(x for x in s if x[0] == "DONE" or not mentions(x, t)) for k, s in cur.items()}

    def do_call(self, f, n, cur):
        P = self.P
        name = f.S[n[1]]
        d = P.D.get(name)
        if d is None:
            return cur
        if d.nm == "operator++" and n[0] == "c":
            b = f.e(n[3]) if n[3] is not None else None
            if b is not None and b[0] == "v":
                return self.generalize(f, b[1], cur)
        add = set()
        if self.track_done and (d.cls is None or not d.cls.startswith("std::")):
            add.add(("DONE", d.nm, self.term(f, n[3]) if n[0] == "c" and n[3] is not None else None) +
                    tuple(self.term(f, a) for a in n[2]))
        known = [t for t in (P.targets(f, n) if d.virt and n[0] == "c" else [name]) if t in P.F]
        if known and len(known) <= 8:
            acc = BOT
            for t in known:
                acc = meet(acc, self.summary(t)[2])
            if acc is not BOT:
                add |= self.inst(f, n, acc)
            else:
                # never returns normally
                return {}
        if not add:
            return cur
        return {k: s | add for k, s in cur.items()}


def mirror(a, b):
    """the same path from two different objects"""
    while a[0] == b[0] and (a[0] in ("f", "[]") and a[2] == b[2] or
                            a[0] == "call" and a[1] == b[1] and a[2] is not None and b[2] is not None and
                            len(a) == len(b) == 3):
        if a[0] == "call":
            a, b = a[2], b[2]
        else:
            a, b = a[1], b[1]
    return a != b and a[0] in ("this", "p", "l") and b[0] in ("this", "p", "l")


def gen(x, me):
    """[i] -> [all] inside a fact"""
    if not isinstance(x, tuple):
        return x
    if x[0] == "[]" and x[2] == me:
        return ("[]", gen(x[1], me), ("all",))
    return tuple(gen(k, me) if isinstance(k, tuple) else k for k in x)


NEG = {"NN": "NULL", "NULL": "NN", "T": "F", "F": "T"}


def meet2(a, b):
    """intersection; an implication also survives where its premise is known false or its conclusion known"""
    r = a & b
    if len(r) == len(a) == len(b):
        return r
    add = None
    for s, o in ((a, b), (b, a)):
        for x in s:
            if x[0] == "IMP" and x not in o:
                p, q = x[1], x[2]
                if q in o or (NEG[p[0]], p[1]) in o:
                    add = (add or set())
                    add.add(x)
    return r | add if add else r


def meet(a, b):
    if a is BOT:
        return b
    if b is BOT:
        return a
    return meet2(a, b)


def join_and(a, b):
    if a is BOT or b is BOT:
        return BOT
    return a | b


def merge(a, b):
    if a is None:
        return b
    if b is None:
        return a
    r = dict(a)
    for k, s in b.items():
        r[k] = s if k not in r else meet2(r[k], s)
    if len(r) > 16:
        s = None
        for v in r.values():
            s = v if s is None else s & v
        r = {(): s}
    return r

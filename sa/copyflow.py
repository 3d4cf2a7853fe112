"""Copy dataflow: on every path of a copying constructor (flag 'deep' assumed true), from what each data member gets its
value.  Kinds: 'deep' (a copy of the other object's sub-object), 'share' (the other object's sub-object itself), 'val'
(value copy), 'null' (the other's pointer is known null), None (not from the other object)."""
from sa.core import strip, auto_of, short, is_ptr
from sa.facts import mentions, ITER_BEGIN

DEEP = ("deepCopy", "clone", "deepCpy", "performCopyOrIncrRef", "performCpy", "cloneDeep", "PerformCopyOrIncrRef")
RANK = {"null": 3, "val": 2, "deep": 2, "share": 1}


def refcounted(P, t):
    c = auto_of(t)
    if c is None and is_ptr(t):
        c = strip(t)
    if c is None:
        if t.startswith("std::vector<"):
            i = t.find("MEDCoupling::MCAuto<")
            return i > 0
        return False
    return P.is_a(c, "MEDCoupling::RefCountObjectOnly") or P.is_a(c, "MEDCoupling::TimeLabel")


def peel(t):
    while True:
        if t[0] == "[]":
            t = t[1]
        elif t[0] == "call" and t[1] in ITER_BEGIN + ("end", "back", "front") and t[2]:
            t = t[2]
        elif t[0] == "itr":
            t = t[1]
        elif t[0] == "op" and t[1] in ("+", "-") and len(t) == 4:
            t = t[2]
        elif t[0] == "f" and t[2].startswith("std::pair<") and t[2].endswith(("::first", "::second")):
            t = t[1]
        else:
            return t


def pair_arg(name):
    """type of the component std::pair<A, B>::first designates"""
    i = name.find("<") + 1
    j = name.rfind(">")
    d = 0
    for k in range(i, j):
        c = name[k]
        d += c in "<(["
        d -= c in ">)]"
        if c == "," and d == 0:
            return name[i:k] if name.endswith("first") else name[k + 1:j]
    return name[i:j]


class CopyFlow:
    def __init__(self, P, E):
        self.P, self.E = P, E
        self.memo = {}

    def flag_param(self, f):
        for i, (n, t, d) in enumerate(f.params):
            if i and t == "bool":
                return i
        return None

    def classify(self, f, e, fld, depth=0):
        """kind of expression e as a value for member fld of *this, from parameter 0; None when unrelated"""
        t = self.E.term(f, e)
        src = ("f", ("p", 0), fld)
        if not mentions(t, src):
            return None
        return "deep" if self.deep_in(t, src, self.flag_param(f)) else "share"

    def deep_in(self, t, src, fp=None):
        """a fresh object made from src, not src itself; fp: the parameter assumed true"""
        if not isinstance(t, tuple) or not mentions(t, src):
            return False
        if t[0] == "call" and t[2] is not None and mentions(t[2], src) and t[1] not in ITER_BEGIN + ("size",):
            if t[1] in ("clone", "performCopyOrIncrRef", "performCpy", "PerformCopyOrIncrRef"):
                return all(self.true(a, fp) for a in t[3:])
            if t[1] in DEEP and any(a == ("c", 0) for a in t[3:]):
                return False
            return True
        if t[0] == "call" and t[1] == "PerformCopyOrIncrRef":
            return all(self.true(a, fp) for a in t[3:] if a[0] == "op" or not mentions(a, src))
        if t[0] == "op" and t[1] == "?:":
            if self.true(t[2], fp):
                return self.deep_in(t[3], src, fp)
            if t[2][0] == "op" and t[2][1] == "!" and self.true(t[2][2], fp):
                return self.deep_in(t[4], src, fp)
            return all(self.deep_in(k, src, fp) for k in t[3:] if mentions(k, src))
        return any(self.deep_in(k, src, fp) for k in t if isinstance(k, tuple))

    @staticmethod
    def true(a, fp):
        """a flag that is set when the parameter fp is"""
        if a[0] == "op" and a[1] == "||":
            return CopyFlow.true(a[2], fp) or CopyFlow.true(a[3], fp)
        if a[0] == "op" and a[1] == "&&":
            return CopyFlow.true(a[2], fp) and CopyFlow.true(a[3], fp)
        return a == ("p", fp) or (a[0] == "c" and a[1] not in (0, False, "null"))

    def base_all(self, c, kind="share"):
        return {x[0]: kind for x in self.P.fields_of(c)}

    def ctor(self, name, deep=True, stack=()):
        """member -> kind at the normal exits of copy constructor `name` (own and inherited members)"""
        key = (name, deep)
        if key in self.memo:
            return self.memo[key]
        P = self.P
        f = P.F.get(name)
        if f is None or name in stack:
            d = P.D.get(name)
            r = self.base_all(d.cls) if d is not None and d.cls in P.R else {}
            return r
        if f.impl:
            r = self.base_all(f.cls)
            self.memo[key] = r
            return r
        r = self.flow(f, deep, stack + (name,))
        self.memo[key] = r
        return r

    def flow(self, f, deep, stack):
        E, P = self.E, self.P
        fp = self.flag_param(f)
        IN = {f.entry: {}}
        exits = None
        for _ in range(12):
            ch = False
            for b in f.rpo:
                if b not in IN:
                    continue
                st = dict(IN[b])
                threw = False
                for i in f.bl[b][1]:
                    ln, ex = f.el[i]
                    if ex[0] == "r":
                        continue
                    for n in f.walk(ex):
                        if n[0] == "thr":
                            threw = True
                        self.step(f, n, st, fp, deep, stack)
                if threw or f.bl[b][5]:
                    continue
                term = f.bl[b][2]
                succ = f.bl[b][3]
                for k, s in enumerate(succ):
                    if s is None or (term is None and k >= 1):
                        continue
                    o = st
                    if term is not None and len(succ) == 2 and term[1] is not None and \
                            term[0] not in ("SwitchStmt", "CXXTryStmt"):
                        val = k == 0
                        v = self.flagval(f, term[1], fp, deep)
                        if v is not None and v != val:
                            continue
                        o = dict(st)
                        for body in E.leaving(f, b, s):
                            # leaving the loop: what the body did for each element counts
                            for x in body:
                                for i in f.bl[x][1]:
                                    if f.el[i][1][0] != "r":
                                        for n in f.walk(f.el[i][1]):
                                            self.step(f, n, o, fp, deep, stack)
                        im = E.implied(f, term[1], val)
                        if im:
                            for x in im:
                                if x[0] in ("NULL", "EMPTY") or (x[0] == "T" and x[1][0] == "call" and
                                                                 x[1][1] in ("isNull",)):
                                    t = x[1]
                                    if t[0] == "call":
                                        t = t[2]
                                    t = peel(t) if t else t
                                    if t and t[0] == "f" and t[1] == ("p", 0):
                                        if o.get(t[2]) in (None, "share"):
                                            o[t[2]] = "null"
                                    if t == ("p", 0) or t == ("f", ("p", 0), None):
                                        pass
                                    # other object as a whole is empty
                                    if x[0] == "T" and t == ("p", 0):
                                        for fl in P.fields_of(f.cls):
                                            o[fl[0]] = "null"
                    if s == f.exit:
                        exits = dict(o) if exits is None else join(exits, o)
                        continue
                    new = dict(o) if s not in IN else join(IN[s], o)
                    if s not in IN or new != IN[s]:
                        # loop headers: the first visit keeps what was known before
                        if s in IN and s in E.loops(f) and b in E.loops(f)[s]:
                            continue
                        IN[s] = new
                        ch = True
            if not ch:
                break
        return exits if exits is not None else {}

    def flagval(self, f, c, fp, deep):
        e = f.e(c)
        neg = False
        while e[0] in ("u", "cast"):
            if e[0] == "u":
                if e[1] != "!":
                    return None
                neg = not neg
                e = f.e(e[2])
            else:
                e = f.e(e[4])
        if e[0] == "v" and f.vkind(e[1]) == "p" and e[1] == fp:
            return deep != neg
        return None

    def put(self, st, fld, kind):
        if kind is not None:
            st[fld] = kind

    def step(self, f, n, st, fp, deep, stack):
        E, P = self.E, self.P
        t = n[0]
        if t == "binit":
            base = f.S[n[1]]
            if n[2] is None:
                return
            e = f.e(n[2])
            bt = E.term(f, n[2])
            if e[0] == "k" and e[2] and E.term(f, e[2][0]) == ("p", 0):
                cn = f.S[e[1]]
                d = True
                for a in e[2][1:]:
                    at = E.term(f, a)
                    if at == ("c", 0) or at == ("c", False):
                        d = False
                    elif fp is not None and at == ("p", fp):
                        d = deep
                st.update(self.ctor(cn, d, stack))
            elif bt == ("p", 0):
                st.update(self.base_all(base))
            return
        if t == "finit":
            fld = f.S[n[1]]
            if n[2] is not None:
                self.put(st, fld, self.classify(f, n[2], fld))
                # nested member object built from the other's member through its own copy constructor
            return
        if t == "b" and n[1] == "=":
            l0 = E.term(f, n[2])
            l = peel(l0)
            if l[0] == "f" and l[1] == ("this",):
                k = self.classify(f, n[3], l[2])
                if k == "share" and l0[0] == "f" and l0[2].startswith("std::pair<") and \
                        "*" not in pair_arg(l0[2]) and "MCAuto<" not in pair_arg(l0[2]):
                    k = "val" if st.get(l[2]) is None else None
                self.put(st, l[2], k)
            return
        if t == "c":
            d = P.D.get(f.S[n[1]])
            if d is None:
                return
            ops = ([n[3]] if n[3] is not None else []) + list(n[2])
            ts = [E.term(f, a) for a in ops]
            for k, a in enumerate(ts):
                p = peel(a)
                if k == 0 and n[3] is not None:
                    if d.const:
                        continue
                elif not (d.name.startswith("std::") or d.cls is None and "::" not in short(d.name)):
                    continue
                if p[0] == "f" and p[1] == ("this",):
                    src = ("f", ("p", 0), p[2])
                    for kk, o in enumerate(ts):
                        if kk != k and mentions(o, src):
                            self.put(st, p[2], "deep" if self.deep_in(o, src, fp) else
                                     ("val" if d.nm in ("copy", "memcpy", "assign") else "share"))
                    if d.cls and auto_of(d.cls) and d.nm == "takeRef":
                        pass
            # whole-object assignment from the other: *this = other / helper(other)
            if n[3] is not None and ts[0] == ("this",) and ("p", 0) in ts[1:] and d.name in P.F and \
                    d.name not in stack and not d.virt:
                st.update(self.helper(d.name, ts[1:].index(("p", 0)), stack))
            elif n[3] is not None and ts[0] == ("this",) and d.name in P.F and d.name not in stack:
                # helper taking the other's members
                g = P.F[d.name]
                if g.name != f.name and any(mentions(o, ("p", 0)) for o in ts[1:]) and len(stack) < 5:
                    r = self.helper_args(f, g, ts[1:], stack)
                    for k, v in r.items():
                        st[k] = v

    def helper(self, name, pos, stack):
        if pos != 0:
            return {}
        return self.flow(self.P.F[name], True, stack + (name,))

    def helper_args(self, f, g, args, stack):
        """members the helper sets from arguments which come from the other's same member"""
        from sa.facts import subst
        E = self.E
        m = {"this": ("this",)}
        for i, a in enumerate(args):
            m[i] = a
        r = {}
        for b, i, ln, n in g.all_nodes():
            if n[0] == "b" and n[1] == "=":
                l = peel(E.term(g, n[2]))
                if l[0] == "f" and l[1] == ("this",):
                    x = subst(E.term(g, n[3]), m)
                    if mentions(x, ("f", ("p", 0), l[2])):
                        r[l[2]] = "share"
            elif n[0] == "c":
                ops = ([n[3]] if n[3] is not None else []) + list(n[2])
                ts = [subst(E.term(g, a), m) for a in ops]
                for k, a in enumerate(ts):
                    p = peel(a)
                    if p[0] == "f" and p[1] == ("this",):
                        for kk, o in enumerate(ts):
                            if kk != k and mentions(o, ("f", ("p", 0), p[2])):
                                r[p[2]] = "val"
        return r


def join(a, b):
    r = {}
    for k in set(a) | set(b):
        x, y = a.get(k), b.get(k)
        if x is None or y is None:
            continue
        r[k] = x if RANK[x] <= RANK[y] else y
    return r

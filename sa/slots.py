"""Slot dataflow: what a serializing method puts at which position of each of its output vectors, and from which position
of which input vector a deserializing method fills each data member.  Positions are linear forms over constants, sizes of
vectors and loop counters; a position read back from the stream (a stored size) is replaced by what the writer stored."""
from sa.core import strip, auto_of, short
from sa.facts import defs_of, reaching, subst, mentions, ITER_BEGIN

UNK = None


# ---------------------------------------------------------------------------------------------- linear forms
def lc(c):
    return {(): c} if c else {}


def ls(sym):
    return {sym: 1}


def ladd(a, b, k=1):
    if a is UNK or b is UNK:
        return UNK
    r = dict(a)
    for s, c in b.items():
        r[s] = r.get(s, 0) + k * c
        if r[s] == 0:
            del r[s]
    return r


def lmul(a, b):
    if a is UNK or b is UNK:
        return UNK
    for x, y in ((a, b), (b, a)):
        if all(s == () for s in x):
            c = x.get((), 0)
            return {s: c * v for s, v in y.items() if c * v}
    r = {}
    for s, c in a.items():
        for t, d in b.items():
            k = tuple(sorted(((s,) if s and s[0] != "*" else s[1:]) + ((t,) if t and t[0] != "*" else t[1:]), key=repr))
            k = ("*",) + k if len(k) > 1 else (k[0] if k else ())
            r[k] = r.get(k, 0) + c * d
    return {k: v for k, v in r.items() if v}


def lkey(a):
    return tuple(sorted(a.items(), key=repr))


def lconst(a):
    return a is not UNK and all(s == () for s in a)


def channel(t):
    """which stream a parameter of that type is"""
    s = t.replace("const ", "").strip()
    if s.startswith("std::vector<"):
        if s.startswith("std::vector<std::basic_string"):
            return "S"
        if s.startswith("std::vector<double"):
            return "D"
        if s.startswith(("std::vector<long", "std::vector<int")):
            return "I"
        if "DataArray" in s:
            return "A"
        return None
    c = strip(s.replace("*", "").replace("&", ""))
    if c.startswith("MEDCoupling::DataArrayInt"):
        return "a1"
    if c.startswith("MEDCoupling::DataArrayDouble"):
        return "a2"
    return None


def subterms(t):
    if isinstance(t, tuple):
        yield t
        for k in t[1:]:
            if isinstance(k, tuple):
                yield from subterms(k)


class Seg:
    __slots__ = ("start", "len", "what", "term")

    def __init__(self, start, ln, what, term=None):
        self.start, self.len, self.what, self.term = start, ln, frozenset(what), term


class Layout:
    """segments of one vector"""

    def __init__(self):
        self.segs = []
        self.size = {}
        self.whole = True      # False once something could not be placed

    def copy(self):
        r = Layout()
        r.segs, r.size, r.whole = list(self.segs), self.size, self.whole
        return r

    def what(self):
        r = set()
        for s in self.segs:
            r |= s.what
        return r

    def at(self, pos):
        """segments at a position -> list of (what, index in the segment)"""
        if pos is UNK:
            return UNK
        out, far, settled = [], False, False
        for s in self.segs:
            if s.start is UNK:
                far = True
                continue
            d = ladd(pos, s.start, -1)
            if not d:
                out.append((s.what, 0, s))
            elif lconst(d) and lconst(s.len) and d[()] > 0:
                settled = True
                if d[()] < s.len.get((), 0):
                    out.append((s.what, d[()], s))
        if not out and (far or not settled):
            return UNK
        return out


def joinlay(a, b):
    r = Layout()
    r.whole = a.whole and b.whole
    r.size = a.size if a.size == b.size else UNK
    seen = {}
    for s in a.segs + b.segs:
        k = (lkey(s.start) if s.start is not UNK else None, lkey(s.len) if s.len is not UNK else None)
        if k in seen and k[0] is not None:
            o = seen[k]
            n = Seg(s.start, s.len, o.what | s.what, s.term if s.term == o.term else None)
            r.segs[r.segs.index(o)] = n
            seen[k] = n
        else:
            seen[k] = s
            r.segs.append(s)
    return r


class Slots:
    def __init__(self, P, E, cls):
        self.P, self.E, self.cls = P, E, cls
        self.wmemo = {}
        self.fresh = 0
        self.dropped = []

    # ------------------------------------------------------------------------------------------ terms -> members
    def tmember(self, f, t, depth=0, seen=()):
        """member paths of *this a term is about; a path is a tuple of field names, an integer being an element"""
        r = set()
        if not isinstance(t, tuple) or not t or depth > 25:
            return r
        if t[0] in ("f", "[]"):
            p = self.path(f, t, seen)
            if p is not None:
                return p
        if t[0] == "l":
            if t in seen:
                return r
            for x in self.local_terms(f, t[1]):
                r |= self.tmember(f, x, depth + 1, seen + (t,))
            return r
        if t[0] == "itr":
            return self.tmember(f, t[1], depth + 1, seen)
        if t[0] == "call":
            q = self.call_what(f, t)
            if q is not None:
                for x in q:
                    r |= self.tmember(f, x, depth + 1, seen)
                if r:
                    return r
        for k in t[1:]:
            if isinstance(k, tuple):
                r |= self.tmember(f, k, depth + 1, seen)
        return r

    def path(self, f, t, seen=()):
        acc = []
        while True:
            if t[0] == "f":
                acc.append(t[2])
                t = t[1]
            elif t[0] == "[]":
                if t[2][0] == "c" and isinstance(t[2][1], int):
                    acc.append(t[2][1])
                t = t[1]
            elif t[0] == "call" and t[1] in ITER_BEGIN + ("front",) and t[2]:
                t = t[2]
            elif t[0] == "itr":
                t = t[1]
            else:
                break
        if t == ("this",):
            return {tuple(reversed(acc))}
        if t[0] == "l" and t not in seen and not t[2].startswith("__"):
            r = set()
            for x in self.local_terms(f, t[1]):
                for q in self.tmember(f, x, 3, seen + (t,)):
                    r.add(q + tuple(reversed(acc)) if all(isinstance(z, str) for z in acc) else q)
            return r
        return None

    def local_terms(self, f, v):
        """everything a local gets its value from"""
        key = ("lt", v)
        r = f._aux.get(key)
        if r is not None:
            return r
        r = f._aux[key] = set()
        E, P = self.E, self.P
        for b, i, ln, n in f.all_nodes():
            if n[0] == "decl":
                for w, ini in n[1:]:
                    if w == v and ini is not None:
                        x = f.e(ini)
                        if x[0] == "il":
                            r |= {E.term(f, a) for a in x[1]}
                        else:
                            r.add(E.term(f, x))
            elif n[0] == "b" and n[1] == "=":
                l = f.e(n[2])
                while l is not None and l[0] in ("x", "cast"):
                    l = f.e(l[1] if l[0] == "x" else l[4])
                if l is not None and l[0] == "v" and l[1] == v:
                    r.add(E.term(f, n[3]))
            elif n[0] == "c":
                d = P.D.get(f.S[n[1]])
                if d is None:
                    continue
                if n[3] is not None and d.nm in ("operator=", "assign", "operator+=", "append") and n[2]:
                    l = f.e(n[3])
                    if l[0] == "v" and l[1] == v:
                        r.add(E.term(f, n[2][0]))
                for k, a in enumerate(n[2]):
                    x = f.e(a)
                    if x[0] == "v" and x[1] == v and k < len(d.params) and d.params[k][1].endswith("&") and \
                            "const" not in d.params[k][1]:
                        for y in self.out_terms(f, n, k):
                            r.add(y)
        return r

    def bind(self, f, n):
        m = {}
        if n[3] is not None:
            m["this"] = self.E.term(f, n[3])
        for i, a in enumerate(n[2]):
            m[i] = self.E.term(f, a)
        return m

    def out_terms(self, f, n, k, depth=0):
        """terms a callee assigns to its k-th parameter"""
        r = set()
        for t in self.targets(f, n):
            g = self.P.F.get(t)
            if g is None or depth > 3:
                continue
            m = self.bind(f, n)
            for b, i, ln, x in g.all_nodes():
                if x[0] == "b" and x[1] == "=":
                    l = g.e(x[2])
                    if l[0] == "v" and g.vkind(l[1]) == "p" and l[1] == k:
                        r.add(subst(self.E.term(g, x[3]), m))
                elif x[0] == "c":
                    for j, a in enumerate(x[2]):
                        y = g.e(a)
                        if y[0] == "v" and g.vkind(y[1]) == "p" and y[1] == k:
                            dd = self.P.D.get(g.S[x[1]])
                            if dd is not None and j < len(dd.params) and dd.params[j][1].endswith("&") and \
                                    "const" not in dd.params[j][1]:
                                for z in self.out_terms(g, x, j, depth + 1):
                                    r.add(subst(z, m))
        return r

    def call_what(self, f, t):
        """terms returned by an accessor the engine did not resolve"""
        if t[2] is None or t[1].startswith("new "):
            return None
        r = set()
        base = t[2]
        for b, i, ln, n in f.all_nodes():
            if n[0] == "c" and self.E.term(f, n) == t:
                for tg in self.targets(f, n):
                    g = self.P.F.get(tg)
                    if g is None or len(g.o.get("bl", ())) > 40:
                        return None
                    m = self.bind(f, n)
                    for b2, i2, ln2, x in g.all_nodes():
                        if x[0] == "ret" and x[1] is not None:
                            y = self.E.term(g, x[1])
                            if y[0] in ("f", "[]"):
                                r.add(subst(y, m))
                if r:
                    break
        return r or None

    def targets(self, f, n, this=False):
        """callees; calls on *this are resolved for the class under analysis"""
        d = self.P.D.get(f.S[n[1]])
        if d is None:
            return []
        if d.virt and n[3] is not None and not n[4] and (this or self.E.term(f, n[3]) == ("this",)):
            g = self.lookup(d.nm, len(d.params))
            return [g] if g else [d.name]
        if d.virt and not n[4]:
            return [t for t in self.P.targets(f, n)][:12]
        return [d.name]

    def lookup(self, nm, npar, c=None, depth=0):
        c = c or self.cls
        if c not in self.P.R or depth > 10:
            return None
        for m in self.P.R[c].ms:
            d = self.P.D.get(m)
            if d is not None and d.nm == nm and len(d.params) == npar and m in self.P.F:
                return m
        for b in self.P.R[c].bases:
            r = self.lookup(nm, npar, b, depth + 1)
            if r:
                return r
        return None

    # ------------------------------------------------------------------------------------------ positions
    def vec(self, t):
        """the vector a term designates: a parameter or a local"""
        return t if t[0] in ("p", "l", "f") else None

    def lin(self, f, t, env):
        """linear form of an integer or iterator term; env(vector, position) tells what a stored value stands for"""
        if t[0] == "c" and isinstance(t[1], (int, bool)):
            return lc(int(t[1]))
        if t[0] == "op" and t[1] in ("+", "-") and len(t) == 4:
            return ladd(self.lin(f, t[2], env), self.lin(f, t[3], env), 1 if t[1] == "+" else -1)
        if t[0] == "op" and t[1] == "-" and len(t) == 3:
            return ladd({}, self.lin(f, t[2], env), -1)
        if t[0] == "op" and t[1] == "*" and len(t) == 4:
            return lmul(self.lin(f, t[2], env), self.lin(f, t[3], env))
        if t[0] == "call" and t[1] in ("operator+", "operator-") and t[2] is not None and len(t) == 4:
            return ladd(self.lin(f, t[2], env), self.lin(f, t[3], env), 1 if t[1] == "operator+" else -1)
        if t[0] == "call" and t[1].startswith("new ") and "__normal_iterator" in t[1] and len(t) == 4:
            return self.lin(f, t[3], env)
        if t[0] == "call" and t[1] == "next" and len(t) >= 4:
            return ladd(self.lin(f, t[3], env), self.lin(f, t[4], env) if len(t) > 4 else lc(1))
        if t[0] == "call" and t[1] in ITER_BEGIN and t[2] is not None:
            return {}
        if t[0] == "call" and t[1] in ("end", "cend", "size") and t[2] is not None:
            s = env("size", t[2], None)
            return s if s is not UNK else ls(("size", t[2]))
        if t[0] == "call" and t[1] == "back" and t[2] is not None:
            s = env("size", t[2], None)
            return env("at", t[2], ladd(s, lc(-1)) if s is not UNK else UNK)
        if t[0] == "[]":
            i = self.lin(f, t[2], env)
            return env("at", t[1], i)
        if t[0] == "l":
            d = env("local", t, None)
            if d is not UNK:
                return d
            ts = {x for x in self.local_terms(f, t[1])}
            if len(ts) == 1 and not any(x[0] in ("inc", "mut") for x in defs_of(f).get(t[1], [])):
                return self.lin(f, next(iter(ts)), env)
            return ls(t)
        if t[0] in ("f", "p", "call"):
            return ls(t)
        return UNK

    def counter(self, f, t):
        """loop counter -> its start"""
        ds = defs_of(f).get(t[1], [])
        real = [d for d in ds if d[0] in ("init", "asg")]
        if real and any(d[0] == "inc" for d in ds):
            return {self.E.term(f, d[1]) for d in real}
        return None

    # ------------------------------------------------------------------------------------------ writer
    def writer(self, name, stack=()):
        """layouts of the vector parameters (appended to what they held): {param: Layout}"""
        if name in self.wmemo:
            return self.wmemo[name]
        f = self.P.F.get(name)
        if f is None or name in stack or len(stack) > 6:
            return None
        r = self._writer(f, stack + (name,))
        self.wmemo[name] = r
        return r

    def _writer(self, f, stack):
        E, P = self.E, self.P
        IN = {f.entry: {}}
        out = None
        loops = E.loops(f)
        inl = {}
        for h in loops:
            for b in E.in_loop(f, h):
                inl.setdefault(b, set()).add(h)
        outer = {}
        for b, hs in inl.items():
            # the outermost loop
            outer[b] = min(hs, key=lambda h: -len(E.in_loop(f, h)))
        self.inserted = set()
        fresh0 = self.fresh
        for turn in range(3):
            after = {k: v for k, v in IN.items() if isinstance(k, tuple)}
            IN = {f.entry: {}}
            IN.update({k: [] for k in after})
            self.fresh = fresh0
            out = None
            for b in f.rpo:
                st = IN.get(b)
                if st is None:
                    continue
                st = {k: (v.copy() if isinstance(v, Layout) else v) for k, v in st.items()}
                threw = False
                for i in f.bl[b][1]:
                    ln, ex = f.el[i]
                    if ex[0] == "r":
                        continue
                    for n in f.walk(ex):
                        if n[0] == "thr":
                            threw = True
                        self.wstep(f, n, st, outer.get(b), stack)
                if threw or f.bl[b][5]:
                    continue
                for k, s in enumerate(f.bl[b][3]):
                    if s is None or (f.bl[b][2] is None and k >= 1):
                        continue
                    if s in loops and f.dominates(s, b):
                        # back edge: what one iteration pushed, times the number of iterations
                        IN.setdefault(("after", s), []).append({k: v for k, v in st.items()})
                        continue
                    o = st
                    for h in list(loops):
                        if b in E.in_loop(f, h) and s not in E.in_loop(f, h) and outer.get(b) == h:
                            its = after.get(("after", h), [])
                            o = self.leave(f, h, st, its)
                    if s == f.exit:
                        out = o if out is None else self.joinst(out, o)
                        continue
                    IN[s] = {k: (v.copy() if isinstance(v, Layout) else v) for k, v in o.items()} if s not in IN else \
                        self.joinst(IN[s], o)
        out = out or {}
        res = {}
        for k, (n, t, d) in enumerate(f.params):
            if ("p", k) in out:
                res[k] = out[("p", k)]
            elif channel(t):
                res[k] = Layout()
        self.lastlocals = out
        return res

    def joinst(self, a, b):
        r = {}
        for k in set(a) | set(b):
            x, y = a.get(k), b.get(k)
            if k[0] == "loop":
                r[k] = (x or []) + [z for z in (y or []) if z not in (x or [])]
                if (x or []) != (y or []):
                    # pushed on one path only, or differently
                    if len(x or []) == len(y or []):
                        r[k] = [(p[0], p[1] | q[1], None, p[3]) for p, q in zip(x, y)]
                    else:
                        r[k] = [(p[0], p[1], None, False) for p in r[k]]
                continue
            r[k] = joinlay(x or Layout(), y or Layout())
        return r

    def leave(self, f, h, st, its):
        """leaving a loop: the pushes made inside become one segment"""
        o = {}
        body = {}
        for it in its:
            for k, v in it.items():
                if k[0] == "loop":
                    body.setdefault(k[1], []).append(v)
        for k, v in st.items():
            if k[0] != "loop":
                o[k] = v.copy()
        for it in its:
            # indexed stores made in the body
            for k, v in it.items():
                if k[0] != "loop":
                    o[k] = joinlay(o[k], v) if k in o else v.copy()
                    if k in st:
                        o[k].size = st[k].size
        trip = self.trip(f, h)
        for k, l in body.items():
            lay = o.setdefault(k, Layout())
            n = {len(x) for x in l}
            what = set()
            ok = len(n) == 1 and all(p[3] for x in l for p in x)
            for x in l:
                for p in x:
                    what |= p[1]
            per = None
            if ok:
                per = {}
                for p in l[0]:
                    per = ladd(per, p[0])
            ln = lmul(trip, per) if ok and per is not UNK and trip is not UNK else UNK
            lay.segs.append(Seg(lay.size, ln, what))
            lay.size = ladd(lay.size, ln)
        return o

    def trip(self, f, h):
        """number of iterations of a counting loop"""
        E = self.E
        for b in [h] + sorted(E.in_loop(f, h)):
            t = f.bl[b][2]
            if t is None or t[1] is None or t[0] not in ("ForStmt", "WhileStmt", "CXXForRangeStmt", "DoStmt"):
                continue
            c = f.e(t[1])
            while c[0] == "cast":
                c = f.e(c[4])
            ops = None
            if c[0] == "b" and c[1] in ("<", "!="):
                ops = (c[2], c[3])
            elif c[0] == "c" and f.S[c[1]] in self.P.D and self.P.D[f.S[c[1]]].nm in ("operator!=", "operator<"):
                a = ([c[3]] if c[3] is not None else []) + list(c[2])
                ops = tuple(a) if len(a) == 2 else None
            if ops is None:
                return UNK
            L, R = E.term(f, ops[0]), E.term(f, ops[1])
            if L[0] == "itr" or (L[0] == "call" and L[1] in ITER_BEGIN):
                c = L[1] if L[0] == "itr" else L[2]
                if R[0] == "call" and R[1] in ("end", "cend") and R[2] == c:
                    return ls(("size", c))
                return UNK
            if L[0] == "l":
                s = self.counter(f, L)
                if s is None or len(s) != 1:
                    return UNK
                env = self.wenv(f, {})
                return ladd(self.lin(f, R, env), self.lin(f, next(iter(s)), env), -1)
            return UNK
        return UNK

    def wenv(self, f, st):
        def env(kind, t, pos):
            if kind == "size":
                if t in st and isinstance(st[t], Layout):
                    if t[0] == "l":
                        return ls(("size", t))
                    return st[t].size
                return ls(("size", t))
            if kind == "at":
                return ls(("at", t, lkey(pos) if pos is not UNK else None))
            return UNK
        return env

    def wstep(self, f, n, st, loop, stack):
        E, P = self.E, self.P
        t = n[0]
        if t == "b" and n[1] == "=":
            l = E.term(f, n[2])
            if l[0] == "[]" and l[1][0] in ("p", "l") and self.isvec(f, l[1]):
                self.store(f, st, l[1], l[2], E.term(f, n[3]))
            elif l[0] not in ("p", "l"):
                self.scatter(f, st, l, [E.term(f, n[3])])
            return
        if t != "c":
            return
        d = P.D.get(f.S[n[1]])
        if d is None:
            return
        base = E.term(f, n[3]) if n[3] is not None else None
        args = [E.term(f, a) for a in n[2]]
        if d.nm == "operator=" and base is not None and base[0] == "[]" and self.isvec(f, base[1]) and args:
            self.store(f, st, base[1], base[2], args[0])
            return
        if base is None and d.nm in ("copy", "copy_n", "transform", "generate_n", "fill", "fill_n", "memcpy") and args:
            dst = args[0] if d.nm in ("memcpy", "fill", "fill_n", "generate_n") else args[3] if d.nm == "transform" and \
                len(args) == 5 else args[2] if len(args) > 2 else args[-1]
            self.scatter(f, st, dst, [a for a in args if a != dst])
            return
        if d.nm == "operator=" and base is not None and args and base[0] not in ("p", "l"):
            self.scatter(f, st, base, args)
        if base is not None and base[0] in ("p", "l") and self.isvec(f, base):
            lay = st.setdefault(base, Layout())
            if d.nm == "clear":
                st[base] = Layout()
            elif d.nm == "resize" and args:
                lay.size = self.lin(f, args[0], self.wenv(f, st))
            elif d.nm in ("push_back", "emplace_back"):
                self.push(f, st, base, lc(1), self.tmember(f, args[0]), loop,
                          self.lin(f, args[0], self.wenv(f, st)))
            elif d.nm == "insert" and len(args) == 3:
                a, b = args[1], args[2]
                src = self.rng(a)
                pos = self.lin(f, args[0], self.wenv(f, st))
                if pos != lay.size or src is None:
                    lay.size = UNK
                    lay.segs.append(Seg(UNK, UNK, self.tmember(f, a)))
                    return
                if src[0] in ("l",) and self.isvec(f, src):
                    sub = st.get(src, Layout())
                    self.inserted.add(src)
                    self.push(f, st, base, ls(("size", src)), sub.what(), loop, None)
                else:
                    ln = ladd(self.lin(f, self.uniter(b), self.wenv(f, st)), self.lin(f, self.uniter(a), self.wenv(f, st)), -1)
                    env = self.wenv(f, st)
                    x, y = self.uniter(a), self.uniter(b)
                    if y[0] == "op" and y[1] == "+" and y[2] == x:
                        ln = self.lin(f, y[3], env)
                    elif y[0] == "call" and y[1] in ("end", "cend"):
                        ln = ls(("size", y[2]))
                    else:
                        ln = UNK
                    what = self.tmember(f, src)
                    self.push(f, st, base, ln, what, loop, None)
            elif d.nm in ("operator=", "assign", "swap") and args:
                src = args[0]
                if src[0] in ("l", "p") and self.isvec(f, src) and src in st:
                    st[base] = st[src].copy()
                    self.inserted.add(src)
                else:
                    lay = st[base] = Layout()
                    lay.segs.append(Seg({}, UNK, self.tmember(f, src)))
                    lay.size = UNK
            return
        # a callee filling vectors
        for k, a in enumerate(args):
            if a[0] not in ("p", "l") or k >= len(d.params) or not self.isvec(f, a):
                continue
            pt = d.params[k][1]
            if not pt.endswith("&") or "const std::vector" in pt:
                continue
            own = base == ("this",)
            tg = [x for x in self.targets(f, n) if x in P.F]
            sub = self.writer(tg[0], stack) if own and len(tg) == 1 else None
            lay = st.setdefault(a, Layout())
            if sub is not None and k in sub:
                if self.clears(P.F[tg[0]], k):
                    lay = st[a] = Layout()
                off = lay.size
                for s in sub[k].segs:
                    lay.segs.append(Seg(ladd(off, s.start) if s.start is not UNK else UNK, s.len, s.what, s.term))
                lay.size = ladd(off, sub[k].size)
            else:
                self.fresh += 1
                what = {p + ("*" + d.nm,) for p in self.tmember(f, base)} if base is not None else set()
                if base is not None and not what and not own:
                    what = {("?",)}
                for j, x in enumerate(args):
                    if j != k:
                        what |= {("*any",)} if x == ("this",) else self.tmember(f, x)
                if not what and base is None:
                    what = {("*any",)}
                self.push(f, st, a, ls(("len", self.fresh)), what, loop, None)

    def scatter(self, f, st, dst, srcs):
        """values put somewhere in the vector a destination is about"""
        v = None
        for x in subterms(dst):
            if x[0] in ("p", "l") and self.isvec(f, x):
                v = x
        if v is None:
            return
        what = set()
        for x in srcs:
            what |= {("*any",)} if x == ("this",) else self.tmember(f, x)
        lay = st.setdefault(v, Layout())
        lay.segs.append(Seg(UNK, UNK, what or {("*any",)}))
        if dst[0] == "call" and "insert" in dst[1]:
            lay.size = UNK

    def clears(self, g, k):
        for b, i, ln, n in g.all_nodes():
            if n[0] == "c" and n[3] is not None and self.P.D.get(g.S[n[1]]) is not None and \
                    self.P.D[g.S[n[1]]].nm in ("clear", "resize") and self.E.term(g, n[3]) == ("p", k):
                return True
        return False

    def isvec(self, f, t):
        if t[0] == "p":
            return f.params[t[1]][1].replace("const ", "").startswith("std::vector<")
        if t[0] == "l":
            return f.vtype(t[1]).replace("const ", "").startswith("std::vector<")
        return False

    def uniter(self, t):
        while t[0] == "call" and t[1].startswith("new ") and "__normal_iterator" in t[1] and len(t) == 4:
            t = t[3]
        return t

    def rng(self, a):
        a = self.uniter(a)
        if a[0] == "call" and a[1] in ITER_BEGIN and a[2] is not None:
            return a[2]
        if a[0] in ("f", "itr"):
            return a
        if a[0] == "op" and a[1] == "+":
            return None
        return None

    def push(self, f, st, v, ln, what, loop, term):
        if loop is not None:
            st.setdefault(("loop", v), [])
            st[("loop", v)] = st[("loop", v)] + [(ln, frozenset(what), term, True)]
            return
        lay = st.setdefault(v, Layout())
        lay.segs.append(Seg(lay.size, ln, what, term))
        lay.size = ladd(lay.size, ln)

    def store(self, f, st, v, idx, val):
        lay = st.setdefault(v, Layout())
        env = self.wenv(f, st)
        pos = self.lin(f, idx, env)
        ln = lc(1)
        if pos is not UNK:
            for s in list(pos):
                if s and s[0] == "l":
                    c = self.counter(f, s)
                    if c is not None and len(c) == 1 and pos[s] == 1:
                        pos = ladd(ladd(pos, ls(s), -1), self.lin(f, next(iter(c)), env))
                        ln = UNK
        term = self.lin(f, val, env)
        # a later store to the same place replaces the earlier one
        if pos is not UNK:
            lay.segs = [x for x in lay.segs if x.start != pos or x.len is UNK or ln is UNK]
        lay.segs.append(Seg(pos, ln, self.tmember(f, val), term))

    # ------------------------------------------------------------------------------------------ reader
    def reader(self, name, W, chan=None):
        """[(channel, position | None, member path, location)] : what fills the members; W: channel -> Layout"""
        f = self.P.F[name]
        m = {}
        for k, (n, t, d) in enumerate(f.params):
            c = channel(t)
            if c:
                m[k] = ("src", c, ("p", k))
        out = []
        self._reader(f, {k: v[1] for k, v in m.items()}, {"this": ("this",)}, W, out, (name,))
        return out

    def _reader(self, f, chans, m, W, out, stack, off=None, args=None):
        """chans: parameter -> channel it holds a slice of; off: parameter -> position of its first element (linear form
        over the writer's), args: parameter -> position of the scalar"""
        E, P = self.E, self.P
        off = off or {}
        args = args or {}
        cache = {}

        def slice_of(t, depth=0):
            """vector term -> (channel, start, end) or None"""
            if depth > 12:
                return None
            if t[0] == "p" and t[1] in chans:
                return (chans[t[1]], off.get(t[1], {}), self.size_of(W, chans[t[1]]) if t[1] not in off else UNK)
            if t[0] == "call" and t[1].startswith("new ") and len(t) >= 4:
                a = t[3]
                if len(t) >= 5 and t[4][0] == "call" and (t[4][1].startswith("operator") or t[4][1] in
                                                          ("end", "begin", "cend", "cbegin") or
                                                          t[4][1].startswith("new ")):
                    s = base_of(a)
                    x = slice_of(s, depth + 1) if s is not None else None
                    if x is None:
                        return None
                    st = ladd(x[1], self.lin(f, self.uniter(a), renv_rel(s)))
                    en = ladd(x[1], self.lin(f, self.uniter(t[4]), renv_rel(s)))
                    return (x[0], st, en)
                return slice_of(a, depth + 1)
            if t[0] == "l":
                if t in cache:
                    return cache[t]
                cache[t] = None
                cand = []
                pops = 0
                for b, i, ln, n in f.all_nodes():
                    if n[0] == "decl":
                        for w, ini in n[1:]:
                            if w == t[1] and ini is not None:
                                cand.append(("i", E.term(f, ini)))
                    elif n[0] == "c" and n[3] is not None and E.term(f, n[3]) == t:
                        d = P.D.get(f.S[n[1]])
                        if d is None:
                            continue
                        if d.nm == "pop_back":
                            pops += 1
                        elif d.nm in ("insert",) and len(n[2]) == 3:
                            cand.append(("n", E.term(f, n[2][1]), E.term(f, n[2][2])))
                        elif d.nm in ("operator=", "assign", "swap", "push_back", "resize"):
                            cand.append(("?",))
                cand = [c for c in cand if not (c[0] == "i" and c[1][0] in ("l", "?") or
                                                c[0] == "i" and c[1][0] == "call" and len(c[1]) <= 4 and
                                                (len(c[1]) == 3 or c[1][3][0] == "call" and
                                                 "allocator" in str(c[1][3][1])))]
                if len(cand) == 1 and cand[0][0] == "i":
                    x = slice_of(cand[0][1], depth + 1)
                    if x is not None:
                        x = (x[0], x[1], ladd(x[2], lc(-pops)))
                    cache[t] = x
                    return x
                return None
            return None

        def base_of(a):
            a = self.uniter(a)
            while a[0] == "call" and a[1] in ("operator+", "operator-", "next") or a[0] == "op" and a[1] in "+-":
                a = a[2] if a[2] is not None else a[3]
            if a[0] == "call" and a[1] in ITER_BEGIN + ("end", "cend") and a[2] is not None:
                return a[2]
            return None

        def env_at(v, pos):
            """a value read from the stream, as what the writer stored there"""
            s = slice_of(v)
            if s is None:
                return ls(("at", v, lkey(pos) if pos is not UNK else None))
            p = ladd(s[1], pos)
            lay = W.get(s[0])
            if lay is None or p is UNK:
                return UNK
            for b in list(p):
                if b and b[0] == "l":
                    return UNK
            h = lay.at(p)
            if h and len(h) == 1 and h[0][2].term is not None:
                return h[0][2].term
            return ls(("val", s[0], lkey(p)))

        def env(kind, t, pos):
            if kind == "size":
                s = slice_of(t)
                if s is not None:
                    return ladd(s[2], s[1], -1)
                return UNK
            if kind == "at":
                return env_at(t, pos)
            return UNK

        def renv_rel(v):
            return env

        def pos_of(t):
            """positions of the stream elements a term is made of"""
            r = []
            if not isinstance(t, tuple) or not t:
                return r
            if t[0] == "p" and t[1] in args:
                return list(args[t[1]])
            if t[0] == "[]" or (t[0] == "call" and t[1] in ("back", "front", "at") and t[2] is not None):
                v = t[1] if t[0] == "[]" else t[2]
                s = slice_of(v)
                if s is not None:
                    if t[0] == "[]":
                        i = self.lin(f, t[2], env)
                    elif t[1] == "back":
                        i = ladd(ladd(s[2], s[1], -1), lc(-1))
                    else:
                        i = {}
                    if i is not UNK:
                        for b in list(i):
                            if b and b[0] == "l":
                                c = self.counter(f, b)
                                if c is not None and len(c) == 1 and i.get(b) == 1:
                                    i = ladd(ladd(i, ls(b), -1), self.lin(f, next(iter(c)), env))
                                else:
                                    i = UNK
                                    break
                    return [(s[0], ladd(s[1], i))]
            s = slice_of(t) if t[0] in ("p", "l") or (t[0] == "call" and t[1].startswith("new std::vector")) else None
            if s is not None:
                return [(s[0], s[1])]
            if t[0] == "l":
                if t in busy:
                    return r
                busy.add(t)
                vec = self.isvec(f, t)
                for x in self.local_terms(f, t[1]):
                    r += [(c, UNK if vec else p) for c, p in pos_of(x)]
                r += [(c, UNK if vec else p) for c, p in carried.get(t, ())]
                busy.discard(t)
                return r
            if t[0] == "call" and t[1] in ITER_BEGIN and t[2] is not None:
                return pos_of(t[2])
            if t[0] == "call" and t[1] == "operator()" or t[0] == "[]" and t[1][0] == "?":
                return [(c, UNK) for c in sorted(set(chans.values()))]
            if t[0] == "itr" or t[0] == "[]" and t[1][0] == "itr":
                return [(c, UNK) for c, p in pos_of(t[1] if t[0] == "itr" else t[1][1])]
            if t[0] == "op" and t[1] in "+-" or t[0] == "call" and t[1] in ("operator+", "operator-", "next"):
                v = base_of(t)
                s = slice_of(v) if v is not None else None
                if s is not None:
                    return [(s[0], ladd(s[1], self.lin(f, self.uniter(t), env)))]
            if t[0] == "p" and t[1] in chans:
                return [(chans[t[1]], off.get(t[1], {}))]
            for k in t[1:]:
                if isinstance(k, tuple):
                    r += pos_of(k)
            return r

        busy = set()
        carried = {}

        def rawroot(x):
            """the local an expression goes through"""
            for _ in range(12):
                x = f.e(x)
                if x is None or not x:
                    return None
                if x[0] == "v":
                    return x[1] if f.vkind(x[1]) == "l" else None
                if x[0] in ("m", "x"):
                    x = x[1]
                elif x[0] == "cast":
                    x = x[4]
                elif x[0] == "u":
                    x = x[2]
                elif x[0] == "c":
                    x = x[3] if x[3] is not None else x[2][0] if len(x[2]) == 1 else None
                elif x[0] == "k":
                    x = x[2][0] if len(x[2]) == 1 else None
                else:
                    return None
                if x is None:
                    return None
            return None

        def srcs_of(x):
            r = pos_of(E.term(f, x))
            if not r:
                v = rawroot(x)
                if v is not None:
                    r = [(c, UNK) for c, p in carried.get(("raw", v), ())]
            return r

        def sink(l, srcs, ln, raw=None):
            if raw is not None:
                v = rawroot(raw)
                if v is not None:
                    x = carried.setdefault(("raw", v), [])
                    for q in srcs:
                        if q not in x:
                            x.append(q)
            if l[0] != "this":
                r = l
                while r[0] in ("f", "[]"):
                    r = r[1]
                if r[0] == "l" and not self.tmember(f, l):
                    x = carried.setdefault(r, [])
                    for q in srcs:
                        if q not in x:
                            x.append(q)
                    return
            l = subst(l, m)
            for p in self.tmember(f, l):
                for c, pos in srcs:
                    out.append((c, pos, p, f.loc(ln), f.short))

        base_out = out
        for turn in range(2):
            out, pend = [], []
            for b, i, ln, n in f.all_nodes():
                if n[0] == "b" and n[1] == "=":
                    l = E.term(f, n[2])
                    r = pos_of(E.term(f, n[3]))
                    if r:
                        sink(l, r, ln)
                    continue
                if n[0] != "c":
                    continue
                d = P.D.get(f.S[n[1]])
                if d is None:
                    continue
                base = E.term(f, n[3]) if n[3] is not None else None
                ts = [E.term(f, a) for a in n[2]]
                if d.nm in ("copy", "memcpy", "copy_n") and base is None and len(ts) >= 3:
                    dst, src = (ts[2], ts[0]) if d.nm != "memcpy" else (ts[0], ts[1])
                    r = pos_of(src)
                    if r:
                        r = [(c, UNK if c in ("a1", "a2", "A") else p) for c, p in r]
                        sink(dst, r, ln, n[2][2] if d.nm != "memcpy" else n[2][0])
                    continue
                if base is None:
                    me = [k for k, x in enumerate(ts) if subst(x, m) == ("this",)]
                    g = P.F.get(d.name)
                    if me and g is not None and len(stack) < 5 and d.name not in stack:
                        nch, noff, nargs = {}, {}, {}
                        for k, x in enumerate(n[2]):
                            r = srcs_of(x) if k not in me else []
                            if not r or k >= len(g.params):
                                continue
                            if channel(g.params[k][1]):
                                nch[k] = r[0][0]
                                if r[0][1] is UNK or r[0][1]:
                                    noff[k] = r[0][1]
                            else:
                                nargs[k] = r
                        sub = []
                        self._reader(g, nch, {k: ("this",) for k in me}, W, sub, stack + (d.name,), noff, nargs)
                        out += [(c, pos, p, f.loc(ln), f.short) for c, pos, p, loc, fn in sub]
                        continue
                    for k, x in enumerate(ts):
                        if k < len(d.params) and d.params[k][1].endswith("&") and "const " not in d.params[k][1] and \
                                x[0] in ("f", "[]"):
                            r = [(q[0], q[1] if ts[j][0] == "[]" else UNK) for j, y in enumerate(n[2]) if j != k
                                 for q in srcs_of(y)]
                            if r:
                                sink(x, r, ln)
                    continue
                if auto_of(d.cls or "") is not None and d.nm != "operator=" and d.nm != "takeRef":
                    continue
                if d.nm in ("operator=", "takeRef", "assign", "push_back", "insert") and ts and (base[0] in ("f", "[]")):
                    r = []
                    for x in ts:
                        r += pos_of(x)
                        if r and d.nm in ("assign", "insert"):
                            break
                    if r:
                        sink(base, r, ln)
                    continue
                bm = subst(base, m)
                if not d.const and base[0] == "p" and chans.get(base[1]) in ("a1", "a2") and \
                        not d.nm.startswith("resizeForUns"):
                    tg = [t for t in self.targets(f, n) if t in P.F]
                    r = [(k, srcs_of(x)) for k, x in enumerate(n[2])]
                    if len(tg) == 1 and len(stack) < 5:
                        g, sub = P.F[tg[0]], []
                        self._reader(g, {}, {"this": ("this",)}, W, sub, stack + (tg[0],), {},
                                     {k: x for k, x in r if x})
                        for c, pos, p, loc, fn in sub:
                            pend.append((chans[base[1]], c, pos, p, f.loc(ln)))
                    continue
                if d.const or bm[0] == "p":
                    if not d.nm.startswith("resizeForUns"):
                        continue
                srcs = [(k, srcs_of(x)) for k, x in enumerate(n[2])]
                srcs = [(k, r) for k, r in srcs if r]
                mine = self.tmember(f, bm) if bm != ("this",) else {()}
                if srcs and not mine and base[0] == "l":
                    for k, r in srcs:
                        sink(base, r, ln)
                if not srcs or not mine:
                    continue
                tg = [t for t in self.targets(f, n, bm == ("this",)) if t in P.F] if bm == ("this",) or not d.virt else []
                big = "nserial" in d.nm and bm != ("this",)
                if len(tg) == 1 and not big and len(stack) < 5 and tg[0] not in stack:
                    g = P.F[tg[0]]
                    nch, noff, nargs = {}, {}, {}
                    for k, r in srcs:
                        c = channel(g.params[k][1]) if k < len(g.params) else None
                        if c in ("a1", "a2", "A"):
                            nch[k] = r[0][0]
                        elif c and g.params[k][1].replace("const ", "").startswith("std::vector"):
                            nch[k] = r[0][0]
                            if r[0][1] is not UNK:
                                if r[0][1]:
                                    noff[k] = r[0][1]
                            else:
                                noff[k] = UNK
                        else:
                            nargs[k] = r
                    sub = []
                    self._reader(g, nch, {"this": bm if bm[0] != "l" else ("this",)}, W, sub, stack + (tg[0],), noff, nargs)
                    if sub:
                        for c, pos, p, loc, fn in sub:
                            for q in (mine if bm[0] == "l" else {()}):
                                out.append((c, pos, q + p, f.loc(ln), f.short))
                        continue
                for k, r in srcs:
                    for c, pos in r:
                        for p in mine:
                            out.append((c, pos, p, f.loc(ln), f.short))
        # what was put in an array that becomes a member
        for ch, c, pos, p, loc in pend:
            for q in {x[2] for x in out if x[0] == ch and len(x[2]) == 1}:
                out.append((c, pos, q + p, loc, f.short))
        base_out += out

    def size_of(self, W, c):
        lay = W.get(c)
        return lay.size if lay is not None else UNK

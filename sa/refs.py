"""Reference ownership: how many references a function takes and gives for each counted object, per path.

Counted objects are handled through raw pointers and MCAuto handles.  Per path the analysis keeps what each variable
designates and, per designated object, the references the function still has to give away: +1 for a result it owns
(new, retn, functions proved to return an owned object) and for incrRef; -1 for decrRef, for building a handle on a raw
pointer, for storing into a pointer member the class releases, for an argument the callee consumes.  What a function
gives through its result and its reference parameters is computed to a fixpoint over the call graph."""
from sa import core
from sa.core import strip, auto_of

RC = "MEDCoupling::RefCountObjectOnly"
NULL = ("null",)
CAP = 400


class Giveup(Exception):
    pass


class St:
    __slots__ = ("env", "cnt", "tmp", "fact")

    def __init__(self, env=None, cnt=None, tmp=None, fact=None):
        self.env, self.cnt, self.tmp, self.fact = env or {}, cnt or {}, tmp or {}, fact or {}

    def copy(self):
        return St(dict(self.env), dict(self.cnt), dict(self.tmp), dict(self.fact))

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.cnt.items()), frozenset(self.tmp.items()),
                frozenset(self.fact.items()))


class Sum:
    """what a function gives: ret in (None, 'own', 'bor', 'auto', 'null', 'mix'); par: index -> delta; out: index -> kind"""
    __slots__ = ("ret", "par", "out", "this", "cond", "vec", "vret", "slot")

    def __init__(self):
        self.ret, self.par, self.out, self.this = None, {}, {}, 0
        self.cond = None      # index of the flags argument the consumption of the others depends on
        self.vec = {}         # index of a vector argument -> 'own' | 'bor': what is put in it
        self.vret = None      # same for a returned vector
        self.slot = {}        # index of a pointer argument by reference -> what becomes of the reference it held

    def k(self):
        return (self.ret, tuple(sorted(self.par.items())), tuple(sorted(self.out.items())), self.this, self.cond,
                tuple(sorted(self.vec.items())), self.vret, tuple(sorted(self.slot.items())))


class Refs:
    def __init__(self, P, E):
        self.P, self.E = P, E
        self.sum = {}
        self.given = {}
        self.mut = None          # a call to leave out (to measure what the rules notice)
        self.own_members = set()
        self.viol = {}
        self.skipped = {}
        self.pysites = set()
        self.lent = {}
        self._rc = {}
        self.counted = {n for n in P.D if n.endswith("::decrRef")} | \
            {n.partition("(")[0] for n in P.D if "::decrRef(" in n}
        self.members()

    # ------------------------------------------------------------------ types
    def rc(self, c):
        """class of counted objects"""
        r = self._rc.get(c)
        if r is None:
            r = self._rc[c] = self.P.is_a(c, RC) or any(b + "::decrRef" in self.counted for b in
                                                        [c] + list(self.P.all_bases(c)))
        return r

    def kind(self, t):
        """'raw' | 'auto' | None of a type (references dropped)"""
        t = t.strip()
        while t.endswith("&"):
            t = t[:-1].strip()
        a = auto_of(t) if not t.endswith("*") and not t.endswith("*const") else None
        if a is not None and (t.startswith("MEDCoupling::MC") or t.startswith("const MEDCoupling::MC")):
            return "auto"
        u = t
        if u.endswith("*const"):
            u = u[:-5].strip()
        if u.endswith("*") and not u[:-1].strip().endswith("*"):
            if self.rc(strip(u)):
                return "raw"
        return None

    def vkind(self, t):
        """vector of raw pointers to counted objects"""
        t = t.strip()
        t = t[6:] if t.startswith("const ") else t
        if not t.startswith("std::vector<"):
            return False
        a = core.targs(t)
        return bool(a) and self.kind(a[0]) == "raw"

    def isref(self, t):
        """reference to a counted object"""
        t = t.strip()
        return t.endswith("&") and not t.endswith("*&") and "*" not in t and "<" not in t.split("MEDCoupling::MC")[0] and \
            self.rc(strip(t))

    def members(self):
        """raw pointer members some method releases: the object owns a reference through them"""
        for n, f in self.P.F.items():
            if f.cls is None or not f.has_body:
                continue
            for b, i, ln, x in f.all_nodes():
                if x[0] == "c" and x[3] is not None and self.P.D.get(f.S[x[1]]) is not None and \
                        self.P.D[f.S[x[1]]].nm == "decrRef":
                    m = self.field(f, x[3])
                    if m is not None:
                        self.own_members.add(m)

    def field(self, f, e):
        """name of the data member of this an expression designates"""
        e = f.e(e)
        while e is not None and e[0] == "cast":
            e = f.e(e[4])
        if e is not None and e[0] == "m":
            nm = f.S[e[2]]
            c, _, m = nm.rpartition("::")
            r = self.P.R.get(c)
            if r is None:
                return None
            for x in r.fields:
                if x[0] in (m, nm):
                    return nm if self.kind(x[1]) == "raw" else None
        return None

    # ------------------------------------------------------------------ solve
    def solve(self, rounds=8):
        P = self.P
        fs = [f for f in P.F.values() if f.has_body and "nocfg" not in f.o and self.relevant(f)]
        names = {f.name for f in fs}
        callers = {}
        for f in fs:
            for b, i, ln, n, c in f.calls():
                for y in self.tg(f, n):
                    if y in names:
                        callers.setdefault(y, set()).add(f.name)
        order = self.postorder(fs, names)
        work = order
        for _ in range(rounds):
            nxt = set()
            for nm in work:
                f = P.F[nm]
                s = self.one(f)
                if nm not in self.sum or s.k() != self.sum[nm].k():
                    self.sum[nm] = s
                    nxt |= callers.get(nm, set())
            if not nxt:
                return True
            work = [x for x in order if x in nxt]
        return False

    def postorder(self, fs, names):
        P, seen, out = self.P, set(), []
        for f0 in fs:
            if f0.name in seen:
                continue
            seen.add(f0.name)
            stack = [(f0.name, iter([y for b, i, ln, n, c in f0.calls() for y in self.tg(f0, n)]))]
            while stack:
                x, it = stack[-1]
                for y in it:
                    if y in names and y not in seen:
                        seen.add(y)
                        g = P.F[y]
                        stack.append((y, iter([z for b, i, ln, n, c in g.calls() for z in self.tg(g, n)])))
                        break
                else:
                    out.append(x)
                    stack.pop()
        return out

    def relevant(self, f):
        if f.name.startswith(("MEDCoupling::MCAuto<", "MEDCoupling::MCConstAuto<", "std::")) or f.name.startswith(RC):
            return False
        if f.nm in ("incrRef", "decrRef") or f.impl:
            return False
        if self.kind(f.rt):
            return True
        for t in f.vars:
            pass
        for k in range(len(f.o.get("vars", []))):
            if self.kind(f.vtype(k)) or self.vkind(f.vtype(k).rstrip("& ")):
                return True
        for b, i, ln, n in f.all_nodes():
            if n[0] == "c" and n[3] is not None:
                d = self.P.D.get(f.S[n[1]])
                if d is not None and d.nm in ("incrRef", "decrRef", "retn", "takeRef"):
                    return True
            if n[0] == "m" and self.field(f, n) in self.own_members:
                return True
            if n[0] == "c":
                d = self.P.D.get(f.S[n[1]])
                if d is not None and self.kind(d.rt) == "raw":
                    return True
        return False

    def tg(self, f, n):
        d = self.P.D.get(f.S[n[1]])
        if n[0] == "k" or d is None or not d.virt or n[4]:
            return [f.S[n[1]]]
        return self.P.targets(f, n)

    def summ(self, f, n):
        """joined summary of the targets of a call"""
        r = None
        for y in self.tg(f, n):
            s = self.given.get(y) or self.sum.get(y)
            if s is None:
                continue
            if r is None:
                r = s
            elif r.k() != s.k():
                t = Sum()
                a = {r.ret, s.ret} - {None, "null"}
                t.ret = a.pop() if len(a) == 1 else ("mix" if a else (r.ret or s.ret))
                t.par = {k: v for k, v in r.par.items() if s.par.get(k) == v}
                for k in set(r.out) | set(s.out):
                    a = {r.out.get(k), s.out.get(k)} - {None, "null"}
                    t.out[k] = a.pop() if len(a) == 1 else "mix"
                t.this = r.this if r.this == s.this else 0
                t.cond = r.cond if r.cond == s.cond else None
                t.vec = {k: v for k, v in r.vec.items() if s.vec.get(k) == v}
                t.vret = r.vret if r.vret == s.vret else None
                t.slot = {k: v for k, v in r.slot.items() if s.slot.get(k) == v}
                r = t
        return r

    # ------------------------------------------------------------------ one function
    def one(self, f):
        A = Run(self, f)
        try:
            s = A.run()
            self.skipped.pop(f.name, None)
            self.viol[f.name] = A.viol
            self.lent[f.name] = A.lend
            return s
        except Giveup as ex:
            self.skipped[f.name] = str(ex)
            self.viol[f.name] = {}
            s = Sum()
            k = self.kind(f.rt)
            s.ret = k and ("auto" if k == "auto" else "own?")
            return s


class Run:
    def __init__(self, X, f):
        self.X, self.P, self.f = X, X.P, f
        self.viol = {}
        self.sum = Sum()
        self.rets = set()
        self.outs = {}
        self.pars = {}
        self.out_params = {}
        self.cont = {}
        self.vpar = {}
        self.vuse = {}
        self.lend = {}
        self.slots = {}
        self.vtaken = set()
        self.vrets = set()
        self.raw_params = {}
        idx = 0
        for k in range(len(f.o.get("vars", []))):
            if f.vkind(k) == "p":
                t = f.vtype(k)
                if X.kind(t) == "raw":
                    if t.rstrip().endswith("&") and not t.rstrip().endswith(("const &", "*const &")):
                        self.out_params[k] = idx
                    else:
                        self.raw_params[k] = idx
                elif X.isref(t):
                    self.raw_params[k] = idx
                elif X.vkind(t) and t.rstrip().endswith("&") and not t.startswith("const "):
                    self.vpar[k] = idx
                idx += 1
        self.cross = self.crossing()
        self.multi = self.flags()
        self.live = None

    def crossing(self):
        """elements referred to from another block"""
        f = self.f
        home = {}
        for b in f.bl:
            for i in f.bl[b][1]:
                home[i] = b
        r = set()
        for b in f.bl:
            def refs(ex):
                st = [ex]
                while st:
                    n = st.pop()
                    if n is None:
                        continue
                    if n[0] == "r":
                        if home.get(n[1]) != b:
                            r.add(n[1])
                        continue
                    st.extend(core.kids(n))
            for i in f.bl[b][1]:
                ex = f.el[i][1]
                if ex[0] != "r":
                    refs(ex)
            t = f.bl[b][2]
            if t is not None and t[1] is not None:
                refs(t[1])
        return r

    def flags(self):
        """boolean-like conditions on never reassigned variables, tested at least twice: correlated between tests"""
        f = self.f
        from sa import facts
        ds = facts.defs_of(f)
        n = {}
        for b in f.bl:
            t = f.bl[b][2]
            if t is not None and t[1] is not None:
                k = self.condkey(t[1], ds)
                if k is not None:
                    n[k[0]] = n.get(k[0], 0) + 1
        return {k for k, v in n.items() if v > 1}

    def condkey(self, e, ds=None):
        """(key, polarity) of a condition made of one never reassigned scalar variable"""
        f = self.f
        from sa import facts
        ds = ds if ds is not None else facts.defs_of(f)
        e = f.e(e)
        pol = True
        while e is not None:
            if e[0] == "cast":
                e = f.e(e[4])
            elif e[0] == "u" and e[1] == "!":
                pol = not pol
                e = f.e(e[2])
            else:
                break
        if e is None:
            return None
        if e[0] == "v" and self.X.kind(f.vtype(e[1])) is None and (self.stable(e[1], ds) or self.flag(e[1], ds)):
            return (("v", e[1]), pol)
        if e[0] == "b" and e[1] in ("==", "!=", "<", ">", "<=", ">="):
            a, b2 = self.atom(e[2], ds), self.atom(e[3], ds)
            if a is None or b2 is None:
                return None
            if e[1] == "!=":
                return (("==", a, b2), not pol)
            if e[1] == ">=":
                return (("<", a, b2), not pol)
            if e[1] == "<=":
                return ((">", a, b2), not pol)
            return ((e[1], a, b2), pol)
        return None

    def atom(self, e, ds):
        f = self.f
        e = f.e(e)
        while e is not None and e[0] == "cast":
            e = f.e(e[4])
        if e is None:
            return None
        if e[0] == "v" and self.X.kind(f.vtype(e[1])) is None and self.stable(e[1], ds):
            return ("v", e[1])
        if e[0] in ("i", "e"):
            return (e[0], str(e[1]))
        return None

    def stable(self, v, ds):
        d = ds.get(v, [])
        k = self.f.vkind(v)
        t = self.f.vtype(v)
        if t.rstrip().endswith("&"):
            return False
        if k == "p":
            return not d
        return k == "l" and len(d) == 1 and d[0][0] == "init"

    def flag(self, v, ds):
        """a local truth value only ever set by plain assignments"""
        return self.f.vkind(v) == "l" and self.f.vtype(v) in ("bool", "const bool") and \
            all(d[0] in ("init", "asg") for d in ds.get(v, []))

    def setflag(self, v, e, st):
        f = self.f
        from sa import facts
        if not self.flag(v, facts.defs_of(f)) or ("v", v) not in self.multi:
            return
        k = ("v", v)
        st.fact.pop(k, None)
        for q in [q for q, w in st.fact.items() if isinstance(w, tuple) and w[1] == k]:
            st.fact.pop(q)
        x = f.e(e) if e is not None else None
        while x is not None and x[0] == "cast":
            x = f.e(x[4])
        if x is not None and x[0] in ("i", "bool") and str(x[1]) in ("0", "1", "True", "False", "true", "false"):
            st.fact[k] = str(x[1]) in ("1", "True", "true")
        elif x is not None:
            c = self.condkey(x)
            if c is not None and c[0] != k:
                w = st.fact.get(c[0])
                if isinstance(w, bool):
                    st.fact[k] = w == c[1]
                elif w is None:
                    st.fact[k] = ("=", c[0], c[1])
                    self.multi.add(c[0])

    def getfact(self, st, k):
        pol = True
        for _ in range(4):
            w = st.fact.get(k)
            if isinstance(w, tuple):
                pol = pol == w[2]
                k = w[1]
                continue
            break
        return k, pol, st.fact.get(k)

    def report(self, rule, key, line, msg):
        self.viol.setdefault((rule, key), (line, msg))

    # ------------------------------------------------------------------ driver
    def run(self):
        f, X = self.f, self.X
        if len(f.bl) > 600:
            raise Giveup("too many blocks")
        s0 = St()
        for k in self.raw_params:
            s0.env[k] = ("o", ("p", k))
        for k in self.out_params:
            s0.env[k] = ("o", ("out", k))
        for k in range(len(f.o.get("vars", []))):
            if f.vkind(k) == "p" and X.kind(f.vtype(k)) == "auto":
                s0.env[k] = ("a", ("pa", k))
        IN = {f.entry: {s0.key(): s0}}
        work = [f.entry]
        pos = {b: k for k, b in enumerate(f.rpo)}
        done = {}
        steps = 0
        while work:
            work.sort(key=lambda b: -pos.get(b, 0))
            b = work.pop()
            todo = [k for k in IN[b] if k not in done.setdefault(b, set())]
            for k in todo:
                done[b].add(k)
                steps += 1
                if steps > 60000:
                    raise Giveup("too many steps")
                st = IN[b][k].copy()
                outs = self.block(b, st)
                for s, o in outs:
                    self.prune(o, s)
                    self.gc(o)
                    kk = o.key()
                    d = IN.setdefault(s, {})
                    if kk not in d:
                        if len(d) > CAP:
                            raise Giveup("too many states")
                        d[kk] = o
                        if s not in work:
                            work.append(s)
        for st in IN.get(f.exit, {}).values():
            self.at_exit(st)
        return self.finish()

    def liveness(self):
        """block -> variables read before being set again, from its start on"""
        f = self.f
        use, kill = {}, {}
        for b in f.bl:
            u, k = set(), set()

            def see(ex):
                dfn = set()
                for n in f.walk(ex):
                    if n[0] == "decl":
                        dfn |= {v for v, _ in n[1:]}
                    elif n[0] == "b" and n[1] == "=" and n[2][0] == "v":
                        dfn.add(n[2][1])
                lhs = {id(n[2]) for n in f.walk(ex) if n[0] == "b" and n[1] == "=" and n[2][0] == "v"}
                for n in f.walk(ex):
                    if n[0] == "v" and id(n) not in lhs and n[1] not in k:
                        u.add(n[1])
                    elif n[0] == "lam":
                        for x in n[2]:
                            if x and x[0] == "cap":
                                u.add(x[1])
                return dfn
            for i in f.bl[b][1]:
                ex = f.el[i][1]
                if ex[0] != "r":
                    k |= see(ex)
            t = f.bl[b][2]
            if t is not None and t[1] is not None:
                see(t[1])
            use[b], kill[b] = u, k
        live = {b: set(use[b]) for b in f.bl}
        ch = True
        while ch:
            ch = False
            for b in f.bl:
                n = set(use[b])
                for s in f.succs(b):
                    n |= live[s] - kill[b]
                if n != live[b]:
                    live[b] = n
                    ch = True
        return live

    def prune(self, st, b):
        if self.live is None:
            self.live = self.liveness()
        lv = self.live[b]
        f = self.f
        for k in [k for k, v in st.env.items() if isinstance(k, int) and k not in lv and f.vkind(k) == "l" and
                  (v == NULL or v is None or v[0] == "o" or v[1][0] not in ("new", "s"))]:
            del st.env[k]
        for k in [k for k in st.fact if isinstance(k, tuple) and k[0] == "v" and k[1] not in lv]:
            del st.fact[k]

    def gc(self, st):
        used = {v[1] for v in st.env.values() if v is not NULL and v is not None}
        used |= {v[1] for v in st.tmp.values() if v is not NULL and v is not None}
        for i in list(used):
            while i[0] == "w":
                i = i[1]
                used.add(i)
        for i in [i for i, c in st.cnt.items() if (c == 0 and i not in used)]:
            del st.cnt[i]

    def block(self, b, st):
        f = self.f
        ended = False
        for i in f.bl[b][1]:
            ln, ex = f.el[i]
            if ex[0] == "r":
                continue
            self.b, self.i, self.ln, self.q = b, i, ln, 0
            if ex[0] == "thr":
                return []
            v = self.ev(ex, st)
            if v is not None:
                st.tmp[i] = v
            else:
                st.tmp.pop(i, None)
        for i in [i for i in st.tmp if i not in self.cross]:
            del st.tmp[i]
        bl = f.bl[b]
        if bl[5] if len(bl) > 5 else False:
            return []
        t = bl[2]
        ss = bl[3]
        if t is None:
            return [(ss[0], st)] if ss and ss[0] is not None else []
        if len(ss) == 2 and t[1] is not None and t[0] not in ("SwitchStmt",):
            r = []
            ck = self.condkey(t[1])
            for s, val in ((ss[0], True), (ss[1], False)):
                if s is None:
                    continue
                o = st.copy()
                if ck is not None and ck[0] in self.multi:
                    kk, pol, cur = self.getfact(o, ck[0])
                    w = (val == ck[1]) == pol
                    if cur is not None and cur != w:
                        continue
                    o.fact[kk] = w
                if self.assume(t[1], val, o):
                    r.append((s, o))
            return r
        return [(s, st.copy()) for s in ss if s is not None]

    def assume(self, e, val, st):
        """refine by a null test; False when infeasible"""
        f = self.f
        if e is None:
            return True
        n = e
        while n[0] == "r":
            if n[1] in st.tmp:
                break
            n = f.el[n[1]][1]
        if n[0] == "cast":
            return self.assume(n[4], val, st)
        if n[0] == "u" and n[1] == "!":
            return self.assume(n[2], not val, st)
        if n[0] == "b" and n[1] in ("==", "!="):
            for x, y in ((n[2], n[3]), (n[3], n[2])):
                if self.isnull(y):
                    return self.assume(x, val == (n[1] == "!="), st)
            return True
        if n[0] == "b" and n[1] == "&&":
            return True
        if n[0] == "c":
            d = self.P.D.get(f.S[n[1]])
            if d is not None and n[3] is not None and (d.cls or "").startswith(core.MCAUTO):
                if d.nm == "isNull":
                    return self.null(self.peek(n[3], st), val, st)
                if d.nm == "isNotNull":
                    return self.null(self.peek(n[3], st), not val, st)
        v = self.peek(n, st)
        return self.null(v, not val, st)

    def isnull(self, e):
        e = self.f.e(e)
        while e is not None and e[0] == "cast":
            e = self.f.e(e[4])
        return e is not None and (e[0] == "null" or (e[0] == "i" and str(e[1]) == "0"))

    def null(self, v, isnull, st):
        if v is None:
            return True
        if v == NULL:
            return isnull
        if isnull:
            i = v[1]
            if i[0] == "new" or i[0] == "this":
                return False
            for k, w in list(st.env.items()):
                if w is not None and w != NULL and w[1] == i:
                    st.env[k] = NULL
            for k, w in list(st.tmp.items()):
                if w is not None and w != NULL and w[1] == i:
                    st.tmp[k] = NULL
            st.cnt.pop(i, None)
            if i[0] == "b":
                st.fact[("isnull", i)] = True
            if i[0] == "out":
                st.fact[("wasnull", i[1])] = True
        return True

    def peek(self, e, st):
        """value of an expression without effects"""
        f = self.f
        n = e
        while n is not None:
            if n[0] == "r":
                if n[1] in st.tmp:
                    return st.tmp[n[1]]
                n = f.el[n[1]][1]
            elif n[0] == "cast":
                n = n[4]
            else:
                break
        if n is None:
            return None
        if n[0] == "v":
            return st.env.get(n[1])
        if n[0] == "m":
            return self.member(n, st)
        if n[0] == "c" and n[3] is not None:
            d = self.P.D.get(f.S[n[1]])
            if d is not None and (d.cls or "").startswith(core.MCAUTO) and d.nm.startswith("operator"):
                return self.peek(n[3], st)
        return None

    def member(self, n, st):
        f = self.f
        base = f.e(n[1])
        while base is not None and base[0] == "cast":
            base = f.e(base[4])
        nm = f.S[n[2]]
        c, _, m = nm.rpartition("::")
        r = self.P.R.get(c)
        ty = next((x[1] for x in r.fields if x[0] in (m, nm)), "") if r is not None else ""
        k = self.X.kind(ty)
        if k is None:
            return None
        if base is not None and base[0] == "this" and not f.lam:
            key = ("m", nm)
            v = st.env.get(key)
            if v is None:
                v = st.env[key] = ("o" if k == "raw" else "a", ("mem", nm))
            return v
        return ("o" if k == "raw" else "a", ("x", self.b, self.i, self.q))

    def add(self, st, v, d):
        if v is None or v == NULL:
            return
        i = v[1]
        c = st.cnt.get(i, 0)
        if c is None:
            return
        c += d
        st.cnt[i] = c if -3 <= c <= 4 else None

    def fresh(self, kind="s"):
        self.q += 1
        return (kind, self.b, self.i, self.q)

    def fold(self, st):
        """what was done through the results of dynamic casts, all null cases being settled, was done to the object"""
        for i in [i for i in st.cnt if i[0] == "w"]:
            c = st.cnt.pop(i)
            b = i
            while b[0] == "w":
                b = b[1]
            o = st.cnt.get(b, 0)
            st.cnt[b] = None if c is None or o is None else o + c
        for d in (st.env, st.tmp):
            for k, v in d.items():
                if v is not None and v != NULL and v[1][0] == "w":
                    b = v[1]
                    while b[0] == "w":
                        b = b[1]
                    d[k] = (v[0], b)

    def retire(self, st, i):
        """a site is evaluated again: the object it made before"""
        if any(k[0] == "w" for k in st.cnt):
            self.fold(st)
        c = st.cnt.pop(i, 0)
        held = [k for k, v in st.env.items() if v is not None and v != NULL and v[1] == i]
        if c is not None and c > 0:
            self.report("leak", self.name_of(i), self.line_of(i), "made in a loop and never released")
        for k in held:
            if st.env[k][0] == "o" or True:
                st.env.pop(k)
        for k in [k for k, v in st.tmp.items() if v is not None and v != NULL and v[1] == i]:
            st.tmp.pop(k)

    def line_of(self, i):
        if len(i) >= 4 and i[0] in ("s", "new", "x"):
            return self.f.el[i[2]][0]
        return self.f.line

    def name_of(self, i):
        return str(i)

    # ------------------------------------------------------------------ evaluation
    def ev(self, n, st):
        f, X, P = self.f, self.X, self.P
        if n is None:
            return None
        t = n[0]
        if t == "r":
            return st.tmp.get(n[1])
        if t == "v":
            return st.env.get(n[1])
        if t == "this":
            return None if f.lam else ("o", ("this",))
        if t == "null":
            return NULL
        if t == "i":
            return NULL if str(n[1]) == "0" else None
        if t == "m":
            if n[1] is not None:
                self.ev(n[1], st)
            return self.member(n, st)
        if t == "cast":
            v = self.ev(n[4], st)
            if v is not None and v != NULL and n[1] == "d":
                return (v[0], ("w", v[1]))
            return v
        if t == "u":
            v = self.ev(n[2], st)
            if n[1] in ("*", "&"):
                return v if n[1] == "&" else (v if self.ptrlike(n[2]) else None)
            return None
        if t == "decl":
            for v, ini in n[1:]:
                x = self.ev(ini, st) if ini is not None else None
                k = X.kind(f.vtype(v))
                if k == "raw" or X.isref(f.vtype(v)):
                    if x is not None and x != NULL:
                        x = ("o",) + x[1:]
                    self.dangle(ini, x, st, v)
                    self.setvar(st, v, x)
                elif k == "auto":
                    if f.vtype(v).rstrip().endswith("&"):
                        self.setvar(st, v, x)
                        continue
                    if ini is None:
                        x = NULL
                    if x is not None and x != NULL:
                        x = ("a",) + x[1:2]
                    self.setvar(st, v, x)
                else:
                    self.setflag(v, ini, st)
                    if ini is not None and X.vkind(f.vtype(v)):
                        self.vinit(v, ini)
                    if x is not None and ini is not None:
                        self.escape(x, st, f.vtype(v))
            return None
        if t == "b":
            if n[1] == "=":
                r = self.ev(n[3], st)
                l = n[2]
                self.ev_l(l, st)
                self.store(l, r, st, n[3])
                return r
            a = self.ev(n[2], st)
            b = self.ev(n[3], st)
            if n[1] == ",":
                return b
            return None
        if t == "new":
            a = self.ev(n[3], st) if n[3] is not None else None
            if n[4] is not None:
                self.ev(n[4], st)
            c = strip(f.S[n[1]])
            if not n[2] and X.rc(c):
                i = self.fresh("new")
                self.retire(st, i)
                st.cnt[i] = 1
                return ("o", i)
            return None
        if t == "del":
            self.add(st, self.ev(n[2], st), -1)
            return None
        if t == "k":
            return self.construct(n, st)
        if t == "c":
            return self.call(n, st)
        if t == "?:":
            return self.cond(n, st)
        if t == "ret":
            v = self.ev(n[1], st) if n[1] is not None else None
            self.ret(n, v, st)
            return None
        if t in ("finit", "binit"):
            v = self.ev(n[2], st)
            if t == "finit":
                nm = f.S[n[1]]
                if nm in X.own_members:
                    st.env[("m", nm)] = v if v is not None else NULL
                    if v is not None:
                        self.add(st, v, -1)
                elif self.mkind(nm) == "raw":
                    if v is not None and v != NULL and st.cnt.get(v[1]):
                        self.escape(v, st, "")
                elif self.mkind(nm) == "auto" and v is not None:
                    st.env[("m", nm)] = v if v == NULL else ("a", v[1])
            return None
        if t == "lam":
            for x in n[2]:
                if x and x[0] == "cap" and x[2] is not None and not isinstance(x[2], (bool, int, str)):
                    pass
            return None
        if t == "il":
            for x in n[1]:
                self.escape(self.ev(x, st), st, "")
            return None
        for x in core.kids(n):
            self.ev(x, st)
        return None

    def vinit(self, v, e):
        f = self.f
        e = f.e(e)
        while e is not None and (e[0] == "cast" or (e[0] == "k" and len(e[2]) == 1)):
            e = f.e(e[4] if e[0] == "cast" else e[2][0])
        if e is not None and e[0] == "c":
            s = self.X.summ(f, e)
            if s is not None and s.vret:
                self.cont.setdefault(v, {}).setdefault(s.vret, self.ln)

    def mkind(self, nm):
        c, _, m = nm.rpartition("::")
        r = self.P.R.get(c)
        ty = next((x[1] for x in r.fields if x[0] in (m, nm)), "") if r is not None else ""
        return self.X.kind(ty)

    def ptrlike(self, e):
        return True

    def setvar(self, st, v, x):
        if x is None:
            st.env.pop(v, None)
        else:
            st.env[v] = x

    def escape(self, v, st, ty):
        """stored where the analysis does not follow: the reference, if any, goes with it"""
        if v is None or v == NULL or v[0] == "a":
            return
        if st.cnt.get(v[1]):
            st.cnt[v[1]] = None

    def dangle(self, ini, x, st, v):
        pass

    def ev_l(self, l, st):
        f = self.f
        if l[0] == "v":
            return
        if l[0] == "m":
            if l[1] is not None:
                self.ev(l[1], st)
            return
        self.ev(l, st)

    def store(self, l, r, st, rhs=None):
        f, X = self.f, self.X
        x = f.e(l)
        while x is not None and x[0] == "cast":
            x = f.e(x[4])
        if x[0] == "v":
            k = X.kind(f.vtype(x[1]))
            if k == "raw":
                if r is not None and r != NULL:
                    r = ("o",) + r[1:]
                self.setvar(st, x[1], r)
            else:
                self.setflag(x[1], rhs, st)
                if r is not None:
                    self.escape(r, st, f.vtype(x[1]))
            return
        if x[0] == "m":
            nm = f.S[x[2]]
            k = self.mkind(nm)
            base = f.e(x[1])
            while base is not None and base[0] == "cast":
                base = f.e(base[4])
            mine = base is not None and base[0] == "this"
            if k == "raw" and nm in X.own_members:
                if mine and r is not None and r != NULL and ("relp", nm, r[1]) in st.fact:
                    self.first(nm)
                if mine:
                    old = self.member(x, st)
                    if not (f.ctor and old != NULL and old is not None and old[1] == ("mem", nm)):
                        self.add(st, old, +1)
                self.add(st, r, -1)
                if mine:
                    if r is None:
                        i = self.fresh("x")
                        st.cnt[i] = None
                        st.env[("m", nm)] = ("o", i)
                    else:
                        st.env[("m", nm)] = r
                return
            if mine and k == "raw":
                st.env.pop(("m", nm), None)
                if r is not None:
                    st.env[("m", nm)] = r
            if k is not None or r is not None:
                self.escape(r, st, "")
            return
        if r is not None:
            self.escape(r, st, "")

    def construct(self, n, st):
        f, X = self.f, self.X
        ty = f.S[n[3]]
        d = self.P.D.get(f.S[n[1]])
        args = [self.ev(a, st) for a in n[2]]
        if auto_of(ty) is not None and X.kind(ty) == "auto":
            if not n[2]:
                return NULL
            v = args[0]
            if d is not None and d.params and d.params[0][1].rstrip().endswith("*"):
                # a handle on a raw pointer takes over one reference
                if v is None:
                    return self.unknown(st)
                if v == NULL:
                    return NULL
                self.add(st, v, -1)
                return ("a", v[1])
            if v is None and not (n[2] and f.e(n[2][0]) is not None and self.autolv(n[2][0])):
                return self.unknown(st)
            return v if v is None or v == NULL else ("a", v[1])
        self.args(n, args, st)
        return None

    def autolv(self, e):
        """designates an existing handle (element, member of another object): what it holds is held elsewhere too"""
        f = self.f
        e = f.e(e)
        while e is not None and e[0] == "cast":
            e = f.e(e[4])
        if e is None:
            return True
        if e[0] == "c":
            d = self.P.D.get(f.S[e[1]])
            return d is None or d.rt.rstrip().endswith("&")
        return e[0] not in ("k",)

    def unknown(self, st):
        i = self.fresh("s")
        self.retire(st, i)
        st.cnt[i] = 0
        return ("a", i)

    def args(self, n, args, st):
        """effects of a call on its pointer arguments"""
        f, X = self.f, self.X
        d = self.P.D.get(f.S[n[1]])
        s = X.summ(f, n)
        for k, a in enumerate(n[2]):
            v = args[k]
            pt = d.params[k][1] if d is not None and k < len(d.params) else ""
            if s is not None and k in s.par:
                w = self.ownflag(n[2][s.cond], st) if s.cond is not None else True
                if w is None:
                    self.escape(v, st, "")
                elif w and v is not None:
                    self.add(st, v, s.par[k])
                if s.cond is not None and s.par[k] == -1:
                    self.element(a, w)
                    if w is False and v is not None and v != NULL and st.cnt.get(v[1], 0) == 0:
                        self.lend.setdefault(self.ln, v)
            if s is not None and k in s.vec:
                self.filled(a, s.vec[k])
            if d is not None and (d.cls or "").startswith("std::"):
                if v is not None and v != NULL and v[0] == "o":
                    if n[0] == "c" and d.nm == "push_back" and n[3] is not None and d.cls.startswith("std::vector<"):
                        self.pushed(n[3], v, st)
                    self.escape(v, st, "")
            elif X.kind(pt) == "raw" and pt.rstrip().endswith("&") and not pt.rstrip().endswith(("const &", "&&")):
                x = f.e(a)
                while x is not None and x[0] == "cast":
                    x = f.e(x[4])
                if x is not None and x[0] == "v":
                    o = s.out.get(k) if s is not None else None
                    if o is None and s is not None:
                        continue        # not set
                    i = self.fresh("s")
                    self.retire(st, i)
                    if o == "own":
                        st.cnt[i] = 1
                    elif o == "null":
                        st.env[x[1]] = NULL
                        continue
                    st.env[x[1]] = ("o", i) if o in ("own", "bor") else None
                    if st.env[x[1]] is None:
                        del st.env[x[1]]
                elif x is not None and x[0] == "m" and f.S[x[2]] in X.own_members and s is not None:
                    y = f.e(x[1])
                    while y is not None and y[0] == "cast":
                        y = f.e(y[4])
                    w = s.slot.get(k, "?")
                    if isinstance(w, int) and w < len(args):
                        self.add(st, args[w], -1)
                    if y is not None and y[0] == "this" and not f.lam:
                        nm = f.S[x[2]]
                        if w == "?":
                            st.cnt[("mem", nm)] = None
                        v = st.env.pop(("m", nm), None)
                        if v is not None and v != NULL and v[1] == ("mem", nm) and isinstance(w, int) and args[w] is not None:
                            st.env[("m", nm)] = args[w]
            elif d is not None and (d.cls or "").startswith("INTERP_KERNEL::AutoCppPtr<") and v is not None:
                self.add(st, v, -1)
            elif d is None and v is not None:
                self.escape(v, st, "")

    def first(self, nm):
        if not self.compared(nm):
            m = nm.rpartition("::")[2]
            self.report("released-first", m, self.ln, "takes a reference on the new object after having released %s, which "
                        "may be the same object" % m)

    def compared(self, m):
        """the function compares the member with another pointer"""
        f = self.f

        def is_m(e):
            e = f.e(e)
            while e is not None and (e[0] == "cast" or (e[0] == "c" and e[3] is not None and not e[2])):
                e = f.e(e[4] if e[0] == "cast" else e[3])
            return e is not None and e[0] == "m" and f.S[e[2]] == m
        for b in f.bl:
            t = f.bl[b][2]
            ex = [f.el[i][1] for i in f.bl[b][1]] + ([t[1]] if t is not None and t[1] is not None else [])
            for e in ex:
                for n in f.walk(e):
                    if n[0] == "b" and n[1] in ("==", "!=") and (is_m(n[2]) != is_m(n[3])) and \
                            not self.isnull(n[2]) and not self.isnull(n[3]):
                        return True
        return False

    def ownflag(self, e, st):
        """does the flags argument of the Python runtime hand the reference over?  None when not known; 'par' when the
        function's own flags argument decides"""
        f = self.f
        e = f.e(e)
        while e is not None and e[0] == "cast":
            e = f.e(e[4])
        if e is None:
            return None
        if e[0] == "i":
            return bool(int(str(e[1])) & 1)
        if e[0] == "b" and e[1] in ("|", "&"):
            a, b = self.ownflag(e[2], st), self.ownflag(e[3], st)
            if e[1] == "|":
                if a is True or b is True:
                    return True
                if a == "par" or b == "par":
                    return "par"
                return False if a is False and b is False else None
            return None
        if e[0] == "v" and f.vkind(e[1]) == "p":
            k = [j for j in range(len(f.o.get("vars", []))) if f.vkind(j) == "p"].index(e[1])
            self.sum.cond = k
            return "par"
        return None

    def topython(self, n, args, st):
        v, w = args[1], self.ownflag(n[2][3], st)
        self.X.pysites.add((self.f.name, self.ln))
        if w is False and v is not None and v != NULL and st.cnt.get(v[1], 0) == 0:
            self.lend.setdefault(self.ln, v)
        if w is None:
            self.escape(v, st, "")
        elif w:
            self.add(st, v, -1)
        self.element(n[2][1], w)

    def vecof(self, e, depth=0):
        """the vector variable an expression designates an element of"""
        f = self.f
        e = f.e(e)
        while e is not None and (e[0] == "cast" or (e[0] == "u" and e[1] == "*")):
            e = f.e(e[4] if e[0] == "cast" else e[2])
        if e is None or depth > 5:
            return None
        if e[0] == "x":
            e = f.e(e[1])
            while e is not None and e[0] == "cast":
                e = f.e(e[4])
            return self.vecof(e, depth + 1)
        if e[0] == "c":
            d = self.P.D.get(f.S[e[1]])
            if d is None:
                return None
            if d.nm in ("operator[]", "at", "front", "back", "begin", "end", "cbegin", "rbegin", "operator*", "operator->",
                        "base", "data"):
                return self.vecof(e[3] if e[3] is not None else e[2][0], depth + 1)
            return None
        if e[0] == "k" and len(e[2]) == 1:
            return self.vecof(e[2][0], depth + 1)
        if e[0] == "v":
            if self.X.vkind(f.vtype(e[1]).rstrip("& ")):
                return e[1]
            from sa import facts
            ds = facts.defs_of(f).get(e[1], [])
            r = {self.vecof(d[1], depth + 1) for d in ds if d[0] in ("init", "asg") and d[1] is not None}
            return r.pop() if len(r) == 1 else None
        return None

    def element(self, e, own):
        """an element of a vector is handed over to Python, or lent"""
        v = self.vecof(e)
        if v is not None and own in (True, False):
            self.vuse.setdefault(v, {}).setdefault("own" if own else "bor", self.ln)

    def filled(self, e, how):
        f = self.f
        x = f.e(e)
        while x is not None and x[0] == "cast":
            x = f.e(x[4])
        if x is not None and x[0] == "v":
            self.cont.setdefault(x[1], {}).setdefault(how, self.ln)

    def call(self, n, st):
        f, X = self.f, self.X
        d = self.P.D.get(f.S[n[1]])
        o = self.ev(n[3], st) if n[3] is not None else None
        args = [self.ev(a, st) for a in n[2]]
        if d is None:
            for v in args:
                self.escape(v, st, "")
            return None
        nm, cls = d.nm, d.cls or ""
        if X.mut is not None and X.mut is n:
            return None if nm in ("incrRef", "decrRef") else (o if o is None or o == NULL else ("o", o[1]))
        if nm == "incrRef" and n[3] is not None:
            if o is not None and o != NULL and o[1][0] in ("p", "b"):
                for q in [q for q in st.fact if q[0] == "rel"]:
                    st.fact[("relp", q[1], o[1])] = self.ln
                    v = st.env.get(("m", q[1]))
                    if v is not None and v != NULL and v[1] == o[1]:
                        self.first(q[1])
            self.add(st, o, +1)
            v = self.vecof(n[3])
            if v is not None and not self.X.kind(f.vtype(v)):
                self.vtaken.add(v)
            return None
        if nm == "decrRef" and n[3] is not None:
            if o is not None and o != NULL and o[1][0] == "mem" and not st.cnt.get(o[1], 0):
                st.fact[("rel", o[1][1])] = True
            self.add(st, o, -1)
            return None
        if cls.startswith(core.MCAUTO) and n[3] is not None and not d.static:
            if nm in ("retn", "retnConstCast"):
                if o is None:
                    i = self.fresh("s")
                    self.retire(st, i)
                    st.cnt[i] = 1
                    return ("o", i)
                self.add(st, o, +1)
                return o if o == NULL else ("o", o[1])
            if nm == "operator=":
                v = args[0] if args else None
                raw = d.params and d.params[0][1].rstrip().endswith("*")
                if v is None:
                    x = self.unknown(st) if raw else None
                elif v == NULL:
                    x = NULL
                else:
                    if raw and not (o is not None and o != NULL and o[1] == v[1]):
                        self.add(st, v, -1)
                    x = ("a", v[1])
                self.setauto(n[3], x, st)
                return x
            if nm == "takeRef":
                v = args[0]
                x = None if v is None else (NULL if v == NULL else ("a", v[1]))
                self.setauto(n[3], x, st)
                return None
            if nm == "nullify":
                self.setauto(n[3], NULL, st)
                return None
            if nm.startswith("operator") and nm not in ("operator==",):
                return o if o is None or o == NULL else ("o", o[1])
            if nm == "iAmATrollConstCast":
                return o if o is None or o == NULL else ("o", o[1])
            return None
        if cls.startswith(core.MCAUTO) and d.static and nm == "TakeRef":
            v = args[0]
            return None if v is None else (NULL if v == NULL else ("a", v[1]))
        if nm == "swap" and f.S[n[1]].startswith("std::swap<") and len(n[2]) == 2 and X.kind(d.params[0][1]) == "raw":
            self.store(n[2][0], args[1], st)
            self.store(n[2][1], args[0], st)
            return None
        if nm == "SWIG_Python_NewPointerObj" and len(n[2]) == 4:
            self.topython(n, args, st)
            return None
        s = X.summ(f, n)
        self.args(n, args, st)
        # members may change
        if o is not None and o != NULL and o[1] == ("this",) and not d.const and not d.static and not f.dtor:
            for k in [k for k in st.env if isinstance(k, tuple) and k[0] == "m"]:
                v = st.env[k]
                if v is not None and v != NULL and st.cnt.get(v[1]):
                    continue
                del st.env[k]
        if s is not None and s.this and o is not None:
            self.add(st, o, s.this)
        k = X.kind(d.rt)
        if k == "raw" and cls.startswith("std::vector<") and nm in ("operator[]", "at", "front", "back") and \
                n[3] is not None and self.lent(n[3]):
            return ("o", ("b", self.tkey(n, st)))
        if k == "raw":
            r = s.ret if s is not None else None
            if r == "own":
                i = self.fresh("s")
                self.retire(st, i)
                st.cnt[i] = 1
                return ("o", i)
            if r == "bor":
                i = ("b", self.tkey(n, st))
                return NULL if ("isnull", i) in st.fact else ("o", i)
            if r == "null":
                return NULL
            return None
        if k == "auto":
            if d.rt.rstrip().endswith("&"):
                return None
            return self.unknown(st)
        return None

    def lent(self, e):
        """elements of a constant vector given as argument: not owned"""
        f = self.f
        e = f.e(e)
        while e is not None and e[0] == "cast":
            e = f.e(e[4])
        return e is not None and e[0] == "v" and f.vkind(e[1]) == "p" and f.vtype(e[1]).startswith("const std::vector<")

    def tkey(self, n, st):
        """key of a borrowed result: same expression, same values"""
        f = self.f

        def go(e, dep=0):
            if e is None or dep > 8:
                return None
            if e[0] == "r":
                if e[1] in st.tmp:
                    return st.tmp[e[1]]
                return go(f.el[e[1]][1], dep + 1)
            if e[0] == "v":
                return ("v", e[1], st.env.get(e[1]))
            if e[0] == "cast":
                return go(e[4], dep + 1)
            if e[0] == "m":
                return ("m", f.S[e[2]], go(e[1], dep + 1))
            if e[0] == "c":
                return ("c", f.S[e[1]], go(e[3], dep + 1), tuple(go(a, dep + 1) for a in e[2]))
            if e[0] in ("this", "null"):
                return (e[0],)
            if e[0] in ("i", "e", "g", "f", "s"):
                return (e[0], str(e[1]))
            if e[0] == "u":
                return ("u", e[1], go(e[2], dep + 1))
            if e[0] == "b":
                return ("b", e[1], go(e[2], dep + 1), go(e[3], dep + 1))
            if e[0] == "x":
                return ("x", go(e[1], dep + 1), go(e[2], dep + 1))
            return ("?", self.b, self.i)

        def depth(k):
            return 1 + max([depth(x) for x in k] or [0]) if isinstance(k, tuple) else 0
        r = go(n)
        return r if depth(r) < 14 else ("deep", self.b, self.i)

    def setauto(self, e, x, st):
        f = self.f
        y = f.e(e)
        while y is not None and y[0] == "cast":
            y = f.e(y[4])
        if y is None:
            return
        if y[0] == "v":
            self.setvar(st, y[1], x)
        elif y[0] == "m":
            base = f.e(y[1])
            while base is not None and base[0] == "cast":
                base = f.e(base[4])
            if base is not None and base[0] == "this":
                st.env[("m", f.S[y[2]])] = x

    def cond(self, n, st):
        f = self.f
        a, b = n[2], n[3]
        va = vb = None
        ia = a[0] == "r" and a[1] in st.tmp
        ib = b[0] == "r" and b[1] in st.tmp
        if ia and not ib:
            r = st.tmp[a[1]]
        elif ib and not ia:
            r = st.tmp[b[1]]
        elif a[0] != "r" and b[0] == "r":
            r = self.ev(a, st)
        elif b[0] != "r" and a[0] == "r":
            r = self.ev(b, st)
        elif ia and ib:
            r = None
            self.escape(st.tmp[a[1]], st, "")
            self.escape(st.tmp[b[1]], st, "")
        else:
            x, y = self.ev(a, st), self.ev(b, st)
            r = x if x == y else None
        for z in (a, b):
            if z[0] == "r":
                st.tmp.pop(z[1], None)
        return r

    # ------------------------------------------------------------------ results
    def ret(self, n, v, st):
        f, X = self.f, self.X
        k = X.kind(f.rt)
        if k == "raw":
            if v is not None and v != NULL and v[1][0] == "w":
                self.fold(st)
                b = v[1]
                while b[0] == "w":
                    b = b[1]
                v = (v[0], b)
            if v is None:
                self.rets.add(("?", self.ln))
                st.env["ret"] = None
                st.env.pop("ret")
            elif v == NULL:
                self.rets.add(("null", self.ln))
            else:
                c = st.cnt.get(v[1], 0)
                i = v[1]
                if c is None:
                    self.rets.add(("?", self.ln))
                elif c >= 1:
                    self.rets.add(("own", self.ln))
                    self.add(st, v, -1)
                else:
                    loc = self.holder(i, st)
                    if loc:
                        self.report("dangling", f.vname(loc[0]), self.ln,
                                    "returns %s, whose last reference a local handle releases" % f.vname(loc[0]))
                        self.rets.add(("own", self.ln))
                    else:
                        self.rets.add(("bor", self.ln))
        elif k == "auto":
            self.rets.add(("auto", self.ln))
        elif X.vkind(f.rt) and n[1] is not None:
            x = f.e(n[1])
            while x is not None and (x[0] == "cast" or (x[0] == "k" and len(x[2]) == 1)):
                x = f.e(x[4] if x[0] == "cast" else x[2][0])
            if x is not None and x[0] == "v":
                self.vrets.add(x[1])
            elif x is not None and x[0] == "c":
                z = X.summ(f, x)
                self.vrets.add(z.vret if z is not None else None)
            else:
                self.vrets.add(None)
        else:
            self.escape(v, st, "")

    def pushed(self, e, v, st):
        """elements of a vector are all owned by whom gets the vector, or none is"""
        f = self.f
        x = f.e(e)
        while x is not None and x[0] == "cast":
            x = f.e(x[4])
        if x is None or x[0] != "v":
            return
        c = st.cnt.get(v[1], 0)
        if c is None:
            return
        self.cont.setdefault(x[1], {}).setdefault("own" if c >= 1 else "bor", self.ln)

    def holder(self, i, st, out=None):
        """the local handle that alone holds an object made here"""
        f = self.f
        if i[0] not in ("new", "s"):
            return []
        loc = [q for q, w in st.env.items() if isinstance(q, int) and w is not None and w != NULL and
               w[0] == "a" and w[1] == i and f.vkind(q) == "l" and not f.vtype(q).rstrip().endswith("&")]
        mem = [q for q, w in st.env.items() if q != out and w is not None and w != NULL and w[1] == i and
               (isinstance(q, tuple) or f.vkind(q) != "l")]
        return [] if mem else loc

    def at_exit(self, st):
        f, X = self.f, self.X
        self.fold(st)
        for k, idx in self.out_params.items():
            v = st.env.get(k)
            old = st.cnt.get(("out", k), 0)
            if v is not None and v != NULL and v[1] == ("out", k):
                w = ("same",) if old == 0 else ("?",)
            elif v is None or old is None:
                w = ("?",)
            elif old == 0 and ("wasnull", k) not in st.fact:
                w = ("?",)
            elif v == NULL:
                w = ("full",)
            else:
                c = st.cnt.get(v[1], 0)
                w = ("full",) if c is not None and c >= 1 else (("arg", self.raw_params[v[1][1]]) if c == 0 and
                                                               v[1][0] == "p" and v[1][1] in self.raw_params else ("?",))
            self.slots.setdefault(idx, set()).add(w)
            if v is None:
                self.outs.setdefault(idx, set()).add("?")
            elif v == NULL:
                self.outs.setdefault(idx, set()).add("null")
            elif v[1] == ("out", k):
                continue
            else:
                c = st.cnt.get(v[1], 0)
                if c is None:
                    self.outs.setdefault(idx, set()).add("?")
                elif c >= 1:
                    self.outs.setdefault(idx, set()).add("own")
                    self.add(st, v, -1)
                else:
                    loc = self.holder(v[1], st, k)
                    if loc:
                        self.report("dangling", f.vname(k), self.f.line, "gives %s through %s, but a local handle releases "
                                    "its last reference" % (f.vname(loc[0]), f.vname(k)))
                    self.outs.setdefault(idx, set()).add("own" if loc else "bor")
        for k, idx in self.raw_params.items():
            if ("p", k) not in st.cnt and st.env.get(k) == NULL:
                continue
            self.pars.setdefault(idx, set()).add(st.cnt.get(("p", k), 0))
        if f.dtor:
            for nm in X.own_members:
                if nm.rpartition("::")[0] == f.cls:
                    v = st.env.get(("m", nm))
                    if v == NULL:
                        continue
                    if v is None or (v[1] == ("mem", nm) and st.cnt.get(v[1], 0) == 0):
                        self.report("leak", nm, f.line, "does not release %s" % nm.rpartition("::")[2])
        for i, c in st.cnt.items():
            if c is None or c == 0 or i[0] in ("p", "out"):
                continue
            if i[0] == "mem" and f.dtor:
                if c == -1:
                    continue
            if i[0] == "b":
                if c < 0:
                    self.report("over-release", self.idname(i, st), self.f.line, "gives away a reference it does not own "
                                "on %s" % self.idname(i, st))
                continue
            if c > 0:
                self.report("leak", self.idname(i, st), self.line_of(i), "the reference on %s is never released" %
                            self.idname(i, st))
            else:
                self.report("over-release", self.idname(i, st), self.line_of(i), "releases %s once too often" %
                            self.idname(i, st))

    def idname(self, i, st):
        f = self.f
        for q, w in st.env.items():
            if w is not None and w != NULL and w[1] == i:
                if isinstance(q, int):
                    return f.vname(q)
                if isinstance(q, tuple):
                    return q[1].rpartition("::")[2]
        if i[0] == "mem":
            return i[1].rpartition("::")[2]
        if i[0] == "b":
            k = i[1]
            return "the result of " + (core.short(k[1]) if isinstance(k, tuple) and k[0] == "c" else "a call")
        if len(i) >= 4:
            ex = f.el[i[2]][1]
            for n in f.walk(ex):
                if n[0] == "c":
                    return "the result of " + core.short(f.S[n[1]])
            return "an object"
        return "an object"

    def finish(self):
        s = self.sum
        f = self.f
        k = {r[0] for r in self.rets}
        real = k - {"null", "?"}
        if self.X.kind(f.rt) == "raw":
            if len(real) == 1:
                s.ret = real.pop()
            elif len(real) > 1:
                s.ret = "own"
                bl = sorted(r[1] for r in self.rets if r[0] == "bor")
                self.report("mixed-return", "ret", bl[0] if bl else f.line,
                            "returns an object the caller owns on some paths and one it does not on others")
            elif k == {"null"}:
                s.ret = "null"
        elif self.X.kind(f.rt) == "auto":
            s.ret = "auto"
        for idx, ks in self.pars.items():
            ks = {c for c in ks}
            if s.cond is not None and (None in ks or min(ks) < 0):
                # one conversion per concrete class, the others being refused: the reference goes to the one that fits
                s.par[idx] = -1
            elif ks == {-1}:
                s.par[idx] = -1
            elif ks == {-1, 0}:
                s.par[idx] = -1
                self.report("over-release", "arg%d" % idx, f.line, "gives away the reference on argument %d on some "
                            "paths only" % idx)
            elif None in ks:
                pass
            elif ks - {0}:
                if min(ks) < 0:
                    self.report("over-release", "arg%d" % idx, f.line, "argument %d is released %d times" % (idx, -min(ks)))
                else:
                    self.report("leak", "arg%d" % idx, f.line, "a reference on argument %d is taken and kept nowhere" % idx)
        for v, ks in self.cont.items():
            if len(ks) > 1:
                self.report("mixed-return", f.vname(v), ks["bor"], "puts in %s objects whose reference goes with it and "
                            "objects whose reference does not" % f.vname(v))
        for idx, ws in self.slots.items():
            ws = ws - {("same",)}
            if ws <= {("full",)}:
                s.slot[idx] = "full"
            elif len(ws - {("full",)}) == 1 and next(iter(ws - {("full",)}))[0] == "arg":
                s.slot[idx] = next(iter(ws - {("full",)}))[1]
            else:
                s.slot[idx] = "?"
        for v, k in self.vpar.items():
            c = self.cont.get(v)
            if c and len(c) == 1:
                s.vec[k] = next(iter(c))
        if self.vrets:
            r = set()
            for v in self.vrets:
                if isinstance(v, int):
                    c = self.cont.get(v, {})
                    r.add(next(iter(c)) if len(c) == 1 else None)
                else:
                    r.add(v)
            s.vret = r.pop() if len(r) == 1 else None
        for v, ks in self.vuse.items():
            c = {"own"} if v in self.vtaken else self.cont.get(v, {})
            for u, ln in ks.items():
                if len(c) == 1 and u not in c:
                    self.report("over-release" if u == "own" else "leak", f.vname(v), ln, "gives the elements of %s to "
                                "Python %s their reference, but they are %s" % (
                                    f.vname(v), "with" if u == "own" else "without",
                                    "lent" if u == "own" else "owned"))
        for idx, ks in self.outs.items():
            real = ks - {"null", "?"}
            if len(real) == 1:
                s.out[idx] = real.pop()
            elif len(real) > 1:
                s.out[idx] = "own"
                self.report("mixed-return", "arg%d" % idx, f.line, "argument %d receives an object the caller owns on "
                            "some paths only" % idx)
            elif ks == {"null"}:
                s.out[idx] = "null"
            else:
                s.out[idx] = "?"
        return s

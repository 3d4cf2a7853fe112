"""Definite assignment: scalar local variables before they are read, scalar members on every way out of a constructor.
First a plain may-be-unset dataflow; for what it leaves, a search over (unset set, constants of the local flags, conditions
already decided) so that a flag telling whether a variable was set is understood."""
from sa import core

SCALAR = ("int", "long", "double", "float", "bool", "char", "unsigned int", "unsigned long", "short", "unsigned char",
          "long long", "unsigned short", "signed char", "unsigned long long", "long double")
MAXSTATES = 40000


def scalar(P, t):
    t = t.strip()
    if t.startswith("const ") and not t.endswith("*"):
        t = t[6:]
    return t in SCALAR or t.endswith(("*", "*const")) or t in P.E


class Locals:
    """scalar locals of one function declared without a value"""

    def __init__(self, P, f):
        self.P, self.f = P, f
        dec = set()
        for i, (ln, e) in f.el.items():
            for x in f.walk(e):
                if x[0] == "decl":
                    for v, ini in x[1:]:
                        if ini is None and f.vkind(v) == "l" and scalar(P, f.vtype(v)):
                            dec.add(v)
        self.und = dec

    # -- events of one expression, in evaluation order: ('r'|'w'|'d', variable)
    def ev(self, e, ctx="r"):
        f, und = self.f, self.und
        if not isinstance(e, list) or not e:
            return
        t = e[0]
        if t == "r":
            return
        if t == "v":
            if e[1] in und:
                yield ctx, e[1]
            return
        if t == "decl":
            for v, ini in e[1:]:
                if ini is not None:
                    ref = f.vtype(v).rstrip().endswith("&")
                    yield from self.ev(ini, "w" if ref else "r")
                if v in und:
                    yield "d", v
            return
        if t == "b" and e[1] == "=":
            yield from self.ev(e[3])
            if e[2][0] == "v":
                if e[2][1] in und:
                    yield "w", e[2][1]
                return
            yield from self.ev(e[2])
            return
        if t == "u" and e[1] == "&":
            yield from self.ev(e[2], "w")
            return
        if t == "lam":
            for c in e[2] or ():
                for z in c if isinstance(c, list) else ():
                    if isinstance(z, list) and z and z[0] == "v" and z[1] in und:
                        yield "w", z[1]
                if c and isinstance(c[0], int) and c[0] in und:
                    yield "w", c[0]
            return
        if t in ("c", "k"):
            D = self.P.D.get(f.S[e[1]]) or self.P.F.get(f.S[e[1]])
            ps = D.params if D else None
            if t == "c" and e[3] is not None:
                yield from self.ev(e[3])
            for k, a in enumerate(e[2]):
                if ps is None or k >= len(ps):
                    yield from self.ev(a, "w")
                elif ps[k][1].rstrip().endswith("&") and not ps[k][1].startswith("const "):
                    yield from self.ev(a, "w")
                else:
                    yield from self.ev(a)
            return
        if t == "cast":
            yield from self.ev(e[4], ctx)
            return
        if t == "sz":
            return
        for k in core.kids(e):
            yield from self.ev(k)

    def block(self, b):
        f = self.f
        bl = f.bl[b]
        for i in bl[1]:
            yield from self.ev(f.el[i][1])
        if bl[2] is not None and bl[2][1] is not None:
            yield from self.ev(bl[2][1])

    def run(self):
        """{variable: line of a read that may come before any write}"""
        if not self.und:
            return {}
        f = self.f
        IN = {f.entry: frozenset(self.und)}
        todo = [f.entry]
        rep = {}
        while todo:
            b = todo.pop()
            s = set(IN[b])
            for k, v in self.block(b):
                if k == "w":
                    s.discard(v)
                elif k == "d":
                    s.add(v)
                elif v in s:
                    rep.setdefault(v, b)
            for q in f.succs(b):
                if q not in IN:
                    IN[q] = frozenset(s)
                    todo.append(q)
                elif not s <= IN[q]:
                    IN[q] = IN[q] | s
                    todo.append(q)
        if not rep:
            return {}
        # a read found on no path of one of the two searches is not one
        r = self.paths(set(rep), False)
        if r == {}:
            return r
        q = self.paths(set(rep), True)
        if r is None or q is None:
            return q if r is None else r
        return {v: l for v, l in q.items() if v in r}

    # ------------------------------------------------------------------ with flags
    def text(self, e):
        f = self.f
        e = f.e(e)
        while e is not None and e[0] == "cast":
            e = f.e(e[4])
        if e is None:
            return ""
        t = e[0]
        if t in ("i", "f", "s", "e"):
            return str(e[1:])
        if t == "v":
            return "v%d" % e[1]
        if t in ("b", "u"):
            return "(%s %s)" % (e[1], " ".join(self.text(k) for k in core.kids(e)))
        return "(%s %s)" % (t + ":" + ",".join(str(x) for x in e[1:] if isinstance(x, (int, str))),
                            " ".join(self.text(k) for k in core.kids(e)))

    def vars_of(self, e):
        return {x[1] for x in self.f.walk_full(e) if x[0] == "v"}

    def const(self, e, env):
        f = self.f
        e = f.e(e)
        if e is None:
            return None
        t = e[0]
        if t == "cast":
            return self.const(e[4], env)
        if t == "i":
            try:
                return int(e[1])
            except (TypeError, ValueError):
                return None
        if t == "e":
            for z in e[1:]:
                if isinstance(z, int):
                    pass
            return ("e", str(e[1:2]))
        if t == "null":
            return 0
        if t == "v":
            return env.get(e[1])
        if t == "u" and e[1] == "!":
            c = self.const(e[2], env)
            return None if c is None or isinstance(c, tuple) else int(not c)
        if t == "b" and e[1] in ("==", "!=", "<", ">", "<=", ">="):
            a, b = self.const(e[2], env), self.const(e[3], env)
            if a is None or b is None or isinstance(a, tuple) != isinstance(b, tuple):
                return None
            if isinstance(a, tuple) and e[1] not in ("==", "!="):
                return None
            return int({"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[e[1]])
        if t == "b" and e[1] in ("+", "-", "*"):
            a, b = self.const(e[2], env), self.const(e[3], env)
            if a is None or b is None or isinstance(a, tuple) or isinstance(b, tuple):
                return None
            return {"+": a + b, "-": a - b, "*": a * b}[e[1]]
        return None

    def paths(self, want, withfacts):
        f, P = self.f, self.P
        flags = set()
        enums = {x.rpartition("::")[2] for x in P.E}
        taken = set()
        for b, i, ln, x in f.all_nodes():
            if x[0] == "u" and x[1] == "&" and f.e(x[2])[0] == "v":
                taken.add(f.e(x[2])[1])
        for v in range(len(f.vars)):
            t = f.vtype(v).replace("const ", "")
            if f.vkind(v) in "lp" and v not in taken and (t in SCALAR[:2] + ("bool", "unsigned int", "unsigned long")
                                                           or t.rpartition("::")[2] in enums):
                flags.add(v)
        # what later conditions can tell again
        often, tested = {}, set()
        for b, bl in f.bl.items():
            if bl[2] is not None and bl[2][1] is not None:
                ce = f.e(bl[2][1])
                while ce is not None and (ce[0] == "cast" or (ce[0] == "b" and ce[1] in ("&&", "||"))):
                    ce = f.e(ce[4] if ce[0] == "cast" else ce[3])
                while ce is not None and (ce[0] == "cast" or (ce[0] == "u" and ce[1] == "!")):
                    ce = f.e(ce[4] if ce[0] == "cast" else ce[2])
                if ce is not None:
                    k = self.text(ce).replace("(!=", "(==", 1)
                    often[k] = often.get(k, 0) + 1
                    tested |= self.vars_of(ce)
        # and what is copied to those
        more = True
        while more:
            more = False
            for b, i, ln, x in f.all_nodes():
                if x[0] == "b" and x[1] == "=":
                    ps = [(f.e(x[2]), x[3])]
                elif x[0] == "decl":
                    ps = [(("v", v), ini) for v, ini in x[1:] if ini is not None]
                else:
                    continue
                for l, r in ps:
                    if l[0] == "v" and l[1] in tested and l[1] in flags:
                        q = self.vars_of(r) - tested
                        if q:
                            tested |= q
                            more = True
        flags &= tested

        def step(e, und, env, facts, rep, ln):
            """updates the sets for one element"""
            for k, v in self.ev(e):
                if k == "w":
                    und.discard(v)
                elif k == "d":
                    und.add(v)
                elif v in und and v in want:
                    rep.setdefault(v, ln)
            for x in f.walk(e):
                ch = None
                val = None
                if x[0] == "b" and x[1].endswith("=") and x[1] not in ("==", "!=", "<=", ">="):
                    l = f.e(x[2])
                    if l[0] == "v":
                        ch = l[1]
                        val = self.const(x[3], env) if x[1] == "=" else None
                elif x[0] == "u" and ("++" in x[1] or "--" in x[1]):
                    l = f.e(x[2])
                    if l[0] == "v":
                        ch = l[1]
                        o = env.get(ch)
                        if isinstance(o, int) and abs(o) < 3:
                            val = o + (1 if "++" in x[1] else -1)
                elif x[0] == "decl":
                    for v, ini in x[1:]:
                        kill(v, facts)
                        env.pop(v, None)
                        if ini is not None and v in flags:
                            c = self.const(ini, env)
                            if c is not None:
                                env[v] = c
                    continue
                elif x[0] in ("c", "k"):
                    D = P.D.get(f.S[x[1]]) or P.F.get(f.S[x[1]])
                    ps = D.params if D else None
                    for k, a in enumerate(x[2]):
                        a = f.e(a)
                        if a and a[0] == "v" and (ps is None or k >= len(ps) or (
                                ps[k][1].rstrip().endswith("&") and not ps[k][1].startswith("const "))):
                            kill(a[1], facts)
                            env.pop(a[1], None)
                    continue
                if ch is not None:
                    kill(ch, facts)
                    env.pop(ch, None)
                    if val is not None and ch in flags:
                        env[ch] = val

        def kill(v, facts):
            for k in [k for k in facts if v in facts[k][1]]:
                del facts[k]

        rep = {}
        start = (f.entry, frozenset(self.und), frozenset(), frozenset())
        seen = {start}
        todo = [start]
        while todo:
            if len(seen) > MAXSTATES:
                return None
            b, und, env, facts = todo.pop()
            und, env = set(und), dict(env)
            facts = {k: (d, vs) for k, d, vs in facts}
            bl = f.bl[b]
            for i in bl[1]:
                step(f.el[i][1], und, env, facts, rep, f.el[i][0])
            if bl[5]:
                continue
            term = bl[2]
            nx = bl[3]
            outs = []
            if term is not None and term[1] is not None:
                for k, v in self.ev(term[1]):
                    if k == "r" and v in und and v in want:
                        rep.setdefault(v, term[2])
            if term is not None and term[0] == "SwitchStmt" and term[1] is not None:
                c = self.const(term[1], env)
                if isinstance(c, int):
                    hit = [s for s in nx if s is not None and f.bl[s][4] is not None and f.bl[s][4][0] == "case"
                           and f.bl[s][4][1] is not None and int(f.bl[s][4][1]) <= c <= int(f.bl[s][4][2])]
                    if not hit:
                        hit = [s for s in nx if s is not None and (f.bl[s][4] is None or f.bl[s][4][0] == "default")]
                    outs = [(s, None) for s in hit]
                else:
                    outs = [(s, None) for s in nx if s is not None]
            elif term is not None and term[1] is not None and len(nx) == 2 and term[0] not in (
                    "CXXTryStmt", "GotoStmt", "BreakStmt", "ContinueStmt"):
                neg = False
                ce = f.e(term[1])
                # the left operand was decided by an earlier block
                while ce is not None and (ce[0] == "cast" or (ce[0] == "b" and ce[1] in ("&&", "||"))):
                    ce = f.e(ce[4] if ce[0] == "cast" else ce[3])
                c = self.const(ce, env)
                while ce is not None and (ce[0] == "cast" or (ce[0] == "u" and ce[1] == "!")):
                    if ce[0] == "u":
                        neg = not neg
                        ce = f.e(ce[2])
                    else:
                        ce = f.e(ce[4])
                if c is None and ce is not None:
                    k = self.text(ce)
                    if ce[0] == "b" and ce[1] == "!=":
                        neg, k = not neg, k.replace("(!=", "(==", 1)
                    old = facts.get(k)
                    if old is not None:
                        c = int(old[0] != neg)
                    for q, d in ((0, True), (1, False)):
                        if nx[q] is not None and (c is None or bool(c) == d):
                            outs.append((nx[q], (k, d != neg, frozenset(self.vars_of(ce)), ce, d != neg)))
                else:
                    for q, d in ((0, True), (1, False)):
                        if nx[q] is not None and (c is None or bool(c) == d):
                            outs.append((nx[q], None))
            else:
                outs = [(s, None) for s in nx if s is not None]
            for s, fact in outs:
                fa = dict(facts)
                en = dict(env)
                if fact is not None:
                    k, d, vs, ce, _ = fact
                    if vs and withfacts and len(fa) < 12 and often.get(k, 0) > 1:
                        fa[k] = (d, vs)
                    # v == constant, or the flag itself
                    if ce[0] == "v" and ce[1] in flags:
                        if not d:
                            en[ce[1]] = 0
                    elif ce[0] == "b" and ce[1] in ("==", "!=") and d:
                        l, r = f.e(ce[2]), self.const(ce[3], env)
                        while l[0] == "cast":
                            l = f.e(l[4])
                        if l[0] == "v" and l[1] in flags and r is not None:
                            en[l[1]] = r
                st = (s, frozenset(und), frozenset(en.items()), frozenset((k, d, vs) for k, (d, vs) in fa.items()))
                if st not in seen:
                    seen.add(st)
                    todo.append(st)
        return rep


class Members:
    """scalar members set on every way out of a method called on the object"""

    def __init__(self, P):
        self.P = P
        self.memo = {}

    def field(self, f, e):
        e = f.e(e)
        while e is not None and e[0] == "cast":
            e = f.e(e[4])
        if e is not None and e[0] == "x":
            e = f.e(e[1])
            while e is not None and e[0] == "cast":
                e = f.e(e[4])
        if e is not None and e[0] == "m":
            o = f.e(e[1])
            while o is not None and o[0] == "cast":
                o = f.e(o[4])
            if o is not None and o[0] == "this":
                return f.S[e[2]]
        return None

    def sets(self, f, e):
        """fields set by one element"""
        P = self.P
        for x in f.walk(e):
            t = x[0]
            if t == "finit":
                yield f.S[x[1]]
            elif t == "binit":
                if f.cls is not None and core.short(f.S[x[1]].split("(")[0]).split("::")[-1] == core.short(f.cls).split(
                        "::")[-1].split("<")[0] and x[2] is not None and x[2][0] in ("k", "r"):
                    k = f.e(x[2])
                    if k[0] == "k" and k[1] is not None and f.S[k[1]].startswith(f.cls + "::"):
                        yield "*"
            elif t == "b" and x[1] == "=":
                m = self.field(f, x[2])
                if m:
                    yield m
                l = f.e(x[2])
                if l[0] == "u" and l[1] == "*" and f.e(l[2])[0] == "this":
                    yield "*"
            elif t == "u" and x[1] == "&":
                m = self.field(f, x[2])
                if m:
                    yield m
            elif t == "decl":
                for v, ini in x[1:]:
                    if ini is not None and f.vtype(v).rstrip().endswith(("&", "*")):
                        m = self.field(f, ini)
                        if m:
                            yield m
            elif t in ("c", "k"):
                D = P.D.get(f.S[x[1]]) or P.F.get(f.S[x[1]])
                ps = D.params if D else None
                for k, a in enumerate(x[2]):
                    m = self.field(f, a)
                    if m and (ps is None or k >= len(ps) or (ps[k][1].rstrip().endswith(("&", "*"))
                                                             and not ps[k][1].startswith("const "))):
                        yield m
                if t == "c":
                    o = f.e(x[3]) if x[3] is not None else None
                    while o is not None and o[0] == "cast":
                        o = f.e(o[4])
                    if o is not None and o[0] == "this":
                        g = P.F.get(f.S[x[1]])
                        if g is not None:
                            if g.nm == "operator=":
                                yield "*"
                            yield from self.must(g)

    def must(self, f):
        n = f.name
        if n in self.memo:
            return self.memo[n]
        self.memo[n] = frozenset()
        ALL = None
        IN = {f.entry: frozenset()}
        todo = [f.entry]
        out = None
        gen = {}
        while todo:
            b = todo.pop()
            if b not in gen:
                g = set()
                for i in f.bl[b][1]:
                    g.update(self.sets(f, f.el[i][1]))
                t = f.bl[b][2]
                if t is not None and t[1] is not None:
                    g.update(self.sets(f, t[1]))
                th = any(x[0] == "thr" for i in f.bl[b][1] for x in f.walk(f.el[i][1]))
                gen[b] = (g, th or f.bl[b][5])
            g, th = gen[b]
            s = IN[b] | g
            if b == f.exit:
                out = s
            if th:
                continue
            for q in f.succs(b):
                if q not in IN:
                    IN[q] = frozenset(s)
                    todo.append(q)
                elif not IN[q] <= s:
                    IN[q] = IN[q] & s
                    todo.append(q)
        out = frozenset() if out is None else frozenset(IN.get(f.exit, ()))
        if f.exit not in IN:
            out = frozenset(["*"])      # never returns
        self.memo[n] = out
        return out

    def may(self, f, seen=None):
        """fields touched anywhere (arrays: filled in loops)"""
        seen = seen if seen is not None else set()
        if f.name in seen:
            return set()
        seen.add(f.name)
        r = set()
        for i, (ln, e) in f.el.items():
            r.update(self.sets(f, e))
            for x in f.walk(e):
                if x[0] == "c" and x[3] is not None:
                    o = f.e(x[3])
                    while o is not None and o[0] == "cast":
                        o = f.e(o[4])
                    if o is not None and o[0] == "this" and f.S[x[1]] in self.P.F:
                        r |= self.may(self.P.F[f.S[x[1]]], seen)
        return r

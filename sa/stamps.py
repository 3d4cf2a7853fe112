"""Which methods change an object's data without its modification stamp moving: per path, the writes and the stamps, with
callees on the same object and on its sub-objects included.

A state is a frozenset of tokens: ("w", m) member m written, ("c", m) content of the sub-object m written, ("S",) stamped,
("C", m) sub-object m stamped, ("u", m) member m proved unchanged by the branch taken."""
from sa import core
from sa.core import auto_of, strip, short
from sa.copyflow import peel
from sa.facts import reaching, defs_of

READERS = ("begin", "end", "operator->", "operator*", "operator[]", "rbegin", "rend", "at", "front", "back", "find",
           "data", "cbegin", "cend", "takeRefOf", "size", "empty", "isNull", "isNotNull", "capacity", "iAmATrollConstCast")
STAMP = "declareAsNew"


class Stamps:
    def __init__(self, P, E, timelabel="MEDCoupling::TimeLabel", ignore=lambda m: False):
        self.P, self.E, self.TL = P, E, timelabel
        self.ignore = ignore
        self.owner = "MEDCoupling::MEDCouplingField"
        self.memo = {}

    def child(self, field):
        """class of the stamped sub-object a member refers to, or None"""
        c, _, m = field.rpartition("::")
        if c not in self.P.R:
            return None
        for x in self.P.R[c].fields:
            if x[0] == m or x[0] == field:
                t = x[1]
                t = auto_of(t) or t.rstrip("* &").replace("const ", "")
                t = strip(t)
                return t if t in self.P.R and self.P.is_a(t, self.TL) else None
        return None

    def member(self, f, e):
        """("w"|"c", member) an lvalue or object expression designates, or None"""
        x = f.e(e)
        while x is not None and x[0] == "cast":
            x = f.e(x[4])
        if x[0] == "v" and f.vkind(x[1]) == "l" and not f.vtype(x[1]).rstrip().endswith(("&", "*")) and \
                auto_of(strip(f.vtype(x[1]))) is None:
            return None
        t0 = self.E.term(f, e)
        t = peel(t0)
        if t[0] == "f" and t[1] == ("this",) and not self.ignore(t[2]):
            self.part = t0 != t and self.child(t[2]) is not None
            return t[2]
        return None

    def wr(self, m):
        """token of a write through the lvalue last given to member()"""
        return ("c", m) if self.part else ("w", m)

    def out_args(self, nm, n):
        """arguments a standard algorithm writes through"""
        k = len(n[2])
        if nm in ("copy", "copy_if", "copy_backward", "move", "copy_n", "partial_sum", "adjacent_difference",
                  "replace_copy", "unique_copy", "reverse_copy", "rotate_copy", "remove_copy"):
            return [2] if nm != "rotate_copy" else [3]
        if nm in ("transform",):
            return [k - 2]
        if nm in ("set_difference", "set_intersection", "set_union", "merge"):
            return [4]
        if nm in ("fill", "fill_n", "reverse", "sort", "iota", "rotate", "generate", "replace", "replace_if", "memcpy",
                  "memmove", "memset", "for_each", "stable_sort", "unique", "remove"):
            return [0]
        if nm in ("swap", "iter_swap"):
            return [0, 1]
        return []

    def fresh(self, f, e, depth=0):
        """the value assigned is a newly made object"""
        e = f.e(e)
        if e is None or depth > 12:
            return False
        t = e[0]
        if t == "cast":
            return self.fresh(f, e[4], depth + 1)
        if t == "new":
            return True
        if t == "?:":
            return self.fresh(f, e[2], depth + 1) and self.fresh(f, e[3], depth + 1)
        if t == "u" and e[1] in ("*", "&"):
            return self.fresh(f, e[2], depth + 1)
        if t == "v":
            d = reaching(f).get(id(e))
            ex = list(d.values()) if d else [x[1] for x in defs_of(f).get(e[1], []) if x[0] in ("init", "asg")]
            return bool(ex) and all(self.fresh(f, x, depth + 1) for x in ex)
        if t == "k":
            if len(e[2]) == 1 and auto_of(strip(f.S[e[3]])) is not None:
                return self.fresh(f, e[2][0], depth + 1)
            return False
        if t == "c":
            d = self.P.D.get(f.S[e[1]])
            if d is None:
                return False
            if d.cls is not None and auto_of(d.cls) is not None and e[3] is not None:
                return self.fresh(f, e[3], depth + 1)
            return d.nm.startswith(("New", "build", "deepCopy", "keepSelected", "selectBy", "Aggregate", "compute"))
        return False

    def effect(self, f, n, states, stack):
        P, E = self.P, self.E
        tok = None
        t = n[0]
        if t == "b" and n[1].endswith("=") and n[1] not in ("==", "!=", "<=", ">="):
            m = self.member(f, n[2])
            if m is not None:
                tok = {self.wr(m)}
                if n[1] == "=" and self.child(m) and tok == {("w", m)} and self.fresh(f, n[3]):
                    tok = {("S",)}
        elif t == "u" and n[1] in ("++", "--", "p++", "p--"):
            m = self.member(f, n[2])
            if m is not None:
                tok = {self.wr(m)}
        elif t == "c" and n[3] is None:
            d = P.D.get(f.S[n[1]])
            if d is not None and d.cls is None and (d.name.startswith("std::") or d.nm in ("memcpy", "memset", "memmove")):
                for k in self.out_args(d.nm, n):
                    if 0 <= k < len(n[2]):
                        m = self.member(f, n[2][k])
                        if m is not None:
                            tok = (tok or set()) | {("c", m) if self.child(m) else ("w", m)}
        elif t == "c" and n[3] is not None:
            d = P.D.get(f.S[n[1]])
            if d is None or d.static:
                return states
            if d.nm == STAMP:
                x = E.term(f, n[3])
                if x == ("this",):
                    tok = {("S",)}
                elif x[0] == "p":
                    tok = {("P", x[1])}
                else:
                    m = self.member(f, n[3])
                    if m is not None:
                        tok = {("C", m)}
                return states if tok is None else {s | tok for s in states}
            if d.const:
                return states
            cls = d.cls or ""
            if cls.startswith("std::") or auto_of(cls) or cls.startswith(("MEDCoupling::MemArray<",
                                                                         "MEDCoupling::MEDCouplingPointer")):
                if d.nm in READERS:
                    return states
                m = self.member(f, n[3])
                if m is None:
                    return states
                tok = {("w", m)}
                if auto_of(cls):
                    if d.nm not in ("operator=", "takeRef", "nullify"):
                        return states
                    if n[2] and self.child(m) and self.fresh(f, n[2][0]):
                        tok = {("S",)}
                return {s | tok for s in states}
            if cls not in P.R:
                return states
            virt = d.virt and not n[4]
            tg = [x for x in (P.targets(f, n) if virt else [d.name]) if x in P.F]
            x = E.term(f, n[3])
            if x == ("this",):
                if virt:
                    tg = [y for y in tg if f.cls is None or P.is_a(P.F[y].cls, f.cls) or P.is_a(f.cls, P.F[y].cls)]
                if not tg:
                    return states
                out = set()
                for y in tg[:10]:
                    for s2 in self.callee(f, n, y, stack):
                        if ("O",) in s2:
                            s2 = frozenset([("S",)])
                        for s in states:
                            out.add(s | s2)
                return self.squeeze(out)
            m = self.member(f, n[3])
            if m is None:
                return states
            if not P.is_a(cls, self.TL):
                # a plain sub-object: writing it is writing the member
                w = False
                for y in tg[:10]:
                    w = w or any(self.open_(s) for s in self.summary(y, stack))
                return {s | {("w", m)} for s in states} if w else states
            outs = set()
            for y in tg[:10]:
                for s2 in self.callee(f, n, y, stack):
                    if ("O",) in s2:
                        outs.add(("S",))
                    elif self.open_(s2):
                        outs.add(("c", m))
                    elif ("S",) in s2:
                        outs.add(("C", m))
                    else:
                        outs.add(None)
            if not outs:
                return states
            return self.squeeze({s | ({o} if o else set()) for s in states for o in outs})
        return states if tok is None else {s | tok for s in states}

    def callee(self, f, n, y, stack):
        """states of callee y seen from the caller's object: parameter stamps mapped to its arguments"""
        r = set()
        for s in self.summary(y, stack):
            o, dead = set(), False
            for x in s:
                if x[0] in ("P", "N"):
                    t = self.E.term(f, n[2][x[1]]) if x[1] < len(n[2]) else ("?",)
                    if t == ("this",):
                        if x[0] == "N":
                            dead = True
                        else:
                            o.add(("O",))
                    elif t[0] == "p":
                        o.add((x[0], t[1]))
                    elif t == ("c", "null") or t == ("c", 0):
                        if x[0] == "P":
                            dead = True
                        else:
                            o.add(("0",))
                elif x[0] != "q":
                    o.add(x)
            if ("0",) in o and f.cls and not self.P.is_a(f.cls, self.owner):
                # no owner to stamp: the caller's own caller stamps
                o = {x for x in o if x[0] not in ("w", "c")}
            if not dead:
                r.add(frozenset(o))
        return r

    @staticmethod
    def open_(s):
        """writes of a state that no stamp covers"""
        if ("S",) in s or any(x[0] == "C" for x in s):
            return []         # a stamped part moves the aggregated stamp
        r = []
        for x in s:
            if x[0] == "w" and ("u", x[1]) not in s:
                r.append(x)
            elif x[0] == "c":
                r.append(x)
        return r

    @staticmethod
    def squeeze(states, cap=48):
        # a covered state adds nothing another covered state does not
        S = {s for s in states if ("S",) in s}
        r = {s for s in states if ("S",) not in s}
        if S:
            r.add(frozenset([("S",)]))
        if len(r) > cap:
            o = [s for s in r if Stamps.open_(s)]
            c = [s for s in r if not Stamps.open_(s)]
            r = set(o[:cap]) | set(c[:cap])
        return r

    def summary(self, name, stack=()):
        if name in self.memo:
            return self.memo[name]
        f = self.P.F.get(name)
        if f is None or name in stack or len(stack) > 10 or "nocfg" in f.o:
            return frozenset([frozenset()])
        r = frozenset(s for s, ln in self.flow(f, stack + (name,)))
        if not r:
            r = frozenset()
        if len(stack) == 0 or True:
            self.memo[name] = r
        return r

    def edge(self, f, c, val):
        """members proved unchanged on an edge, parameters proved null"""
        r = set()
        if f.e(c) is None:
            return r
        T, F = self.E.implied(f, c, True), self.E.implied(f, c, False)
        x = f.e(c)
        flag = None
        while x[0] == "cast":
            x = f.e(x[4])
        if x[0] == "v" and f.vkind(x[1]) == "l":
            # a flag set once from a comparison
            ds = [d for d in defs_of(f).get(x[1], [])]
            if len(ds) == 1 and ds[0][0] == "init":
                T, F = self.E.implied(f, ds[0][1], True), self.E.implied(f, ds[0][1], False)
                flag = x[1]
        for q in (T if val else F) or ():
            if q[0] == "NULL" and q[1][0] == "p":
                r.add(("N", q[1][1]))
            if q[0] == "EQ":
                for y in (q[1], q[2]):
                    y = peel(y)
                    if y[0] == "f" and y[1] == ("this",):
                        r.add(("u", y[2], flag))
        return r

    def compared(self, states, u):
        """the states of an edge: a comparison proves a member unchanged only when made before the member is written"""
        out = set()
        for s in states:
            add = set()
            for x in u:
                if x[0] != "u":
                    add.add(x)
                elif x[2] is None:
                    if ("w", x[1]) not in s:
                        add.add(("u", x[1]))
                elif ("q", x[2], x[1]) not in s:
                    add.add(("u", x[1]))
            out.add(s | add)
        return out

    def flags(self, f, n, states):
        """a flag computed after a member was written says nothing about the write"""
        for v, ini in n[1:]:
            if ini is not None and f.vtype(v) == "bool":
                states = {s | {("q", v, x[1]) for x in s if x[0] == "w"} for s in states}
        return states

    def flow(self, f, stack=()):
        """[(state, line of the exit)] over the normal exits"""
        IN = {f.entry: {frozenset()}}
        exits = {}
        for _ in range(30):
            ch = False
            for b in f.rpo:
                if b not in IN:
                    continue
                st = set(IN[b])
                threw = False
                last = None
                for i in f.bl[b][1]:
                    ln, ex = f.el[i]
                    last = ln
                    if ex[0] == "r":
                        continue
                    for n in f.walk(ex):
                        if n[0] == "thr":
                            threw = True
                        if n[0] == "decl":
                            st = self.flags(f, n, st)
                        st = self.effect(f, n, st, stack)
                if threw or f.bl[b][5]:
                    continue
                st = self.squeeze(st)
                if not st:
                    continue
                c = f.bl[b][2]
                for k, s in enumerate(f.bl[b][3]):
                    if s is None or (c is None and k >= 1):
                        continue
                    so = st
                    if c is not None and c[1] is not None and len(f.bl[b][3]) == 2 and \
                            c[0] not in ("SwitchStmt", "CXXTryStmt"):
                        u = self.edge(f, c[1], k == 0)
                        if u:
                            so = self.compared(st, u)
                    if s == f.exit:
                        for x in so:
                            if x not in exits:
                                exits[x] = last
                                ch = True
                        continue
                    if s not in IN:
                        IN[s] = set(so)
                        ch = True
                    elif not so <= IN[s]:
                        IN[s] |= so
                        IN[s] = self.squeeze(IN[s])
                        ch = True
            if not ch:
                break
        return list(exits.items())

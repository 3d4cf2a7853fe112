"""P05: the memory accounting of an object reaches every sub-object it holds."""
import re
from sa import core, facts, slots
from sa.core import short, AnalysisBroken
from sa.checks.p01 import norm
from sa.checks.p03 import find

PARTS = ["interp", "medcoupling"]
EXPLAIN = ("For every class with a list of direct sub-objects (getDirectChildrenWithNull), an effect analysis of the "
           "listing method, base-class listings and helpers included, decides that each data member holding reference-"
           "counted objects is put in the list.  One obligation per (class, member).")
ASSUME = ["a loop over the elements of a member lists each of them"]
BIG = "MEDCoupling::BigMemoryObject"
LIST = "getDirectChildrenWithNull"
PUT = ("push_back", "emplace_back", "insert", "assign", "operator=", "resize", "begin", "end", "back_inserter", "copy")
# members that refer to an object without holding it
REFERS = {
    "MEDCoupling::MEDCouplingCartesianAMRMeshSub::_father": "back reference to the containing mesh",
    "MEDCoupling::MEDCouplingAMRAttribute::_neighbors": "references to patches of the containing mesh",
    "MEDCoupling::MEDCouplingAMRAttribute::_mixed_lev_neighbors": "references to patches of the containing mesh",
    "MEDCoupling::MEDCouplingAMRAttribute::_cross_lev_neighbors": "references to patches of the containing mesh",
}


def isa(P, c, b, memo):
    if c == b:
        return True
    if c in memo:
        return memo[c]
    memo[c] = False
    r = memo[c] = c in P.R and any(isa(P, x, b, memo) for x in P.R[c].bases)
    return r


class Listing:
    """members a listing method puts in its result on every normal path, paths where they are absent set aside"""

    def __init__(self, P, E, cls):
        self.P, self.E, self.cls, self.memo = P, E, cls, {}
        self.S = slots.Slots(P, E, cls)

    def of(self, f, stack=()):
        if f.name in self.memo:
            return self.memo[f.name]
        if f.name in stack or len(stack) > 6:
            return frozenset()
        stack = stack + (f.name,)
        gen = {b: self.block(f, b, stack) for b in f.rpo}
        IN, out = {f.entry: frozenset()}, None
        for _ in range(30):
            ch, out = False, None
            for b in f.rpo:
                if b not in IN or f.bl[b][5] or self.E.throws(f, b):
                    continue
                st = IN[b] | gen[b]
                c = f.bl[b][2]
                for k, s in enumerate(f.bl[b][3]):
                    if s is None or (c is None and k >= 1):
                        continue
                    so = st
                    if c is not None and c[1] is not None and len(f.bl[b][3]) == 2:
                        so = so | self.absent(f, c[1], k == 0)
                        for body in self.E.leaving(f, b, s):
                            for x in body:
                                so = so | gen.get(x, frozenset())
                    if s == f.exit:
                        out = so if out is None else out & so
                    elif s not in IN:
                        IN[s] = so
                        ch = True
                    elif not IN[s] <= so:
                        IN[s] = IN[s] & so
                        ch = True
            if not ch:
                break
        r = out if out is not None else frozenset()
        self.memo[f.name] = r
        return r

    def absent(self, f, c, val):
        r = set()
        for q in self.E.implied(f, c, val) or ():
            t = None
            if q[0] in ("NULL", "EMPTY"):
                t = q[1]
            elif q[0] == "T" and q[1][0] == "call" and q[1][1] == "isNull":
                t = q[1][2]
            if t is not None:
                r |= {p[0] for p in self.S.tmember(f, t)}
        return r

    def block(self, f, b, stack):
        P, E, S = self.P, self.E, self.S
        r = set()

        def take(e):
            for p in S.tmember(f, E.term(f, e)):
                r.add(p[0])
        nodes = []
        for i in f.bl[b][1]:
            if f.el[i][1][0] != "r":
                nodes.extend(f.walk(f.el[i][1]))
        for n in nodes:
            if n[0] == "ret" and n[1] is not None:
                take(n[1])
                x = f.e(n[1])
                if x is not None and x[0] == "il":
                    for a in x[1]:
                        take(a)
            if n[0] == "il":
                for a in n[1]:
                    take(a)
            if n[0] == "b" and n[1] == "=":
                take(n[3])
            if n[0] != "c":
                continue
            d = P.D.get(f.S[n[1]])
            if d is None:
                continue
            if n[3] is not None and E.term(f, n[3]) == ("this",) or \
                    d.static and d.cls and short(d.cls) == short(f.cls or ""):
                for t in S.targets(f, n):
                    g = P.F.get(t)
                    if g is not None and ("BigMemoryObject" in d.rt or any("BigMemoryObject" in q[1] for q in d.params)):
                        r |= self.of(g, stack)
            if n[3] is not None and (d.nm == LIST or d.rt.startswith("std::vector<") and "BigMemoryObject" in d.rt):
                take(n[3])
            if "BigMemoryObject" in d.name or d.cls is None or d.nm in PUT:
                for a in n[2]:
                    take(a)
        return frozenset(r)


def run(P, R, tier):
    E = facts.Engine(P)
    E.track_done = False
    memo = {}
    big = {c for c in P.R if isa(P, c, BIG, memo)}
    heads = {c.split("<")[0] for c in big}
    ncls = 0
    for c in sorted(big):
        if P.R[c].abs or not c.startswith("MEDCoupling::"):
            continue
        f = find(P, c, LIST)
        if f is None:
            continue
        got = None
        ncls += 1
        for fld, ty, mut, _, _ in P.fields_of(c):
            held = [x for x in re.findall(r"MEDCoupling::[A-Za-z0-9_]+", ty) if x in heads]
            if not held or not ("*" in ty or "MCAuto<" in ty):
                continue
            nf = norm(fld)
            if nf in REFERS:
                R.skip(nf, REFERS[nf])
                continue
            if got is None:
                got = Listing(P, E, c).of(f)
            R.ob("child-listed", "%s:%s" % (short(c), short(fld)), fld in got, f.loc(),
                 "%s does not list %s" % (f.short, short(fld)))
    R.count("classes", ncls)
    R.floor("child-listed", 40)

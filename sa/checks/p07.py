"""P07: the set of geometric types an unstructured mesh announces follows its connectivity."""
from sa import core, facts
from sa.core import short, AnalysisBroken

PARTS = ["interp", "medcoupling"]
U = "MEDCoupling::MEDCouplingUMesh"
CONN, TYPES = U + "::_nodal_connec", U + "::_types"
EXPLAIN = ("Per-path effect analysis of every function that replaces the connectivity array of an unstructured mesh "
           "(assignment of the member, setConnectivity without type computation, storing a geometric type in the array in "
           "place): on every path to a normal return the set of types of that very mesh is recomputed or set too.  One "
           "obligation per (function, mesh object).")
ASSUME = ["a set of types put by hand is the right one", "cells are inserted with insertNextCell"]


KEEP = {
    "MEDCouplingUMesh::convertExtrudedPolyhedra": "polyhedra stay polyhedra, the other cells are copied",
    "MEDCouplingUMesh::simplifyPolyhedra": "polyhedra stay polyhedra, the other cells are copied",
}
# a path without refresh is right when nothing changed: some path must refresh
SOME = {
    "MEDCouplingUMesh::unPolyze": "refreshes when a cell changed type",
    "MEDCouplingUMesh::buildSetInstanceFromThis": "no types without connectivity",
}


class Flow:
    def __init__(self, P, E):
        self.P, self.E, self.memo = P, E, {}

    def obj(self, f, e):
        t = self.E.term(f, e)
        while t[0] in ("cast", "itr", "*"):
            t = t[1]
        # a local keeps its identity: two locals made by the same expression are two meshes
        x = f.e(e)
        while x is not None and x[0] in ("cast", "k") and (x[0] == "cast" or len(x[2]) == 1):
            x = f.e(x[4] if x[0] == "cast" else x[2][0])
        if x is not None and x[0] == "c" and x[3] is not None and not x[2] and f.S[x[1]] in self.P.D and \
                self.P.D[f.S[x[1]]].nm.startswith("operator"):
            return self.obj(f, x[3])
        if x is not None and x[0] == "v" and f.vkind(x[1]) == "l":
            ds = facts.defs_of(f).get(x[1], [])
            if len(ds) == 1 and ds[0][0] in ("init", "asg") and ds[0][1] is not None:
                o = self.obj(f, ds[0][1])      # another name of the same mesh
                if o == ("this",) or o[0] in ("l", "p"):
                    return o
            return ("l", x[1], f.vname(x[1]))
        return t

    def mem(self, f, e):
        """(object, member) when the expression designates the connectivity or the types of a mesh"""
        x = f.e(e)
        while x is not None and x[0] == "cast":
            x = f.e(x[4])
        if x is not None and x[0] == "m" and f.S[x[2]] in (CONN, TYPES):
            return self.obj(f, x[1]), f.S[x[2]]
        return None

    def raw(self, f, e, depth=0):
        """mesh whose connectivity array the pointer expression points into"""
        x = f.e(e)
        while x is not None and x[0] == "cast":
            x = f.e(x[4])
        if x is None or depth > 6:
            return None
        if x[0] == "c" and x[3] is not None and f.S[x[1]] in self.P.D and \
                self.P.D[f.S[x[1]]].nm in ("getPointer", "rwBegin", "getPointerSilent"):
            m = self.mem(f, x[3])
            if m is None:
                y = f.e(x[3])
                while y is not None and y[0] == "cast":
                    y = f.e(y[4])
                if y is not None and y[0] == "c" and y[3] is not None and f.S[y[1]] in self.P.D and \
                        self.P.D[f.S[y[1]]].nm == "getNodalConnectivity":
                    return self.obj(f, y[3])
            return m[0] if m is not None and m[1] == CONN else None
        if x[0] == "v" and f.vkind(x[1]) == "l":
            for d in facts.defs_of(f).get(x[1], []):
                if d[0] in ("init", "asg") and d[1] is not None:
                    r = self.raw(f, d[1], depth + 1)
                    if r is not None:
                        return r
            return None
        if x[0] in ("x", "b") and (x[0] == "x" or x[1] in ("+", "-")):
            return self.raw(f, x[1] if x[0] == "x" else x[2], depth + 1)
        if x[0] == "u":
            return self.raw(f, x[2], depth + 1)
        return None

    def istype(self, f, e):
        t = f.e(e)
        while t is not None and t[0] in ("cast", "c"):
            if t[0] == "cast" and "NormalizedCellType" in str(f.S[t[3]] if isinstance(t[3], int) and t[3] < len(f.S) else ""):
                return True
            if t[0] == "c":
                return f.S[t[1]] in self.P.D and "NormalizedCellType" in self.P.D[f.S[t[1]]].rt
            t = f.e(t[4])
        if t is None:
            return False
        if t[0] == "v":
            return "NormalizedCellType" in f.vtype(t[1])
        tt = self.E.term(f, e)
        return "NORM_" in str(tt[:3]) and tt[0] == "e"

    def node(self, f, n, stack):
        """[(object, 'W' or 'T')]"""
        P = self.P
        r = []
        lr = None
        if n[0] == "b" and n[1] == "=":
            lr = (n[2], n[3])
        elif n[0] == "c" and f.S[n[1]] in P.D and P.D[f.S[n[1]]].nm == "operator=":
            a = ([n[3]] if n[3] is not None else []) + list(n[2])
            if len(a) == 2:
                lr = a
        if lr is not None:
            m = self.mem(f, lr[0])
            if m is not None:
                if m[1] == TYPES:
                    r.append((m[0], "T"))
                elif self.E.term(f, lr[1]) != ("c", "null"):
                    r.append((m[0], "W"))
            elif n[0] == "b" and self.istype(f, lr[1]):
                x = f.e(lr[0])
                if x is not None and x[0] in ("x", "u"):
                    o = self.raw(f, lr[0])
                    if o is not None:
                        r.append((o, "W"))
            return r
        if n[0] != "c" or f.S[n[1]] not in P.D:
            return r
        d = P.D[f.S[n[1]]]
        for k, a in enumerate(n[2]):
            q = d.params[k][1] if k < len(d.params) else ""
            if q.endswith(("&", "*")) and not q.startswith("const "):
                x = f.e(a)
                while x is not None and (x[0] == "cast" or x[0] == "u" and x[1] == "&"):
                    x = f.e(x[4] if x[0] == "cast" else x[2])
                m = self.mem(f, x) if x is not None else None
                if m is not None and m[1] == TYPES:
                    r.append((m[0], "T"))
        if d.cls and short(d.cls).startswith("DataArray") and d.static:
            for a, q in zip(n[2], d.params):
                if q[1].endswith("*") and not q[1].startswith("const "):
                    m = self.mem(f, a)
                    if m is None:
                        x = f.e(a)
                        while x is not None and x[0] in ("cast", "k") and (x[0] == "cast" or len(x[2]) == 1):
                            x = f.e(x[4] if x[0] == "cast" else x[2][0])
                        if x is not None and x[0] == "c" and x[3] is not None and not x[2]:
                            m = self.mem(f, x[3])
                    if m is not None and m[1] == CONN:
                        r.append((m[0], "W"))
        if n[3] is not None:
            m = self.mem(f, n[3])
            if m is not None and m[1] == CONN and not d.const and any(self.istype(f, a) for a in n[2]):
                r.append((m[0], "W"))
            if m is not None and m[1] == TYPES and not d.const:
                r.append((m[0], "T"))
            if d.cls == U and not d.static:
                o = self.obj(f, n[3])
                if d.nm == "computeTypes":
                    r.append((o, "T"))
                elif d.nm == "setConnectivity" and len(n[2]) >= 2:
                    k = self.E.term(f, n[2][2]) if len(n[2]) > 2 else ("c", 1)
                    r.append((o, "W"))
                    if k != ("c", 0):
                        r.append((o, "T"))
                elif d.name in P.F and d.nm not in ("New",):
                    s = self.exits(d.name, stack)
                    if s is not None:
                        xs = {x.get(("this",), "") for x in map(dict, s)}
                        if xs == {"W"}:
                            r.append((o, "W"))
                        elif xs and all("T" in x for x in xs):
                            r.append((o, "T"))
        return r

    def exits(self, name, stack=()):
        if name in self.memo:
            return self.memo[name]
        f = self.P.F.get(name)
        if f is None or name in stack or len(stack) > 5 or "nocfg" in f.o:
            return None
        if not self.touches(f):
            self.memo[name] = frozenset()
            return frozenset()
        r = self.memo[name] = frozenset(x for x, ln in self.run(f, stack + (name,)))
        return r

    def touches(self, f):
        for b, i, ln, n in f.all_nodes():
            if n[0] == "m" and f.S[n[2]] in (CONN, TYPES):
                return True
            if n[0] == "c" and f.S[n[1]] in self.P.D:
                d = self.P.D[f.S[n[1]]]
                if d.cls == U and d.nm in ("computeTypes", "setConnectivity"):
                    return True
        return False

    def run(self, f, stack=()):
        IN = {f.entry: {frozenset()}}
        ex = {}
        eff = {}
        for b in f.rpo:
            l = []
            for i in f.bl[b][1]:
                ln, x = f.el[i]
                if x[0] == "r":
                    continue
                for n in f.walk(x):
                    for o, k in self.node(f, n, stack):
                        l.append((o, k))
            eff[b] = l
        for _ in range(30):
            ch = False
            for b in f.rpo:
                if b not in IN or f.bl[b][5] or self.E.throws(f, b):
                    continue
                out = set()
                for s in IN[b]:
                    m = dict(s)
                    for o, k in eff[b]:
                        old = m.get(o, "")
                        # 'T' before 'W' counts: the set may be prepared first
                        m[o] = "".join(sorted(set(old + k)))
                    out.add(frozenset(m.items()))
                c = f.bl[b][2]
                for k, s in enumerate(f.bl[b][3]):
                    if s is None or (c is None and k >= 1):
                        continue
                    if s == f.exit:
                        ln = max([f.el[i][0] or 0 for i in f.bl[b][1]] or [0])
                        for x in out:
                            ex[x] = ln
                    else:
                        z = IN.setdefault(s, set())
                        if not out <= z and len(z) < 64:
                            z |= out
                            ch = True
            if not ch:
                break
        return list(ex.items())


def run(P, R, tier):
    E = facts.Engine(P)
    E.track_done = False
    if U not in P.R or not any(x[0] == TYPES for x in P.fields_of(U)):
        raise AnalysisBroken("the set of types of unstructured meshes is not found")
    F = Flow(P, E)
    nf = 0
    for name, f in sorted(P.F.items()):
        if "nocfg" in f.o or f.ctor or not (f.cls or "").startswith("MEDCoupling::") or \
                f.cls == U and f.nm == "setConnectivity":
            continue
        if not F.touches(f):
            continue
        nf += 1
        objs, some = {}, {}
        for s, ln in F.run(f, (name,)):
            for o, k in s:
                if "W" in k:
                    some[o] = some.get(o, False) or "T" in k
                    ok, l0 = objs.get(o, (True, None))
                    objs[o] = (ok and "T" in k, ln if "T" not in k else l0)
        for o, (ok, ln) in sorted(objs.items(), key=repr):
            if f.short in KEEP:
                R.skip(f.short, KEEP[f.short])
                continue
            if f.short in SOME:
                ok = some[o]
            w = "this" if o == ("this",) else o[2] if o[0] == "l" else "mesh"
            R.ob("types-follow", "%s(%d):%s" % (f.short, len(f.params), w), ok, f.loc(ln),
                 "%s replaces the connectivity of %s and returns without refreshing its set of geometric types" % (f.short, w))
    R.count("functions touching connectivity", nf)
    R.floor("types-follow", 25)

"""P04: changing the data of an object moves its modification stamp, and a composite's stamp covers its parts."""
from sa import core
from sa.core import short, auto_of, strip
from sa.facts import Engine
from sa.stamps import Stamps, peel

PARTS = ["interp", "medcoupling"]
EXPLAIN = ("For every public modifying method of arrays, meshes, fields and matrices, per-path effect dataflow with callee "
           "summaries: a path which writes a data member (or the content of a sub-object through an accessor that does "
           "not stamp) must stamp the object, stamp the sub-object, attach a newly made one, or have proved the value "
           "unchanged.  And each class's stamp update covers every stamped sub-object it refers to.")
ASSUME = ["a newly made sub-object has a newer stamp (its constructor draws it from the global counter)",
          "pointers handed out by an accessor that stamps are written right afterwards"]

ROOTS = ("MEDCoupling::DataArray", "MEDCoupling::MEDCouplingMesh", "MEDCoupling::MEDCouplingField",
         "MEDCoupling::DenseMatrix", "MEDCoupling::MEDCouplingCartesianAMRMeshGen")
# labels: not data
LABELS = ("_name", "_description", "_desc", "_info_on_compo", "_time", "_iteration", "_order", "_time_unit",
          "_time_tolerance", "_nature", "_quantity_kind", "_precision", "_tk", "_start", "_end", "_cnt", "_types")
# documented not to stamp, or not changing data
SILENT = {
    "setIJSilent": "documented silent", "pushBackSilent": "documented silent", "popBackSilent": "documented silent",
    "pushBackValsSilent": "documented silent", "getPointerSilent": "documented silent", "rwBegin": "documented silent",
    "reserve": "capacity only",
}
SILENT_AT = {
    "MEDCoupling::MEDCouplingUMesh::insertNextCell": "insertion session, stamped by finishInsertingCells",
}


def ignore(m):
    return m.rpartition("::")[2] in LABELS or m.startswith("MEDCoupling::MEDCouplingFieldDiscretization")


NOT_PART = {
    "MEDCoupling::MEDCouplingCartesianAMRMeshSub::_father": "the father is not a part",
}


def part_class(P, ty, TL):
    """class of the stamped parts a member of type ty refers to"""
    t = ty
    if t.startswith("std::vector<"):
        t = t[len("std::vector<"):]
        d = 0
        for i, ch in enumerate(t):
            d += ch == "<"
            d -= ch == ">"
            if d < 0 or (ch == "," and d == 0):
                t = t[:i].strip()
                break
    c = auto_of(t)
    if c is None:
        if not t.rstrip().endswith("*"):
            return None
        c = strip(t)
    c = strip(c)
    return c if c in P.R and P.is_a(c, TL) else None


class Parts:
    """members whose stamp every path of updateTime takes into account"""

    def __init__(self, P, E):
        self.P, self.E, self.memo = P, E, {}

    def member(self, f, e):
        t = peel(self.E.term(f, e))
        return t[2] if t[0] == "f" and t[1] == ("this",) else None

    def of(self, name, stack=()):
        if name in self.memo:
            return self.memo[name]
        f = self.P.F.get(name)
        if f is None or name in stack or len(stack) > 6:
            return frozenset()
        IN, out = {f.entry: frozenset()}, None
        for _ in range(20):
            ch = False
            out = None
            for b in f.rpo:
                if b not in IN:
                    continue
                st = self.block(f, b, IN[b], stack + (name,))
                c = f.bl[b][2]
                for k, s in enumerate(f.bl[b][3]):
                    if s is None or (c is None and k >= 1):
                        continue
                    so = st
                    if c is not None and c[1] is not None and len(f.bl[b][3]) == 2:
                        for q in self.E.implied(f, c[1], k == 0) or ():
                            if q[0] in ("NULL", "EMPTY") or (q[0] == "T" and q[1][0] == "call" and q[1][1] == "isNull"):
                                t = q[1][2] if q[1][0] == "call" and q[0] == "T" else q[1]
                                t = peel(t)
                                if t[0] == "f" and t[1] == ("this",):
                                    so = so | {t[2]}
                        for body in self.E.leaving(f, b, s):
                            for x in body:
                                so = self.block(f, x, so, stack + (name,))
                    if s == f.exit:
                        out = so if out is None else out & so
                    elif s not in IN:
                        IN[s] = so
                        ch = True
                    elif not IN[s] <= so:
                        IN[s] = IN[s] & so
                        ch = True
            if not ch:
                break
        r = out if out is not None else frozenset()
        self.memo[name] = r
        return r

    def block(self, f, b, st, stack):
        for i in f.bl[b][1]:
            ln, ex = f.el[i]
            if ex[0] == "r":
                continue
            for n in f.walk(ex):
                if n[0] != "c" or f.S[n[1]] not in self.P.D:
                    continue
                d = self.P.D[f.S[n[1]]]
                if d.nm == "updateTimeWith" and n[2]:
                    m = self.member(f, n[2][0])
                    if m:
                        st = st | {m}
                elif n[3] is not None and self.E.term(f, n[3]) == ("this",) and d.name in self.P.F:
                    st = st | self.of(d.name, stack)
                elif d.nm == "updateTime" and n[3] is not None:
                    pass
        return st


def find(P, c, nm):
    if c not in P.R:
        return None
    for m in P.R[c].ms:
        d = P.D.get(m)
        if d is not None and d.nm == nm and m in P.F:
            return P.F[m]
    for b in P.R[c].bases:
        r = find(P, b, nm)
        if r is not None:
            return r
    return None


def parts(P, E, R):
    TL = "MEDCoupling::TimeLabel"
    A = Parts(P, E)
    g = P.F.get("MEDCoupling::TimeLabel::updateTimeWith(const MEDCoupling::TimeLabel &) const")
    if g is None:
        raise core.AnalysisBroken("TimeLabel::updateTimeWith not found")
    fr = None
    for b, i, ln, n in g.all_nodes():
        if n[0] == "c" and n[3] is not None and g.S[n[1]] in P.D and P.D[g.S[n[1]]].nm == "updateTime" and \
                E.term(g, n[3]) == ("p", 0):
            fr = b
    exits = [b for b in g.rpo if g.exit in [x for x in g.bl[b][3][:2] if x is not None]]
    R.ob("stamp-refreshes-part", short(g.name), fr is not None and all(g.dominates(fr, b) for b in exits), g.loc(),
         "a composite takes the stamp of a part without refreshing it first: changes in the parts of the part are missed")
    for c in sorted(P.R):
        if P.R[c].abs or not any(P.is_a(c, r) for r in ROOTS + ("MEDCoupling::MEDCouplingTimeDiscretization",
                                                                "MEDCoupling::MEDCouplingMultiFields")):
            continue
        f = find(P, c, "updateTime")
        if f is None:
            continue
        got = A.of(f.name)
        for n, ty, *_ in P.fields_of(c):
            pc = part_class(P, ty, TL)
            if pc is None or n in NOT_PART:
                continue
            R.ob("stamp-covers-part", "%s:%s" % (short(c), short(n)), n in got, f.loc(),
                 "refreshing the stamp of a %s leaves out %s" % (short(c), short(n)))


def run(P, R, tier):
    E = Engine(P)
    E.track_done = False
    S = Stamps(P, E, ignore=ignore)
    n = 0
    for f in sorted(P.F.values(), key=lambda f: f.name):
        if not f.cls or f.const or f.static or f.ctor or f.dtor or f.access != 0 or f.impl:
            continue
        if not any(P.is_a(f.cls, r) for r in ROOTS):
            continue
        n += 1
        if f.nm in SILENT or core.short(f.name) in SILENT_AT or f.name.split("(")[0] in SILENT_AT:
            continue
        ex = S.summary(f.name)
        wr = {x[1] for s in ex for x in s if x[0] in ("w", "c")} | ({"stamp"} if any(("S",) in s for s in ex) else set())
        if not wr:
            continue
        bad = set()
        for s in ex:
            bad |= {x[1] for x in S.open_(s)}
        R.ob("write-stamps", short(f.name), not bad, f.loc(),
             "%s can change %s on a path that never moves the modification stamp" %
             (f.short, ", ".join(sorted(short(b) for b in bad))))
    parts(P, E, R)
    R.floor("write-stamps", 250)
    R.floor("stamp-refreshes-part", 1)
    R.floor("stamp-covers-part", 30)
    R.count("public modifying methods", n)
    for k, v in list(SILENT.items()) + list(SILENT_AT.items()) + list(NOT_PART.items()):
        R.skip(k, v)

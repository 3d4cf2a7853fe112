"""P06: an operation on fields does the same for every time definition and for both arrays of a time interval."""
import re
from sa import core, facts, slots
from sa.core import short, AnalysisBroken
from sa.checks.p03 import find

PARTS = ["interp", "medcoupling"]
EXPLAIN = ("For every operation of the time definitions (arithmetic, extrema, products, aggregation, melding, in-place "
           "variants), the terms given to the result's array and end array are normalised from the resolved program and "
           "compared: between the four time definitions, and between the array and the end array after substitution.  "
           "For every operation written over the list of arrays, each loop covers the whole list and results keep the rank "
           "of the array they come from.")
ASSUME = ["DataArray operations do what their name says", "an operation whose operands do not resolve is not judged"]
OPS = ("aggregate", "meld", "dot", "crossProduct", "max", "min", "add", "substract", "multiply", "divide", "pow")
INPL = ("addEqual", "substractEqual", "multiplyEqual", "divideEqual", "powEqual")
CLS = ["MEDCoupling::MEDCoupling" + x for x in ("NoTimeLabel", "WithTimeStep", "ConstOnTimeInterval", "LinearTime")]
A, B = "_array", "_end_array"


def who(t):
    """which array of which operand a term designates"""
    if t[0] == "f" and t[2].split("::")[-1] in (A, B):
        o, w = t[1], t[2].split("::")[-1]
    elif t[0] == "call" and t[1] in ("getArray", "getEndArray") and len(t) == 3:
        o, w = t[2], A if t[1] == "getArray" else B
    else:
        return None
    while o[0] in ("cast", "itr", "*"):
        o = o[1]
    if o == ("this",):
        return (w, "this")
    if o[0] == "p":
        return (w, o[1])
    if o[0] == "[]" and o[1][0] == "p":
        return (w, "each of", o[1][1])
    return None


class Ops:
    def __init__(self, P, E):
        self.P, self.E = P, E

    def canon(self, f, e, t):
        """('Add', operand, operand) or None"""
        if t[0] == "call" and len(t) >= 4 and t[2] is None:
            ws = [who(x) for x in t[3:]]
            if ws and all(ws):
                return (t[1],) + tuple(ws)
        x = f.e(e)
        for _ in range(8):
            while x is not None and x[0] in ("cast", "k") and (x[0] == "cast" or len(x[2]) == 1):
                x = f.e(x[4] if x[0] == "cast" else x[2][0])
            if x is not None and x[0] == "c" and x[3] is not None and not x[2] and f.S[x[1]] in self.P.D and \
                    self.P.D[f.S[x[1]]].nm.startswith("operator"):
                x = f.e(x[3])
                continue
            if x is not None and x[0] == "v" and f.vkind(x[1]) == "l":
                ds = facts.defs_of(f).get(x[1], [])
                if len(ds) == 1 and ds[0][0] in ("init", "asg"):
                    x = f.e(ds[0][1])
                    continue
            break
        if x is not None and x[0] == "c" and f.S[x[1]] in self.P.D and len(x[2]) == 1:
            v = f.e(x[2][0])
            while v[0] == "cast":
                v = f.e(v[4])
            if v[0] == "v" and f.vkind(v[1]) == "l" and "vector" in f.vtype(v[1]):
                st = self.stores(f, v[1])
                ws = {who(s) for s in st}
                if len(ws) == 1 and None not in ws:
                    return (self.P.D[f.S[x[1]]].nm,) + tuple(ws)
        return None

    def stores(self, f, v):
        r = []
        for b, i, ln, n in f.all_nodes():
            if n[0] == "b" and n[1] == "=" or n[0] == "c" and f.S[n[1]] in self.P.D and \
                    self.P.D[f.S[n[1]]].nm in ("push_back", "emplace_back") and n[3] is not None and n[2]:
                l = f.e(n[2] if n[0] == "b" else n[3])
                while l[0] == "cast":
                    l = f.e(l[4])
                if n[0] == "b":
                    if l[0] == "c" and f.S[l[1]] in self.P.D and self.P.D[f.S[l[1]]].nm in ("operator[]", "at"):
                        l = f.e(l[3] if l[3] is not None else l[2][0])
                    elif l[0] == "x":
                        l = f.e(l[1])
                    else:
                        continue
                if l[0] == "v" and l[1] == v:
                    r.append(self.E.term(f, n[3] if n[0] == "b" else n[2][0]))
        return r

    def sig(self, f):
        """{'_array': set of canonical terms given to the result's array, '_end_array': ...}, in-place the same"""
        r = {A: [], B: []}
        for b, i, ln, n in f.all_nodes():
            if n[0] != "c" or f.S[n[1]] not in self.P.D or n[3] is None:
                continue
            d = self.P.D[f.S[n[1]]]
            o = self.E.term(f, n[3])
            if d.nm in ("setArray", "setEndArray") and n[2] and o != ("this",):
                t = self.E.term(f, n[2][0])
                r[A if d.nm == "setArray" else B].append((self.canon(f, n[2][0], t), ln))
            elif d.cls and short(d.cls).startswith("DataArray") and not d.const:
                w = who(o)
                if w is not None and w[1] == "this":
                    ws = [who(self.E.term(f, a)) for a in n[2]]
                    r[w[0]].append(((d.nm, w) + tuple(ws) if all(ws) else None, ln))
        return r


def end(c):
    return (c[0],) + tuple((B,) + w[1:] for w in c[1:])


def show(c):
    def one(w):
        s = "end array" if w[0] == B else "array"
        return "%s of %s" % (s, "this" if w[1] == "this" else "the operands" if w[1] == "each of" else "the operand")
    return "%s(%s)" % (c[0], ", ".join(one(w) for w in c[1:]))


def binary(P, E, R):
    O = Ops(P, E)
    fam = {}
    for c in CLS:
        if c not in P.R:
            raise AnalysisBroken("class %s not found" % c)
        for m in sorted(P.R[c].ms):
            f = P.F.get(m)
            if f is None or f.nm not in OPS + INPL or len(f.params) != 1:
                continue
            fam.setdefault((f.nm, "vector" in f.params[0][1]), []).append((c, f, O.sig(f)))
    und = 0
    for (nm, vec), l in sorted(fam.items()):
        votes = {}
        for c, f, s in l:
            for k in (A, B):
                for x, ln in s[k]:
                    if x is not None:
                        y = (x[0],) + tuple((A,) + w[1:] for w in x[1:])
                        votes[y] = votes.get(y, 0) + 1
        if not votes:
            und += 1
            continue
        best = max(sorted(votes), key=lambda y: votes[y])
        for c, f, s in l:
            for k in (A, B):
                if k == B and not any("_end_array" == x[0].split("::")[-1] for x in P.fields_of(c)):
                    continue
                want = best if k == A else end(best)
                key = "%s::%s%s:%s" % (short(c), nm, "(vector)" if vec else "", k)
                if not s[k]:
                    # the other array is handled, this one is not: an omission unless both are handled elsewhere
                    if any(x is not None for x, _ in s[A] + s[B]):
                        R.ob("same-operation", key, False, f.loc(), "%s leaves out the %s" % (
                            f.short, "end array" if k == B else "array"))
                    continue
                for x, ln in s[k]:
                    if x is None:
                        und += 1
                        continue
                    R.ob("same-operation", key, x == want, f.loc(ln), "%s makes the %s from %s, the other time definitions "
                         "and arrays from %s" % (f.short, "end array" if k == B else "array", show(x), show(want)))
    R.count("undecided operations", und)


def lists(P, E, R):
    for name, f in sorted(P.F.items()):
        c = short(f.cls or "")
        if not c.startswith(("MEDCouplingTimeDiscretization", "MEDCouplingFieldDouble", "MEDCouplingFieldT<")):
            continue
        src = set()
        for b, i, ln, n in f.all_nodes():
            if n[0] == "c" and f.S[n[1]] in P.D and P.D[f.S[n[1]]].nm == "getArrays":
                if n[2]:
                    v = f.e(n[2][0])
                    if v[0] == "v" and f.vkind(v[1]) == "l":
                        src.add(v[1])
        for v in range(len(f.o.get("vars", []))):
            for d in facts.defs_of(f).get(v, []):
                if d[0] == "init" and d[1] is not None and f.vkind(v) == "l" and "vector" in f.vtype(v):
                    x = f.e(d[1])
                    while x is not None and x[0] in ("cast", "k") and (x[0] == "cast" or len(x[2]) == 1):
                        x = f.e(x[4] if x[0] == "cast" else x[2][0])
                    if x is not None and x[0] == "c" and f.S[x[1]] in P.D and P.D[f.S[x[1]]].nm == "getArrays":
                        src.add(v)
        if not src:
            continue
        S = slots.Slots(P, E, f.cls)
        key = "%s(%d)" % (f.short, len(f.params))
        # elements used: indices and loops
        loops = set()
        bad = None
        used = 0

        def base(e):
            e = f.e(e)
            while e is not None and e[0] == "cast":
                e = f.e(e[4])
            return e[1] if e is not None and e[0] == "v" and f.vkind(e[1]) == "l" else None

        def elem(e):
            """(list, index node) of an element of a list of arrays"""
            e = f.e(e)
            while e is not None and e[0] == "cast":
                e = f.e(e[4])
            if e is None:
                return None
            if e[0] == "c" and f.S[e[1]] in P.D:
                d = P.D[f.S[e[1]]]
                a = ([e[3]] if e[3] is not None else []) + list(e[2])
                if d.nm in ("operator[]", "at") and len(a) == 2 and base(a[0]) is not None and \
                        "vector" in f.vtype(base(a[0])) and "DataArray" in f.vtype(base(a[0])):
                    return base(a[0]), a[1]
                if d.nm in ("front", "back") and len(a) == 1 and base(a[0]) is not None and \
                        "vector" in f.vtype(base(a[0])) and "DataArray" in f.vtype(base(a[0])):
                    return base(a[0]), d.nm
            return None
        for b, i, ln, n in f.all_nodes():
            x = elem(n)
            if x is None:
                continue
            if x[0] not in src and x[1] not in ("front", "back"):
                continue
            if x[0] not in src:
                continue
            used += 1
            if x[1] in ("front", "back"):
                bad = bad or ("only the %s one of its arrays is taken" % ("first" if x[1] == "front" else "last"), ln)
                continue
            t = E.term(f, x[1])
            if t[0] == "c":
                bad = bad or ("the array of fixed rank %s is taken" % (t[1],), ln)
            hs = [h for h in E.loops(f) if b in E.in_loop(f, h)]
            if hs:
                loops.add(min(hs, key=lambda h: len(E.in_loop(f, h))))
        for b, i, ln, n in f.all_nodes():
            if n[0] == "b" and n[1] == "=" or n[0] == "c" and f.S[n[1]] in P.D and P.D[f.S[n[1]]].nm == "operator=":
                a = [n[2], n[3]] if n[0] == "b" else ([n[3]] if n[3] is not None else []) + list(n[2])
                l = elem(a[0])
                if l is None or l[1] in ("front", "back") or len(a) != 2:
                    continue
                for m in f.walk_full(a[1]):
                    r = elem(m)
                    if r is not None and r[1] not in ("front", "back"):
                        tl, tr = E.term(f, l[1]), E.term(f, r[1])
                        if tl[0] == "op" and tr[0] != "op" or tl[0] != "op" and tr[0] == "op" or \
                                (tl[0] == "c") != (tr[0] == "c"):
                            bad = bad or ("the result of the array of rank %s takes another rank" % fmt(tr), ln)
        # iterators over a list
        for h in E.loops(f):
            for b in [h]:
                c2 = f.bl[b][2]
                if c2 is not None and c2[1] is not None and any(
                        base(m) in src for m in f.walk_full(c2[1]) if m[0] == "v"):
                    loops.add(h)
        for h in sorted(loops):
            t = S.trip(f, h)
            if t is slots.UNK:
                continue
            used += 1
            ln = f.bl[h][2][2] if f.bl[h][2] else None
            if slots.lconst(t):
                bad = bad or ("a loop makes %d turns whatever the number of arrays" % t.get((), 0), ln)
            elif t.get((), 0):
                bad = bad or ("a loop leaves out some of the arrays", ln)
        if used:
            R.ob("every-array", key, bad is None, f.loc(bad[1] if bad else None),
                 "%s: %s" % (f.short, bad[0] if bad else ""))


def fmt(t):
    return t[2] if t[0] == "l" else str(t[1])


STATIC = {"AddFields": "add", "SubstractFields": "substract", "MultiplyFields": "multiply", "DivideFields": "divide",
          "MaxFields": "max", "MinFields": "min", "DotFields": "dot", "CrossProductFields": "crossProduct",
          "MeldFields": "meld", "PowFields": "pow", "MergeFields": "aggregate", "operator+": "add", "operator-": "substract",
          "operator*": "multiply", "operator/": "divide", "operator^": "pow", "operator+=": "addEqual",
          "operator-=": "substractEqual", "operator*=": "multiplyEqual", "operator/=": "divideEqual", "operator^=": "powEqual"}


def names(P, E, R):
    """an operation delegates to the operation of the same name of the part it works on, parameters in the same order"""
    def methods(c, seen=()):
        r = set()
        if c in P.R:
            r |= {P.D[m].nm for m in P.R[c].ms if m in P.D and not P.D[m].static}
            for b in P.R[c].bases:
                r |= methods(b)
        return r
    def types(c, nm):
        r = set()
        if c in P.R:
            for m in P.R[c].ms:
                if m in P.D and P.D[m].nm == nm:
                    r |= {q[1] for q in P.D[m].params}
            for b in P.R[c].bases:
                r |= types(b, nm)
        return r
    TD = "MEDCoupling::MEDCouplingTimeDiscretization"
    FD = "MEDCoupling::MEDCouplingFieldDouble"
    for c, part, sel in ((TD, "MEDCoupling::DataArrayDouble", lambda d: d.cls and short(d.cls).startswith("DataArray")),
                         (FD, TD, lambda d: d.cls and short(d.cls).startswith("MEDCouplingTimeDiscretization"))):
        if c not in P.R or part not in P.R:
            raise AnalysisBroken("class %s not found" % c)
        there = methods(part)
        for m in sorted(P.R[c].ms):
            f = P.F.get(m)
            if f is None or f.ctor or f.dtor or f.access != 0:
                continue
            want = STATIC.get(f.nm, f.nm) if c == FD else f.nm
            if want not in there or want in ("New", "updateTime") or f.static and f.nm not in STATIC:
                continue
            if want not in STATIC.values() and any("MEDCoupling" not in q[1] and q[1] not in types(part, want) for q in f.params):
                continue            # an overload the part does not have
            got = {}
            for b, i, ln, n in f.all_nodes():
                if n[0] != "c" or f.S[n[1]] not in P.D:
                    continue
                d = P.D[f.S[n[1]]]
                if n[3] is not None and sel(d):
                    got.setdefault(d.nm, (n, ln))
            ops = {x for x in got if x in SIBS}
            if not ops:
                continue            # written some other way
            R.ob("same-name", "%s(%d)" % (f.short, len(f.params)), want in got or want not in SIBS, f.loc(),
                 "%s works on its parts with %s, not with %s" % (f.short, "/".join(sorted(ops)), want))
            if want in got and not f.static and want not in STATIC.values():
                n, ln = got[want]
                ps = [t[1] for t in (E.term(f, a) for a in n[2]) if t[0] == "p"]
                R.ob("parameters-in-order", "%s(%d)" % (f.short, len(f.params)), ps == sorted(ps) and
                     (len(ps) == len(f.params) or len(ps) < len(n[2])), f.loc(ln),
                     "%s hands over its parameters in another order: %s" % (f.short, [f.params[k][0] for k in ps]))


SIBS = set(OPS + INPL + (
    "computeVectorFieldCyl", "doublyContractedProduct", "determinant", "eigenValues", "eigenVectors", "inverse", "trace",
    "deviator", "magnitude", "negate", "maxPerTuple", "keepSelectedComponents", "setSelectedComponents",
    "changeNbOfComponents", "sortPerTuple", "setUniformValue", "setOrCreateUniformValueOnAllComponents", "applyLin",
    "applyFunc", "applyFuncCompo", "applyFuncNamedCompo", "applyFuncFast32", "applyFuncFast64", "fillFromAnalytic",
    "fillFromAnalyticCompo", "fillFromAnalyticNamedCompo"))


def run(P, R, tier):
    E = facts.Engine(P)
    E.track_done = False
    binary(P, E, R)
    lists(P, E, R)
    names(P, E, R)
    R.floor("same-operation", 40)
    R.floor("every-array", 10)
    R.floor("same-name", 40)
    R.floor("parameters-in-order", 25)

"""P18: transferring a field applies the interpolation matrix divided by what the nature of the field announces."""
from sa import values as V, arrays as A
from sa.bench import Point, sym, same, THROWS, Arr, DBL
from sa.values import R, Ptr, LV

MC = "MEDCoupling::"
RM = MC + "MEDCouplingRemapper"
PARTS = ["interp", "medcoupling"]
EXPLAIN = ("The remapper is followed through its own code on matrices of known pattern whose coefficients, as the measures of the cells "
           "and the values of the fields, are distinct positive unknowns; meshes and discretizations are only known by their number "
           "of cells and measures.  Each value of the field obtained, a rational function, must have the normal form of its definition, "
           "after each sequence of operations on the same remapper.  One obligation per operation, pattern, nature and history.")
ASSUME = ["matrices have at most four rows and columns", "coefficients and measures are positive"]
TH = (("o", "remapper"),)
NATURES = (("IntensiveMaximum", 26), ("IntensiveConservation", 37), ("ExtensiveMaximum", 32), ("ExtensiveConservation", 35))
PATTERNS = {
    "full 2x2": (2, 2, ((0, 1), (0, 1))),
    "2x3": (2, 3, ((0, 1), (1, 2))),
    "3x2 crossed": (3, 2, ((1,), (0, 1), (0,))),
    "3x3 with an empty row": (3, 3, ((0, 2), (), (1, 2))),
    "3x4 with columns never reached": (3, 4, ((2,), (2,), (0, 2))),
    "1x1": (1, 1, ((0,),)),
    "4x2": (4, 2, ((0,), (0, 1), (1,), ())),
}


def W(i, j, w="w"):
    return sym("%s%d.%d" % (w, i, j))


class Model(A.Real):
    """fields, templates and meshes known by their cells only"""

    def __init__(self):
        A.Real.__init__(self)
        self.place = {}

    def mesh(self, st, name, n, dim):
        m = (("o", "mesh " + name),)
        st[m + (("f", "#n"),)], st[m + (("f", "#dim"),)] = R.const(n), R.const(dim)
        self.cls[m] = MC + "MEDCouplingUMesh"
        return m

    def field(self, st, name, mesh, arr=None, nature=26, template=False, disc=0):
        f = (("o", name),)
        st[f + (("f", "#mesh"),)] = Ptr(mesh)
        st[f + (("f", "#nature"),)] = R.const(nature)
        st[f + (("f", "#disc"),)] = R.const(disc)
        st[f + (("f", "#array"),)] = Ptr(arr) if arr else Ptr((("null",),))
        self.cls[f] = MC + ("MEDCouplingFieldTemplate" if template else "MEDCouplingFieldDouble")
        return f

    def __call__(self, I, name, rl, args):
        q = name.split("(")[0]
        b = q.rsplit("::", 1)[-1]
        st = I.store
        if q == MC + "TimeLabel::declareAsNew":
            l = rl + (("f", "_time"),)
            st[l] = I.num(st.get(l, R.const(5))) + V.R1
            return V.ZERO
        if q == MC + "TimeLabel::getTimeOfThis":
            return st.get(rl + (("f", "_time"),), R.const(5))
        k = q.rsplit("::", 1)[0]
        if k in (MC + "MEDCouplingFieldDouble", MC + "MEDCouplingField", MC + "MEDCouplingFieldTemplate", MC + "MEDCouplingFieldT<double>"):
            if b == "New":
                o = I.rv(args[0])
                o = o.loc if isinstance(o, (Ptr, LV, V.Obj)) else None
                if o is None or o + (("f", "#mesh"),) not in st:
                    return None
                self.n += 1
                f = self.field(st, "new field %d" % self.n, st[o + (("f", "#mesh"),)].loc, None, 0, False, 0)
                st[f + (("f", "#disc"),)] = st[o + (("f", "#disc"),)]
                I.cls[f] = MC + "MEDCouplingFieldDouble"
                return Ptr(f)
            if rl is None or rl + (("f", "#mesh"),) not in st:
                return None
            g = lambda x: st[rl + (("f", x),)]
            m = g("#mesh").loc
            a = g("#array")
            if b == "getMesh":
                return g("#mesh")
            if b == "getArray":
                return a
            if b == "setArray":
                st[rl + (("f", "#array"),)] = I.rv(args[0])
                return V.ZERO
            if b == "getNature":
                return g("#nature")
            if b == "setNature":
                st[rl + (("f", "#nature"),)] = I.num(I.rv(args[0]))
                return V.ZERO
            if b == "getDiscretization":
                return Ptr(rl + (("f", "#disc"),))
            if b == "getTypeOfField":
                return g("#disc")
            if b in ("getNumberOfTuplesExpected", "getNumberOfTuples"):
                if b == "getNumberOfTuples" and a.loc[0][0] != "null":
                    return R.const(self.table(st, a.loc)[0])
                return st[m + (("f", "#n"),)]
            if b == "getNumberOfComponents":
                if a.loc[0][0] == "null":
                    return None
                return R.const(self.table(st, a.loc)[1])
            if b in ("checkConsistencyLight", "copyAllTinyAttrFrom", "copyTinyAttrFrom", "getTimeDiscretization", "incrRef", "decrRef",
                     "getTimeDiscretizationUnderGround", "setName", "setTime"):
                return V.ZERO
            return None
        if k.startswith(MC + "MEDCouplingFieldDiscretization"):
            if b == "getStringRepr":
                return V.Str("P%d" % int(st[rl].c))
            if b == "getEnum":
                return st[rl]
            if b in ("getMeasureField",):
                m = I.rv(args[0]).loc
                n = int(st[m + (("f", "#n"),)].c)
                self.n += 1
                f = self.field(st, "measures %d" % self.n, m)
                nm = m[0][1][5:]
                l = self.array(st, "measures %d" % self.n, n, 1, [sym("%s%d" % (nm, i)) for i in range(n)])
                I.cls.update(self.cls)
                st[f + (("f", "#array"),)] = Ptr(l)
                return Ptr(f)
            return None
        if b in ("getMeshDimension", "getNumberOfCells") and rl is not None and rl + (("f", "#n"),) in st:
            return st[rl + (("f", "#dim" if b == "getMeshDimension" else "#n"),)]
        return A.Real.__call__(self, I, name, rl, args)


def put_map(st, l, d):
    for k, (i, v) in enumerate(sorted(d.items())):
        st[l + (("x", R.const(k)), ("f", "first"))] = R.const(i)
        st[l + (("x", R.const(k)), ("f", "second"))] = v if isinstance(v, R) else R.const(v)
    st[l + (("f", "#size"),)] = R.const(len(d))


def put_matrix(st, l, rows):
    for i, d in enumerate(rows):
        put_map(st, l + (("x", R.const(i)),), d)
    st[l + (("f", "#size"),)] = R.const(len(rows))


def get_map(st, l):
    n = st.get(l + (("f", "#size"),))
    if not isinstance(n, R) or n.c is None:
        raise V.TooDeep("a row of a matrix is not known")
    out = {}
    for i in range(int(n.c)):
        k, v = (st.get(l + (("x", R.const(i)), ("f", x))) for x in ("first", "second"))
        if not isinstance(k, R) or k.c is None or not isinstance(v, R):
            raise V.TooDeep("an element of a matrix is not known")
        if V.murky(v):
            raise V.TooDeep(V.murky(v))
        out[int(k.c)] = v
    return out


def get_matrix(st, l):
    n = st.get(l + (("f", "#size"),))
    if not isinstance(n, R) or n.c is None:
        raise V.TooDeep("a matrix is not known")
    return [get_map(st, l + (("x", R.const(i)),)) for i in range(int(n.c))]


def total(xs):
    return sum(xs, V.ZERO)


def ratio(rows, nat, S, T, reverse):
    """what the value of column j contributes with to row i (of row i to column j, in reverse)"""
    col = {}
    for d in rows:
        for j, v in d.items():
            col[j] = col.get(j, V.ZERO) + v

    def at(i, j):
        v, row = rows[i][j], total(rows[i].values())
        return v / {"IntensiveMaximum": (row, col[j]), "ExtensiveConservation": (col[j], row),
                    "ExtensiveMaximum": (S[j], T[i]), "IntensiveConservation": (T[i], S[j])}[nat][reverse]
    return at


class Scene:
    def __init__(self, B, rows, nc, dims=(2, 2), ncols=None):
        """a remapper with this matrix, its templates, and what is around"""
        self.B, self.rows, self.nc, self.dims = B, rows, nc, dims
        self.nr, self.ncol = len(rows), ncols
        self.H = Model()
        st = self.st = {}
        self.sm, self.tm = self.H.mesh(st, "S", self.ncol, dims[0]), self.H.mesh(st, "T", self.nr, dims[1])
        self.sf, self.tf = self.H.field(st, "source template", self.sm, template=True), self.H.field(st, "target template", self.tm, template=True)
        st[TH + (("f", "_src_ft"), ("f", "_ptr"))], st[TH + (("f", "_target_ft"), ("f", "_ptr"))] = Ptr(self.sf), Ptr(self.tf)
        st[TH + (("f", "_nature_of_deno"),)] = V.ZERO
        st[TH + (("f", "_time_deno_update"),)] = V.ZERO
        put_matrix(st, TH + (("f", "_matrix"),), rows)
        put_matrix(st, TH + (("f", "_deno_multiply"),), [{} for _ in rows])
        put_matrix(st, TH + (("f", "_deno_reverse_multiply"),), [{} for _ in range(self.ncol)])
        self.H.cls[TH] = RM
        self.S, self.T = [sym("S%d" % i) for i in range(self.ncol)], [sym("T%d" % i) for i in range(self.nr)]
        if dims[1] == -1:
            self.T = [total(self.S)]
        if dims[0] == -1:
            self.S = [total(self.T)]
        self.k = 0

    def field(self, nat, side, values=None, mesh=None, nc=None, disc=0):
        """a field on the source (side 0) or the target; values: name of its unknowns, or None without array"""
        self.k += 1
        n = self.nr if side else self.ncol
        if mesh:
            n = int(self.st[mesh + (("f", "#n"),)].c)
        nc = nc or self.nc
        a = None
        if values:
            a = self.H.array(self.st, "values %d" % self.k, n, nc, [sym("%s%d.%d" % (values, i, c)) for i in range(n) for c in range(nc)])
        return self.H.field(self.st, "field %d" % self.k, mesh or (self.tm if side else self.sm), a, dict(NATURES).get(nat, 17), disc=disc)

    def run(self, nm, args, n=None, this=TH):
        f = self.B.find(nm, len(args) if n is None else n)
        I = V.Interp(self.B.P, decide=self.B.sign.decide, maxpaths=4)
        I.meth = self.H
        V.SIGN = self.B.sign
        try:
            ps = I.paths(f, [Ptr(a) if isinstance(a, tuple) else a for a in args], this=this, init=self.st, cls=self.H.cls)
        finally:
            V.SIGN = None
        if len(ps) != 1:
            raise V.TooDeep("%d paths" % len(ps))
        if I.outside:
            (place, i, k, w), g = sorted(I.outside.items(), key=str)[0]
            raise Wrong("an array of %s values is %s at %s in %s" % (k, "written" if w else "read", i, getattr(g, "name", str(g)).split("(")[0]))
        self.st = dict(ps[0].store)
        self.H.cls.update(ps[0].cls or {})
        return f, ps[0]

    def values(self, field):
        a = self.st.get(field + (("f", "#array"),))
        t = A.Real.table(self.st, a.loc) if isinstance(a, Ptr) and a.loc[0][0] != "null" else None
        if t is None:
            raise V.TooDeep("the array of the field is not known")
        return t


class Wrong(Exception):
    pass


class Remap:
    def __init__(self, P, R_):
        self.P, self.R = P, R_
        self.sign = Point(3, signed=False)
        self.fn = {}
        for f in P.F.values():
            if f.cls == RM:
                self.fn.setdefault(f.nm, []).append(f)

    def find(self, nm, n):
        l = [f for f in self.fn.get(nm, ()) if len(f.params) == n]
        if not l:
            raise RuntimeError("anchor: no %s in the remapper" % nm)
        return l[0]

    def judge(self, rule, key, job):
        """job() -> (function, '' or what is wrong)"""
        try:
            f, why = job()
        except Wrong as e:
            f, why = self.fn["transferUnderground"][0] if "transferUnderground" in self.fn else self.fn["transfer"][0], str(e)
        except V.TooDeep as e:
            self.R.skip("%s %s" % (rule, key), "not followed: %s" % str(e)[:200])
            return
        self.R.ob(rule, key, not why, f.loc(), "%s: %s" % (key, why or "ok"))

    def compare(self, got, want, nc):
        """want: list of rows of R"""
        if (got[0], got[1]) != (len(want), nc):
            return "%d tuples of %d components instead of %d of %d" % (got[0], got[1], len(want), nc)
        for v in got[2]:
            m = V.murky(v) if isinstance(v, R) else None
            if m:
                raise V.TooDeep(m)
        for i, r in enumerate(want):
            for c, w in enumerate(r):
                v = got[2][i * nc + c]
                if not (isinstance(v, R) and same(v, w, self.sign)):
                    return "the value of cell %d, component %d is not what its nature announces" % (i, c)
        return ""


def expected(sc, nat, rev, src="v", dft=None, before=None, rows=None):
    """rows of values announced; before: name of the unknowns kept where nothing arrives"""
    rows = sc.rows if rows is None else rows
    at = ratio(rows, nat, sc.S, sc.T, rev)
    n = sc.ncol if rev else sc.nr
    out = []
    for k in range(n):
        pairs = [(i, k) for i in range(sc.nr) if k in rows[i]] if rev else [(k, j) for j in rows[k]]
        r = []
        for c in range(sc.nc):
            if pairs:
                r.append(total(at(i, j) * sym("%s%d.%d" % (src, i if rev else j, c)) for i, j in pairs))
            else:
                r.append(sym("%s%d.%d" % (before, k, c)) if before else dft)
        out.append(r)
    return out


def pattern(name):
    nr, ncol, cells = PATTERNS[name]
    return [{j: W(i, j) for j in r} for i, r in enumerate(cells)], ncol


def transfers(B):
    d = sym("dft")
    for pn in PATTERNS:
        rows, ncol = pattern(pn)
        for nat, _ in NATURES:
            for nc in (1, 2):
                k = "%s, %s, %d components" % (nat, pn, nc)

                def fwd(arr):
                    def job():
                        sc = Scene(B, rows, nc, ncols=ncol)
                        t = sc.field(nat, 1, "b" if arr else None)
                        f, p = sc.run("transfer", [sc.field(nat, 0, "v"), t, d])
                        return f, "an exception is thrown" if p.thrown else B.compare(sc.values(t), expected(sc, nat, 0, dft=d), nc)
                    return job
                B.judge("transfer", "transfer " + k, fwd(False))
                B.judge("transfer", "transfer to an array already there " + k, fwd(True))

                def part():
                    sc = Scene(B, rows, nc, ncols=ncol)
                    t = sc.field(nat, 1, "b")
                    f, p = sc.run("partialTransfer", [sc.field(nat, 0, "v"), t])
                    return f, "an exception is thrown" if p.thrown else B.compare(sc.values(t), expected(sc, nat, 0, before="b"), nc)
                B.judge("transfer", "partialTransfer " + k, part)

                def back(arr):
                    def job():
                        sc = Scene(B, rows, nc, ncols=ncol)
                        s = sc.field(nat, 0, "b" if arr else None)
                        f, p = sc.run("reverseTransfer", [s, sc.field(nat, 1, "v"), d])
                        return f, "an exception is thrown" if p.thrown else B.compare(sc.values(s), expected(sc, nat, 1, dft=d), nc)
                    return job
                B.judge("reverse", "reverseTransfer " + k, back(False))
                B.judge("reverse", "reverseTransfer to an array already there " + k, back(True))
            if len(PATTERNS[pn][2]) > 1:
                for rev, nm in ((0, "transferField"), (1, "reverseTransferField")):
                    def whole():
                        sc = Scene(B, rows, 2, ncols=ncol)
                        f, p = sc.run(nm, [sc.field(nat, rev, "v"), d])
                        l = p.ret.loc if isinstance(p.ret, (Ptr, V.Obj, LV)) else None
                        if p.thrown or l is None:
                            return f, "an exception is thrown"
                        if l + (("f", "#mesh"),) not in sc.st:
                            raise V.TooDeep("the field returned is not known")
                        if sc.st[l + (("f", "#mesh"),)].loc != (sc.sm if rev else sc.tm):
                            return f, "the field returned is not on the mesh announced"
                        if sc.st[l + (("f", "#nature"),)].c != dict(NATURES)[nat]:
                            return f, "the nature of the field returned is not that of the field given"
                        return f, B.compare(sc.values(l), expected(sc, nat, rev, dft=d), 2)
                    B.judge("reverse" if rev else "transfer", "%s %s, %s" % (nm, nat, pn), whole)


def points(B):
    """one of the meshes of dimension -1: its measure is that of the other"""
    d = sym("dft")
    for nat, _ in NATURES:
        for dims, rows, ncol in (((2, -1), [{0: W(0, 0), 1: W(0, 1), 2: W(0, 2)}], 3), ((-1, 2), [{0: W(0, 0)}, {0: W(1, 0)}, {0: W(2, 0)}], 1)):
            for rev in (0, 1):
                def job():
                    sc = Scene(B, rows, 1, dims, ncol)
                    r = sc.field(nat, 1 - rev)
                    v = sc.field(nat, rev, "v")
                    f, p = sc.run("reverseTransfer", [r, v, d]) if rev else sc.run("transfer", [v, r, d])
                    return f, "an exception is thrown" if p.thrown else B.compare(sc.values(r), expected(sc, nat, rev, dft=d), 1)
                B.judge("point", "%s, %s, %s" % (nat, "target without dimension" if dims[1] < 0 else "source without dimension",
                                                 "reverse" if rev else "transfer"), job)


def histories(B):
    d = sym("dft")
    tiny = {"w0.0": 1e-12, "w2.0": 1e-11, "w1.1": 2e-12}
    small = lambda pn: [{j: v for j, v in r.items() if "w%d.%d" % (i, j) not in tiny} for i, r in enumerate(pattern(pn)[0])]
    for pn in ("2x3", "3x2 crossed", "full 2x2", "3x4 with columns never reached"):
        rows, ncol = pattern(pn)
        for nat, _ in NATURES:
            for other, _ in NATURES:
                for rev in (0, 1):
                    def after():
                        sc = Scene(B, rows, 1, ncols=ncol)
                        sc.run("transfer", [sc.field(other, 0, "u"), sc.field(other, 1), d])
                        r, v = sc.field(nat, 1 - rev), sc.field(nat, rev, "v")
                        f, p = sc.run("reverseTransfer", [r, v, d]) if rev else sc.run("transfer", [v, r, d])
                        return f, "an exception is thrown" if p.thrown else B.compare(sc.values(r), expected(sc, nat, rev, dft=d), 1)
                    B.judge("history", "%s%s after a transfer of %s, %s" % ("reverse " if rev else "", nat, other, pn), after)
            for first in (0, 1):
                for rev in (0, 1):
                    def cut():
                        sg = B.sign
                        B.sign = Point(3, tiny, signed=False)
                        try:
                            sc = Scene(B, rows, 1, ncols=ncol)
                            if first:
                                sc.run("transfer", [sc.field(nat, 0, "u"), sc.field(nat, 1), d])
                            sc.run("nullifiedTinyCoeffInCrudeMatrixAbs", [V.R.const(V.Fraction(1, 10 ** 6))])
                            r, v = sc.field(nat, 1 - rev), sc.field(nat, rev, "v")
                            f, p = sc.run("reverseTransfer", [r, v, d]) if rev else sc.run("transfer", [v, r, d])
                            return f, "an exception is thrown" if p.thrown else B.compare(sc.values(r), expected(sc, nat, rev, dft=d, rows=small(pn)), 1)
                        finally:
                            B.sign = sg
                    B.judge("history", "%s%s with tiny coefficients removed%s, %s" % ("reverse " if rev else "", nat, " after a transfer" if first else "", pn), cut)
            for rev in (0, 1):
                def change():
                    sc = Scene(B, rows, 1, ncols=ncol)
                    sc.run("transfer", [sc.field(nat, 0, "u"), sc.field(nat, 1), d])
                    new = [{(j + 1) % ncol: W(i, j, "z") for j in list(r)[:1]} for i, r in enumerate(rows)]
                    l = (("matrix given",),)
                    put_matrix(sc.st, l, new)
                    sc.run("setCrudeMatrixEx", [sc.sf, sc.tf, LV(l)])
                    r, v = sc.field(nat, 1 - rev), sc.field(nat, rev, "v")
                    f, p = sc.run("reverseTransfer", [r, v, d]) if rev else sc.run("transfer", [v, r, d])
                    return f, "an exception is thrown" if p.thrown else B.compare(sc.values(r), expected(sc, nat, rev, dft=d, rows=new), 1)
                B.judge("history", "%s%s with another matrix given after a transfer, %s" % ("reverse " if rev else "", nat, pn), change)


def removals(B):
    """the coefficients whose magnitude does not exceed the one given, or that fraction of the largest, are removed: no other is"""
    d = sym("dft")
    vals = {"w0.0": 1.5, "w0.1": -1.5, "w0.2": 150., "w1.1": -50., "w1.2": 2.5, "w2.0": -2.5, "w2.1": 1.9, "w2.2": .5, "w1.0": 200., "w2.3": 1.2}
    for pn in ("full 2x2", "2x3", "3x2 crossed", "3x3 with an empty row", "3x4 with columns never reached"):
        rows, ncol = pattern(pn)
        names = {(i, j): vals["w%d.%d" % (i, j)] for i, r in enumerate(rows) for j in r}
        top = max(abs(x) for x in names.values())
        for nm, given, limit in (("nullifiedTinyCoeffInCrudeMatrixAbs", 2., 2.), ("nullifiedTinyCoeffInCrudeMatrix", .0125, .0125 * top),
                                 ("nullifiedTinyCoeffInCrudeMatrix", .3, .3 * top)):
            for rev in (0, 1):
                def job():
                    sg = B.sign
                    B.sign = Point(5, vals, signed=False)
                    try:
                        sc = Scene(B, rows, 1, ncols=ncol)
                        f, q = sc.run(nm, [V.R.const(V.Fraction(given))])
                        gone = sum(1 for x in names.values() if abs(x) <= limit)
                        left = [{j: v for j, v in r.items() if abs(names[i, j]) > limit} for i, r in enumerate(rows)]
                        if q.thrown:
                            return f, "an exception is thrown"
                        if not (isinstance(q.ret, R) and q.ret.c == gone):
                            return f, "the number of coefficients removed is not that announced"
                        r, v = sc.field("ExtensiveMaximum", 1 - rev), sc.field("ExtensiveMaximum", rev, "v")
                        f2, p = sc.run("reverseTransfer", [r, v, d]) if rev else sc.run("transfer", [v, r, d])
                        return f, "an exception is thrown" if p.thrown else B.compare(
                            sc.values(r), expected(sc, "ExtensiveMaximum", rev, dft=d, rows=left), 1)
                    finally:
                        B.sign = sg
                B.judge("removal", "%s %g, %s%s" % (nm, given, pn, " reverse" * rev), job)


def refusals(B):
    d = sym("dft")
    rows, ncol = pattern("3x2 crossed")

    def throws(nm, make, n):
        def job():
            sc = Scene(B, rows, 1, ncols=ncol)
            f, p = sc.run(nm, make(sc))
            return f, "" if p.thrown else "no exception is thrown"
        B.judge("refused", "%s, %s" % (nm, n), job)
    I, E = "IntensiveMaximum", "ExtensiveConservation"
    for nm, rev in (("transfer", 0), ("reverseTransfer", 1), ("partialTransfer", 0)):
        def both(given, other):
            return lambda sc: [given(sc), other(sc), d][:2 if nm == "partialTransfer" else 3] if not rev else [other(sc), given(sc), d]
        g = lambda nat=I, **k: (lambda sc: sc.field(nat, rev, "v", **k))
        o = lambda nat=I, vals="b", **k: (lambda sc: sc.field(nat, 1 - rev, vals, **k))
        throws(nm, both(g(), o(E)), "two natures")
        throws(nm, both(g("NoNature"), o("NoNature")), "no nature")
        throws(nm, both(g(), o(nc=2)), "two numbers of components")
        throws(nm, both(g(disc=1), o()), "another discretization of the field given")
        throws(nm, both(g(), o(disc=1)), "another discretization of the field received")
        for k in (1, 5):
            m = lambda sc: sc.H.mesh(sc.st, "other", k, 2)
            throws(nm, both(lambda sc: sc.field(I, rev, "v", mesh=m(sc)), o()), "a field given on a mesh of %d cells" % k)
            throws(nm, both(g(), lambda sc: sc.field(I, 1 - rev, "b", mesh=m(sc))), "a field received on a mesh of %d cells" % k)
        if nm == "partialTransfer":
            throws(nm, both(g(), o(vals=None)), "no array to complete")
    for bad, n in (([{0: W(0, 0)}, {2: W(1, 2)}, {}], "a column outside"), ([{0: W(0, 0)}, {-1: W(1, 2)}, {}], "a negative column"),
                   ([{0: W(0, 0)}, {}], "a row missing"), ([{}, {}, {}, {}], "one row more")):
        def given(sc, bad=bad):
            l = (("matrix given",),)
            put_matrix(sc.st, l, bad)
            return [sc.sf, sc.tf, LV(l)]
        throws("setCrudeMatrixEx", given, n)


def products(B):
    for pn in PATTERNS:
        rows, ncol = pattern(pn)

        def rev():
            sc = Scene(B, rows, 1, ncols=ncol)
            a, b = (("matrix in",),), (("matrix out",),)
            put_matrix(sc.st, a, rows)
            put_matrix(sc.st, b, [])
            f, p = sc.run("ReverseMatrix", [LV(a), R.const(ncol), LV(b)], this=None)
            got = get_matrix(sc.st, b)
            want = [{i: r[j] for i, r in enumerate(rows) if j in r} for j in range(ncol)]
            if [set(x) for x in got] != [set(x) for x in want]:
                return f, "the pattern is not that of the transposed matrix"
            return f, "" if all(same(x[k], y[k], B.sign) for x, y in zip(got, want) for k in x) else "a coefficient is not that of the transposed matrix"
        B.judge("matrix", "ReverseMatrix " + pn, rev)
    # extruded meshes: product of a matrix between layers and a matrix between sections
    for p1, p2 in (("2x3", "3x2 crossed"), ("full 2x2", "2x3"), ("3x3 with an empty row", "4x2"), ("1x1", "full 2x2")):
        def conv():
            (r1, c1), (r2, c2) = pattern(p1), pattern(p2)
            r2 = [{j: W(i, j, "q") for j in r} for i, r in enumerate(r2)]
            n1, n2 = len(r1), len(r2)
            sc = Scene(B, [], 1, ncols=1)
            a, b = (("matrix 1D",),), (("matrix 2D",),)
            put_matrix(sc.st, a, r1)
            put_matrix(sc.st, b, r2)
            ps, pt = [(5 * k + 1) % (c1 * c2) if (c1 * c2) % 5 else c1 * c2 - 1 - k for k in range(c1 * c2)], \
                [n1 * n2 - 1 - k for k in range(n1 * n2)]
            raws = []
            for nm, ids in (("ids S", ps), ("ids T", pt)):
                for k, x in enumerate(ids):
                    sc.st[((nm,), ("x", R.const(k)))] = R.const(x)
                sc.st[((nm,), ("f", "#size"))] = R.const(len(ids))
                raws.append(Ptr(((nm,), ("x", V.ZERO))))
            f, p = sc.run("buildFinalInterpolationMatrixByConvolution", [LV(a), LV(b), raws[0], R.const(c2), R.const(c1), raws[1]])
            got = get_matrix(sc.st, TH + (("f", "_matrix"),))
            want = [{} for _ in range(n1 * n2)]
            for i1, x in enumerate(r1):
                for j1, v in x.items():
                    for i2, y in enumerate(r2):
                        for j2, w in y.items():
                            want[pt[i1 * n2 + i2]][ps[j1 * c2 + j2]] = v * w
            if [set(x) for x in got] != [set(x) for x in want]:
                return f, "the pattern is not that of the product of the matrices of layers and sections"
            return f, "" if all(same(x[k], y[k], B.sign) for x, y in zip(got, want) for k in x) else "a coefficient is not that of the product"
        B.judge("matrix", "extruded meshes, layers %s, sections %s" % (p1, p2), conv)


def run(P, Rp, tier):
    B = Remap(P, Rp)
    for f in (transfers, points, histories, removals, refusals, products):
        f(B)
    for rule, n in (("transfer", 80), ("reverse", 60), ("point", 8), ("history", 60), ("refused", 15), ("removal", 15), ("matrix", 5)):
        Rp.floor(rule, n)
    Rp.count("functions of the remapper", sum(map(len, B.fn.values())))

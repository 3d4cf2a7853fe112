"""P16: arithmetic on arrays computes, for every tuple and component, what is announced."""
from fractions import Fraction as Fr
from sa import values as V
from sa.bench import Bench, Point, Arr, Raw, End, Out, Vec, grid, sym, ids, same, THROWS, DBL, I64, I32, MC
from sa.values import R
from sa.checks.p12 import enum

PARTS = ["interp", "medcoupling"]
EXPLAIN = ("Each operation on arrays of values is followed through its own code - loops, standard algorithms, creation and growth of "
           "arrays - on arrays of known sizes whose values are unknown.  The values left are compared, as normal forms, with what "
           "the operation announces; sizes that do not match have to be refused.  Reads and writes outside an array or in "
           "memory given back are violations too.  One obligation per operation and sizes.")
ASSUME = ["arithmetic is exact", "arrays have at most four tuples and nine components; tests on values are decided at one point per obligation"]
ZERO, ONE = V.ZERO, V.R1
HALF = R.const(Fr(1, 2))


def g(name, nt, nc, cls=DBL):
    return Arr(nt, nc, grid(name, nt, nc), cls)


def fun(n, *a):
    return R.atom(("fun", n) + a)


def rows(a):
    return [a.vals[i * a.nc:(i + 1) * a.nc] for i in range(a.nt)]


def tab(rs, nc=None, cls=DBL):
    return Arr(len(rs), nc if nc is not None else len(rs[0]), [x for r in rs for x in r], cls)


def root(x, sign):
    V.SIGN = sign
    try:
        return V.root(x)
    finally:
        V.SIGN = None


def absolute(x, sg):
    return x if sg(x) >= 0 else -x


def bcast(op, a, b, both):
    """the result of op with the values of the smaller array repeated; None when sizes do not match"""
    if (a.nt, a.nc) == (b.nt, b.nc):
        return Arr(a.nt, a.nc, [op(x, y) for x, y in zip(a.vals, b.vals)], a.cls)
    if a.nt == b.nt and (b.nc == 1 or both and a.nc == 1):
        nc = max(a.nc, b.nc)
        return Arr(a.nt, nc, [op(a.vals[i * a.nc + (j if a.nc > 1 else 0)], b.vals[i * b.nc + (j if b.nc > 1 else 0)])
                              for i in range(a.nt) for j in range(nc)], a.cls)
    if a.nc == b.nc and (b.nt == 1 or both and a.nt == 1):
        nt = max(a.nt, b.nt)
        return Arr(nt, a.nc, [op(a.vals[(i if a.nt > 1 else 0) * a.nc + j], b.vals[(i if b.nt > 1 else 0) * b.nc + j])
                              for i in range(nt) for j in range(a.nc)], a.cls)
    return None


def binary(B):
    shapes = [((3, 2), (3, 2)), ((3, 2), (3, 1)), ((3, 1), (3, 2)), ((3, 2), (1, 2)), ((1, 2), (3, 2)), ((1, 3), (1, 1)), ((3, 1), (1, 1)),
              ((1, 1), (1, 1)), ((0, 2), (0, 2)), ((3, 2), (2, 2)), ((2, 2), (3, 2)), ((3, 2), (3, 3)), ((3, 3), (3, 2)),
              ((3, 2), (1, 3)), ((3, 2), (1, 1)), ((1, 1), (3, 2)), ((2, 1), (3, 2))]
    ops = {"Add": (lambda x, y: x + y, True), "Multiply": (lambda x, y: x * y, True), "Substract": (lambda x, y: x - y, False),
           "Divide": (lambda x, y: x / y, False)}
    eq = {"addEqual": "Add", "multiplyEqual": "Multiply", "substractEqual": "Substract", "divideEqual": "Divide"}
    for cls in (DBL, I64):
        for nm, (op, both) in ops.items():
            if cls == I64 and nm == "Divide":
                continue
            for s, t in shapes:
                a, b = g("a", *s, cls=cls), g("b", *t, cls=cls)
                w = bcast(op, a, b, both)
                B.case("binary", "%s of %dx%d and %dx%d, %s" % ((nm,) + s + t + (cls[12:],)), cls, nm, None, [a, b], w or THROWS)
        for nm, o in eq.items():
            if cls == I64 and o == "Divide":
                continue
            for s, t in shapes:
                a, b = g("a", *s, cls=cls), g("b", *t, cls=cls)
                w = bcast(ops[o][0], a, b, False)
                if w and (w.nt, w.nc) != s:
                    w = None
                B.case("binary", "%s of %dx%d by %dx%d, %s" % ((nm,) + s + t + (cls[12:],)), cls, nm, a, [b], None if w else THROWS, after=w)
    for nm, k in (("Max", 1), ("Min", -1)):
        for s, t in shapes:
            a, b = g("a", *s), g("b", *t)
            for seed in (3, 4):
                sg = Point(seed)
                w = Arr(a.nt, a.nc, [x if sg(x - y) == k else y for x, y in zip(a.vals, b.vals)]) if s == t else THROWS
                B.case("binary", "%s of %dx%d and %dx%d, order %d" % ((nm,) + s + t + (seed,)), DBL, nm, None, [a, b], w, sg)
    for s, t in shapes + [((2, 3), (2, 3)), ((3, 1), (3, 1))]:
        a, b = g("a", *s), g("b", *t)
        B.case("binary", "Dot of %dx%d and %dx%d" % (s + t), DBL, "Dot", None, [a, b],
               Arr(a.nt, 1, [sum((x * y for x, y in zip(p, q)), ZERO) for p, q in zip(rows(a), rows(b))]) if s == t else THROWS)
        w = THROWS
        if s == t and s[1] == 3:
            w = tab([(p[1] * q[2] - p[2] * q[1], p[2] * q[0] - p[0] * q[2], p[0] * q[1] - p[1] * q[0]) for p, q in zip(rows(a), rows(b))], 3)
        B.case("binary", "CrossProduct of %dx%d and %dx%d" % (s + t), DBL, "CrossProduct", None, [a, b], w)
    pos = Point(5, signed=False)
    pw = lambda x, y: R.atom(("pow", x, y))
    for s, t in (((3, 1), (3, 1)), ((3, 1), (2, 1)), ((3, 2), (3, 2)), ((3, 1), (3, 2)), ((3, 1), (1, 1))):
        a, b = g("a", *s), g("b", *t)
        ok = s == t and s[1] == 1
        w = Arr(a.nt, 1, [pw(x, y) for x, y in zip(a.vals, b.vals)]) if ok else None
        B.case("binary", "Pow of %dx%d and %dx%d" % (s + t), DBL, "Pow", None, [a, b], w or THROWS, pos)
        B.case("binary", "powEqual of %dx%d and %dx%d" % (s + t), DBL, "powEqual", a, [b], None if ok else THROWS, pos, after=w)
        if ok:
            neg = Point(5, {"a2.0": -1.5}, signed=False)
            B.case("binary", "Pow of a negative value", DBL, "Pow", None, [a, b], THROWS, neg)
            B.case("binary", "powEqual of a negative value", DBL, "powEqual", a, [b], THROWS, neg)


def det3(m):
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) +
            m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


def matrix(r):
    """the square matrix a tuple stands for"""
    if len(r) == 4:
        return [r[:2], r[2:]]
    if len(r) == 9:
        return [r[:3], r[3:6], r[6:]]
    return [[r[0], r[3], r[5]], [r[3], r[1], r[4]], [r[5], r[4], r[2]]]


def det(m):
    return det3(m) if len(m) == 3 else m[0][0] * m[1][1] - m[0][1] * m[1][0]


def inverse(r):
    m = matrix(r)
    d = det(m)
    if len(m) == 2:
        return [m[1][1] / d, -m[0][1] / d, -m[1][0] / d, m[0][0] / d]

    def cof(i, j):
        a = [[m[p][q] for q in range(3) if q != j] for p in range(3) if p != i]
        c = a[0][0] * a[1][1] - a[0][1] * a[1][0]
        return c if (i + j) % 2 == 0 else -c
    w = [[cof(j, i) / d for j in range(3)] for i in range(3)]
    if len(r) == 9:
        return [x for l in w for x in l]
    return [w[0][0], w[1][1], w[2][2], w[0][1], w[1][2], w[0][2]]


def tensors(B):
    sg = Point(2)
    for nt in (1, 3):
        for nc in (1, 2, 3, 4, 5, 6, 7, 8, 9):
            a = g("a", nt, nc)
            rs = rows(a)
            n = " of %dx%d" % (nt, nc)
            square = nc in (4, 6, 9)
            B.case("tensor", "determinant" + n, DBL, "determinant", a, [], tab([[det(matrix(r))] for r in rs]) if square else THROWS)
            B.case("tensor", "inverse" + n, DBL, "inverse", a, [], tab([inverse(r) for r in rs]) if square else THROWS)
            B.case("tensor", "trace" + n, DBL, "trace", a, [],
                   tab([[sum((matrix(r)[i][i] for i in range(len(matrix(r)))), ZERO)] for r in rs]) if square else THROWS)

            def dev(r):
                t = (r[0] + r[1] + r[2]) / R.const(3)
                return [r[0] - t, r[1] - t, r[2] - t] + r[3:]
            B.case("tensor", "deviator" + n, DBL, "deviator", a, [], tab([dev(r) for r in rs]) if nc == 6 else THROWS)
            B.case("tensor", "doublyContractedProduct" + n, DBL, "doublyContractedProduct", a, [],
                   tab([[sum((y * y for l in matrix(r) for y in l), ZERO)] for r in rs]) if nc == 6 else THROWS)
            B.case("tensor", "magnitude" + n, DBL, "magnitude", a, [], tab([[root(sum((x * x for x in r), ZERO), sg)] for r in rs]), sg)
            if nc < 4:
                B.case("tensor", "sumPerTuple" + n, DBL, "sumPerTuple", a, [], tab([[sum(r, ZERO)] for r in rs]))
                ai = g("a", nt, nc, I64)
                B.case("tensor", "sumPerTuple%s, integers" % n, I64, "sumPerTuple", ai, [], tab([[sum(r, ZERO)] for r in rows(ai)]))


def best(l, sg, k):
    b = 0
    for i in range(1, len(l)):
        if sg(l[i] - l[b]) == k:
            b = i
    return b


def reductions(B):
    for nt, nc in ((1, 1), (4, 1), (3, 2), (2, 3), (1, 3)):
        a = g("a", nt, nc)
        rs = rows(a)
        n = " of %dx%d" % (nt, nc)
        col = [[r[j] for r in rs] for j in range(nc)]
        tot = [sum(c, ZERO) for c in col]
        B.case("reduction", "accumulate" + n, DBL, "accumulate", a, [Raw([], n=nc)], None, outs={0: tot}, types=["double"])
        for j in range(nc + 1):
            B.case("reduction", "accumulate component %d%s" % (j, n), DBL, "accumulate", a, [j], tot[j] if j < nc else THROWS, types=["long|size_t|int"])
        B.case("reduction", "getAverageValue" + n, DBL, "getAverageValue", a, [], tot[0] / R.const(nt) if nc == 1 else THROWS)
        B.case("reduction", "cumSum" + n, DBL, "cumSum", a, [],
               tab([[sum(col[0][:i], ZERO)] for i in range(nt + 1)]) if nc == 1 else THROWS)
        for seed in (1, 2, 3):
            sg = Point(seed)
            m = n + ", order %d" % seed
            ab = [absolute(x, sg) for x in a.vals]
            B.case("reduction", "norm2" + m, DBL, "norm2", a, [], root(sum((x * x for x in a.vals), ZERO), sg), sg)
            B.case("reduction", "normMax" + m, DBL, "normMax", a, [], ab[best(ab, sg, 1)], sg)
            B.case("reduction", "normMin" + m, DBL, "normMin", a, [], ab[best(ab, sg, -1)], sg)
            B.case("reduction", "normMaxPerComponent" + m, DBL, "normMaxPerComponent", a, [Raw([], n=nc)], None, sg,
                   outs={0: [absolute(c[best([absolute(x, sg) for x in c], sg, 1)], sg) for c in col]})
            B.case("reduction", "getMinMaxPerComponent" + m, DBL, "getMinMaxPerComponent", a, [Raw([], n=2 * nc)], None, sg,
                   outs={0: [x for c in col for x in (c[best(c, sg, -1)], c[best(c, sg, 1)])]})
            B.case("reduction", "maxPerTuple" + m, DBL, "maxPerTuple", a, [], tab([[r[best(r, sg, 1)]] for r in rs]), sg)
            B.case("reduction", "minPerTuple" + m, DBL, "minPerTuple", a, [], tab([[r[best(r, sg, -1)]] for r in rs]), sg)
            B.case("reduction", "maxPerTupleWithCompoId" + m, DBL, "maxPerTupleWithCompoId", a, [Out()], tab([[r[best(r, sg, 1)]] for r in rs]), sg,
                   outs={0: tab([[R.const(best(r, sg, 1))] for r in rs])})
            for cls in (DBL, I64):
                b = g("a", nt, nc, cls)
                for nm, k in (("getMaxValue", 1), ("getMinValue", -1)):
                    i = best(b.vals, sg, k)
                    B.case("reduction", "%s%s, %s" % (nm, m, cls[12:]), cls, nm, b, [Out()], b.vals[i] if nc == 1 else THROWS, sg,
                           outs={0: i} if nc == 1 else None)
                    B.case("reduction", "%sInArray%s, %s" % (nm, m, cls[12:]), cls, nm + "InArray", b, [], b.vals[i], sg)
                B.case("reduction", "getMaxAbsValue%s, %s" % (m, cls[12:]), cls, "getMaxAbsValue", b, [Out()],
                       b.vals[best(ab, sg, 1)] if nc == 1 else THROWS, sg, outs={0: best(ab, sg, 1)} if nc == 1 else None)
                B.case("reduction", "computeAbs%s, %s" % (m, cls[12:]), cls, "computeAbs", b, [], Arr(nt, nc, ab), sg)
                B.case("reduction", "abs%s, %s" % (m, cls[12:]), cls, "abs", b, [], None, sg, after=Arr(nt, nc, ab))
    a = g("a", 4, 2)
    rs = rows(a)
    for idx in ([0, 4], [0, 1, 4], [0, 2, 2, 3, 4], [1, 3], [2, 2], [0, 5], [0, 3, 2], [4, 4], [-1, 2], [0]):
        k = Raw(idx)
        ok = all(x <= y for x, y in zip(idx, idx[1:])) and 0 <= idx[0] < 4 and idx[-1] <= 4
        w = THROWS
        if ok:
            w = tab([[sum((r[j] for r in rs[x:y]), ZERO) for j in range(2)] for x, y in zip(idx, idx[1:])], 2)
        if idx != [4, 4]:
            B.case("reduction", "accumulatePerChunck by %s" % idx, DBL, "accumulatePerChunck", a, [k, End(0)], w)


def elementwise(B):
    x, y = sym("x"), sym("y")
    for nt, nc in ((3, 2), (1, 1), (2, 3)):
        a = g("a", nt, nc)
        n = " of %dx%d" % (nt, nc)
        B.case("elementwise", "applyLin" + n, DBL, "applyLin", a, [x, y], None, after=Arr(nt, nc, [x * v + y for v in a.vals]))
        for j in range(nc + 1):
            B.case("elementwise", "applyLin on component %d%s" % (j, n), DBL, "applyLin", a, [x, y, j], None if j < nc else THROWS,
                   after=Arr(nt, nc, [x * v + y if i % nc == j else v for i, v in enumerate(a.vals)]))
        B.case("elementwise", "applyInv" + n, DBL, "applyInv", a, [x], None, after=Arr(nt, nc, [x / v for v in a.vals]))
        B.case("elementwise", "negate" + n, DBL, "negate", a, [], Arr(nt, nc, [-v for v in a.vals]))
        B.case("elementwise", "computeBBoxPerTuple" + n, DBL, "computeBBoxPerTuple", a, [x], Arr(nt, 2 * nc, [w for v in a.vals for w in (v - x, v + x)]))
        pos = Point(5, signed=False)
        B.case("elementwise", "applyPow of 3" + n, DBL, "applyPow", a, [3], None, after=Arr(nt, nc, [v * v * v for v in a.vals]))
        B.case("elementwise", "applyRPow" + n, DBL, "applyRPow", a, [x], None, pos, after=Arr(nt, nc, [R.atom(("pow", x, v)) for v in a.vals]))
        B.case("elementwise", "fillWithValue" + n, DBL, "fillWithValue", a, [x], None, after=Arr(nt, nc, [x] * (nt * nc)))
        B.case("elementwise", "fillWithZero" + n, DBL, "fillWithZero", a, [], None, after=Arr(nt, nc, [ZERO] * (nt * nc)))
        for cls in (DBL, I64):
            b = g("a", nt, nc, cls)
            B.case("elementwise", "iota%s, %s" % (n, cls[12:]), cls, "iota", b, [x], None if nc == 1 else THROWS,
                   after=Arr(nt, nc, [x + R.const(i) for i in range(nt)]) if nc == 1 else None)
        i = g("a", nt, nc, I64)
        B.case("elementwise", "negate, integers" + n, I64, "negate", i, [], Arr(nt, nc, [-v for v in i.vals]))
        B.case("elementwise", "applyLin, integers" + n, I64, "applyLin", i, [x, y], None, after=Arr(nt, nc, [x * v + y for v in i.vals]))
    a = g("a", 3, 2)
    for j in range(6):
        z = Point(1, {"a%d.%d" % divmod(j, 2): 0.})
        B.case("elementwise", "applyInv with a zero at %d" % j, DBL, "applyInv", a, [x], THROWS, z)
    B.case("elementwise", "applyRPow of a negative value", DBL, "applyRPow", a, [x], THROWS, Point(1, {"x": -.5}))
    a = g("a", 4, 1, I64)
    B.case("elementwise", "computeOffsets", I64, "computeOffsets", a, [], None, after=tab([[sum(a.vals[:i], ZERO)] for i in range(4)]))
    B.case("elementwise", "computeOffsetsFull", I64, "computeOffsetsFull", a, [], None, after=tab([[sum(a.vals[:i], ZERO)] for i in range(5)]))
    B.case("elementwise", "deltaShiftIndex", I64, "deltaShiftIndex", a, [], tab([[y - x] for x, y in zip(a.vals, a.vals[1:])]))
    for nm in ("computeOffsets", "computeOffsetsFull", "deltaShiftIndex"):
        B.case("elementwise", "%s of 3x2" % nm, I64, nm, g("a", 3, 2, I64), [], THROWS)
    for nt in (2, 3):
        a = g("a", nt, 2)
        sg = Point(1)
        d = lambda p, q: root(sum(((x - y) * (x - y) for x, y in zip(p, q)), ZERO), sg)
        B.case("elementwise", "buildEuclidianDistanceDenseMatrix of %d" % nt, DBL, "buildEuclidianDistanceDenseMatrix", a, [],
               tab([[d(p, q) if i != j else ZERO] for i, p in enumerate(rows(a)) for j, q in enumerate(rows(a))]), sg)
        for k in (1, 2, 3, 4):
            b = g("b", k, 2)
            B.case("elementwise", "buildEuclidianDistanceDenseMatrixWith of %d and %d" % (nt, k), DBL, "buildEuclidianDistanceDenseMatrixWith", a, [b],
                   tab([[d(p, q)] for q in rows(b) for p in rows(a)]), sg)
        B.case("elementwise", "buildEuclidianDistanceDenseMatrixWith another number of components, %d" % nt, DBL,
               "buildEuclidianDistanceDenseMatrixWith", a, [g("b", 3, 3)], THROWS, sg)


def coordinates(B):
    sg = Point(7, signed=False)
    for nc in (1, 2, 3, 4):
        a = g("a", 2, nc)
        rs = rows(a)
        n = " of 2x%d" % nc

        def when(k, f):
            return tab([f(*r) for r in rs]) if nc == k else THROWS
        pol = lambda r, t, *z: [r * fun("cos", t), r * fun("sin", t)] + list(z)
        sph = lambda r, t, p: [r * fun("cos", p) * fun("sin", t), r * fun("sin", p) * fun("sin", t), r * fun("cos", t)]
        B.case("coordinates", "fromPolarToCart" + n, DBL, "fromPolarToCart", a, [], when(2, pol))
        B.case("coordinates", "fromCylToCart" + n, DBL, "fromCylToCart", a, [], when(3, pol))
        B.case("coordinates", "fromSpherToCart" + n, DBL, "fromSpherToCart", a, [], when(3, sph))
        ax = enum(B.P, "MEDCouplingAxisType")
        B.case("coordinates", "cartesianize, cartesian" + n, DBL, "cartesianize", a, [ax["AX_CART"]], a)
        B.case("coordinates", "cartesianize, cylindrical" + n, DBL, "cartesianize", a, [ax["AX_CYL"]], when(nc, pol) if nc in (2, 3) else THROWS)
        B.case("coordinates", "cartesianize, spherical" + n, DBL, "cartesianize", a, [ax["AX_SPHER"]],
               when(2, pol) if nc == 2 else when(3, sph))
        nrm = lambda *v: root(sum((x * x for x in v), ZERO), sg)
        cyl = lambda x, y, *z: [nrm(x, y), fun("atan2", y, x)] + list(z)
        csp = lambda x, y, z: [nrm(x, y, z), fun("acos", z / nrm(x, y, z)), fun("atan2", y, x)]
        B.case("coordinates", "fromCartToPolar" + n, DBL, "fromCartToPolar", a, [], when(2, cyl), sg)
        B.case("coordinates", "fromCartToCyl" + n, DBL, "fromCartToCyl", a, [], when(3, cyl), sg)
        B.case("coordinates", "fromCartToSpher" + n, DBL, "fromCartToSpher", a, [], when(3, csp), sg)
    for seed in (1, 2):
        sg = Point(seed)
        ax, ce = grid("w", 1, 3), grid("c", 1, 3)
        a, x = g("a", 2, 3), g("x", 2, 3)
        cr3 = lambda u, v: [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
        dt3 = lambda u, v: sum((p * q for p, q in zip(u, v)), ZERO)
        un = lambda u: [p / root(dt3(u, u), sg) for p in u]
        out = []
        for f, r in zip(rows(a), rows(x)):
            z = un(ax)
            th = un(cr3(z, [p - q for p, q in zip(r, ce)]))
            out += [dt3(cr3(th, z), f), dt3(th, f), dt3(z, f)]
        B.case("coordinates", "fromCartToCylGiven, order %d" % seed, DBL, "fromCartToCylGiven", a, [x, Raw(ce), Raw(ax)], Arr(2, 3, out), sg)
    a = g("a", 2, 3)
    v = grid("w", 1, 3)
    for nm, b, c in (("other coordinates of 3x3", g("a", 2, 3), g("x", 3, 3)), ("coordinates of 2x2", a, g("x", 2, 2)), ("fields of 2x2", g("a", 2, 2), g("x", 2, 3))):
        B.case("coordinates", "fromCartToCylGiven, " + nm, DBL, "fromCartToCylGiven", b, [c, Raw(v), Raw(v)], THROWS, sg)
    B.case("coordinates", "fromCartToCylGiven about no vector", DBL, "fromCartToCylGiven", a, [g("x", 2, 3), Raw(v), Raw([0, 0, 0])], THROWS, sg)
    t = sym("t")
    c, s = fun("cos", t), fun("sin", t)
    a = g("a", 2, 2)
    q = grid("c", 1, 2)
    B.case("coordinates", "Rotate2DAlg", DBL, "Rotate2DAlg", None, [Raw(q), t, 2, Raw(a.vals), Raw([], n=4)], None, sg,
           outs={4: [x for r in rows(a) for x in (q[0] + c * (r[0] - q[0]) - s * (r[1] - q[1]), q[1] + s * (r[0] - q[0]) + c * (r[1] - q[1]))]})
    a = g("a", 2, 3)
    q = grid("c", 1, 3)
    v = grid("v", 1, 3)

    def rot(r, u):
        d = [x - y for x, y in zip(r, q)]
        dt = sum((x * y for x, y in zip(u, d)), ZERO)
        cr = (u[1] * d[2] - u[2] * d[1], u[2] * d[0] - u[0] * d[2], u[0] * d[1] - u[1] * d[0])
        return [q[i] + c * d[i] + s * cr[i] + (ONE - c) * dt * u[i] for i in range(3)]
    nv = root(sum((x * x for x in v), ZERO), sg)
    B.case("coordinates", "Rotate3DAlg", DBL, "Rotate3DAlg", None, [Raw(q), Raw(v), t, 2, Raw(a.vals), Raw([], n=6)], None, sg,
           outs={5: [x for r in rows(a) for x in rot(r, [y / nv for y in v])]})
    B.case("coordinates", "Rotate3DAlg about no vector", DBL, "Rotate3DAlg", None, [Raw(q), Raw([0, 0, 0]), t, 2, Raw(a.vals), Raw([], n=6)], THROWS, sg)

    def mirror(r):
        k = sum((x * (y - z) for x, y, z in zip(v, r, q)), ZERO) / sum((x * x for x in v), ZERO)
        return [x - k * y - k * y for x, y in zip(r, v)]
    for seed in (1, 2, 3, 4, 5):
        p = Point(seed)
        B.case("coordinates", "Symmetry3DPlane, order %d" % seed, DBL, "Symmetry3DPlane", None, [Raw(q), Raw(v), 2, Raw(a.vals), Raw([], n=6)], None, p,
               outs={4: [x for r in rows(a) for x in mirror(r)]})


def searches(B):
    """ids of the values in a range, the bounds being values of the array"""
    lo, hi = sym("lo"), sym("hi")
    at = {"lo": 1., "hi": 3., "u": .5, "m": 2., "o": 4.}
    vals = [sym("m"), lo, sym("u"), hi, sym("o"), lo, sym("m")]
    num = [2., 1., .5, 3., 4., 1., 2.]
    sg = Point(1, at)
    for cls in (DBL, I64):
        a = Arr(7, 1, vals, cls)
        k = 0 if cls == DBL else 1
        tests = {"findIdsInRange": ([lo, hi], (lambda x: 1 <= x <= 3) if cls == DBL else (lambda x: 1 <= x < 3)),
                 "findIdsNotInRange": ([lo, hi], (lambda x: x < 1 or x > 3) if cls == DBL else (lambda x: x < 1 or x >= 3)),
                 "findIdsGreaterThan": ([lo], lambda x: x > 1), "findIdsGreaterOrEqualTo": ([lo], lambda x: x >= 1),
                 "findIdsLowerThan": ([hi], lambda x: x < 3), "findIdsLowerOrEqualTo": ([hi], lambda x: x <= 3),
                 "findIdsStrictlyNegative": ([], lambda x: False)}
        if cls == I64:
            tests.update({"findIdsEqual": ([lo], lambda x: x == 1), "findIdsNotEqual": ([lo], lambda x: x != 1)})
        for nm, (args, t) in tests.items():
            w = [i for i, x in enumerate(num) if t(x)]
            B.case("search", "%s, %s" % (nm, cls[12:]), cls, nm, a, args, Arr(len(w), 1, w), sg)
            B.case("search", "%s, %s, two components" % (nm, cls[12:]), cls, nm, Arr(3, 2, vals[:6], cls), args, THROWS, sg)
        sg2 = Point(1, {k: -v for k, v in at.items()})
        B.case("search", "findIdsStrictlyNegative of negative values, %s" % cls[12:], cls, "findIdsStrictlyNegative", a, [], Arr(7, 1, list(range(7))), sg2)
    a = Arr(7, 1, vals, I64)
    B.case("search", "count of a value", I64, "count", a, [lo], 2, sg)
    B.case("search", "changeValue", I64, "changeValue", a, [lo, sym("z")], None if False else 2, sg,
           after=Arr(7, 1, [sym("z") if v is lo else v for v in vals]))
    B.case("search", "findIdFirstEqual", I64, "findIdFirstEqual", a, [hi], 3, sg)
    B.case("search", "findIdFirstEqual of a value that is not there", I64, "findIdFirstEqual", a, [sym("zz")], -1, Point(1, dict(at, zz=9.)))
    x = grid("t", 1, 2)
    for seed in (1, 2, 3):
        p = Point(seed)
        b = g("a", 4, 2)
        ds = [sum(((u - v) * (u - v) for u, v in zip(r, x)), ZERO) for r in rows(b)]
        i = best(ds, p, -1)
        B.case("search", "distanceToTuple, order %d" % seed, DBL, "distanceToTuple", b, [Raw(x), End(0), Out()], root(ds[i], p), p, outs={2: i})
    b = g("a", 3, 2)
    b = Arr(5, 2, b.vals[:2] + b.vals[2:4] + b.vals[4:6] + b.vals[2:4] + b.vals[4:6])
    for seed in (1, 2, 3):
        p = Point(seed)
        ds = [sum(((u - v) * (u - v) for u, v in zip(r, x)), ZERO) for r in rows(b)[:3]]
        i = best(ds, p, -1)
        B.case("search", "distanceToTuple, repeated tuples, order %d" % seed, DBL, "distanceToTuple", b, [Raw(x), End(0), Out()], root(ds[i], p), p, outs={2: i})
    B.case("search", "distanceToTuple with another number of components", DBL, "distanceToTuple", g("a", 4, 3), [Raw(x), End(0), Out()], THROWS)


def run(P, Rp, tier):
    B = Bench(P, Rp)
    for f in (binary, tensors, reductions, elementwise, coordinates, searches):
        f(B)
    for rule, n in (("binary", 180), ("tensor", 60), ("reduction", 180), ("elementwise", 30), ("coordinates", 20), ("search", 20)):
        Rp.floor(rule, n)
    Rp.count("functions of the classes of arrays", len(B.byname))

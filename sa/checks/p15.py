"""P15: the measure and the centre of a cell are those of the shape its nodes draw."""
import random, re
from fractions import Fraction as Fr
from sa import core, values as V
from sa.checks.p12 import enum, only, fs, HEXGP
from sa.values import R

PARTS = ["interp", "medcoupling"]
EXPLAIN = ("Polynomial propagation through the code that gives lengths, areas, volumes and centres of cells, for every cell "
           "type and space dimension: nodes are unknown, or the image of a reference shape (convex or not, with repeated or "
           "aligned nodes) by an unknown affine map, an unknown scaling and translation for centres of polyhedra.  The value "
           "returned is compared, as a normal form, with the integral over the shape.  One obligation per type, dimension and shape.")
ASSUME = ["arithmetic is exact; square roots of constants agree within 1e-9",
          "tests of the size of a cell against a threshold are decided for cells of sizes about 1 and 1e-8 (orientation: about 1)",
          "curved cells of the plane are judged by P13 and by their straight counterparts only"]
IK = "INTERP_KERNEL::"
EPS = Fr(1, 10 ** 9)
CONN, COO, RES = ("conn",), ("coords",), ("res",)


def sym(n):
    return R.atom(("p", n))


class Sign:
    """signs of values at one generic point of the family"""

    def __init__(self, seed, scale=1.0):
        r = random.Random(seed)
        self.r = r
        self.scale = scale
        self.env = {}

    def val(self, a):
        v = self.env.get(a)
        if v is None:
            if a[0] == "sqrt":
                v = max(self.num(a[1]), 0.0) ** 0.5
            elif a[0] == "abs":
                v = abs(self.num(a[1]))
            elif a[0] == "limit":
                v = 1e-300 if a[1].endswith("min") else 2e-16
            elif a[0] == "p":
                v = self.scale * self.r.uniform(0.6, 1.9) * (1 if a in V.POSITIVE or self.r.random() < .5 else -1)
            elif a[0] == "in" and re.search("recision|EPS", str(a[1])):
                v = 1e-14
            elif a[0] == "cmp":
                x = self.num(a[2]) - self.num(a[3])
                v = float(x < 0 if a[1] == "<" else x == 0)
            elif a[0] == "not":
                v = float(not self.num(a[1]))
            else:
                raise V.TooDeep("sign of %s" % (a,))
            self.env[a] = v
        return v

    def num(self, x):
        def p(q):
            t = 0.0
            for m, k in q.items():
                u = float(k)
                for i, e in m:
                    u *= self.val(V.ATOMS[i]) ** e
                t += u
            return t
        return p(x.num) / (p(x.den) if x.den else 1.0)

    def __call__(self, x):
        v = self.num(x)
        return (v > 0) - (v < 0)

    def decide(self, x):
        return bool(self.num(x))


class Run:
    def __init__(self, P, R_):
        self.P, self.R = P, R_
        self.types = enum(P, "NormalizedCellType")
        self.vol = only(fs(P, re.escape(IK) + r"computeVolSurfOfCell2<\w+, INTERP_KERNEL::ALL_C_MODE>\("), "computeVolSurfOfCell2")
        self.bary = only(fs(P, re.escape(IK) + r"computeBarycenter2<\w+, INTERP_KERNEL::ALL_C_MODE>\("), "computeBarycenter2")

    def go(self, f, t, conn, X, dim, sign, res=None):
        """value returned, values stored in res, or the exception"""
        init = {}
        for i, c in enumerate(conn):
            init[(CONN, ("x", R.const(i)))] = R.const(c)
        for n, x in X.items():
            for k in range(dim):
                init[(COO, ("x", R.const(n * dim + k)))] = x[k]
        size = ("f", "#size")
        init[(CONN, size)] = R.const(len(conn))
        init[(RES, size)] = R.const(res or 0)
        init[(COO, size)] = R.const((max(X) + 1) * dim)
        V.SIGN = sign
        I = V.Interp(self.P, decide=sign.decide, maxpaths=8)
        args = [R.const(self.types[t]), V.Ptr((CONN, ("x", V.ZERO))), R.const(len(conn)), V.Ptr((COO, ("x", V.ZERO))), R.const(dim)]
        if res:
            args.append(V.Ptr((RES, ("x", V.ZERO))))
        try:
            ps = I.paths(f, args, init=init)
        finally:
            V.SIGN = None
        if len(ps) != 1:
            raise V.TooDeep("%d paths" % len(ps))
        p = ps[0]
        if p.thrown:
            return "throws"
        if I.outside:
            (place, i, n, w), g = sorted(I.outside.items(), key=str)[0]
            return "an array of %d values is %s at %d in %s" % (n, "written" if w else "read", i, getattr(g, "name", str(g)).split("(")[0])
        if res:
            return [p.store.get((RES, ("x", R.const(k)))) for k in range(res)]
        return p.ret

    def judge(self, rule, key, f, t, conn, X, dim, want, sign, res=None):
        try:
            got = self.go(f, t, conn, X, dim, sign, res)
        except V.TooDeep as e:
            self.R.skip("%s %s" % (rule, key), "not followed: %s" % e)
            return
        if isinstance(got, str):
            if want is None:
                return
            self.R.ob(rule, key, False, f.loc(), "%s: %s" % (key, got))
            return
        g = got if res else [got]
        w = want if res else [want]
        why = next((m for m in map(V.murky, g) if m), None)
        if why:
            self.R.skip("%s %s" % (rule, key), "not followed: %s" % why)
            return
        bad = [k for k in range(len(w)) if not (isinstance(g[k], R) and same(g[k], w[k], sign))]
        self.R.ob(rule, key, not bad, f.loc(), "%s: %s is not that of the shape" % (
            key, "coordinate %s of the centre" % "xyz"[bad[0]] if bad and res else "the measure"))


def same(a, b, sign):
    return V.equal(a, b, sign, EPS)


# ------------------------------------------------------------------ integrals over shapes
def cross2(a, b):
    return a[0] * b[1] - a[1] * b[0]


def poly2(pts):
    """twice the signed area and the centre times that, of a polygon of the plane"""
    n = len(pts)
    z = pts[0][0] - pts[0][0]
    A, cx, cy = z, z, z
    for i in range(n):
        p, q = pts[i], pts[(i + 1) % n]
        c = cross2(p, q)
        A = A + c
        cx = cx + c * (p[0] + q[0])
        cy = cy + c * (p[1] + q[1])
    return A, cx, cy


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def dot(a, b):
    return sum((x * y for x, y in zip(a[1:], b[1:])), a[0] * b[0])


def polyhedron(X, faces):
    """volume and centre of a polyhedron with plane faces, turned outwards"""
    V6, C = Fr(0), [Fr(0)] * 3
    for f in faces:
        for i in range(1, len(f) - 1):
            a, b, c = X[f[0]], X[f[i]], X[f[i + 1]]
            v = dot(a, cross(b, c))
            V6 += v
            C = [x + v * (p + q + r) for x, p, q, r in zip(C, a, b, c)]
    return V6 / 6, [x / (4 * V6) for x in C]


def plane(X, faces):
    for f in faces:
        n = [Fr(0)] * 3
        for i in range(1, len(f) - 1):
            n = [x + y for x, y in zip(n, cross(sub(X[f[i]], X[f[0]]), sub(X[f[i + 1]], X[f[0]])))]
        if any(dot(n, sub(X[i], X[f[0]])) for i in f):
            return False
    return True


def ruled(X, faces):
    """six times the volume inside faces that are triangles or bilinear patches: the mean of the two ways to cut each"""
    h = R.const(Fr(1, 2))
    t = V.ZERO
    for f in faces:
        if len(f) == 3:
            t = t + dot(X[f[0]], cross(X[f[1]], X[f[2]]))
        else:
            for g in (f, rot(f, 1)):
                t = t + h * (dot(X[g[0]], cross(X[g[1]], X[g[2]])) + dot(X[g[0]], cross(X[g[2]], X[g[3]])))
    return t


# shapes: nodes and faces, turned outwards
def Q(*pts):
    return [tuple(Fr(c) for c in p) for p in pts]


TETRA = (Q((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)), [(0, 2, 1), (0, 1, 3), (1, 2, 3), (2, 0, 3)])
PYRA = (Q((1, 0, 0), (0, 1, 0), (-1, 0, 0), (0, -1, 0), (0, 0, 1)), [(3, 2, 1, 0), (0, 1, 4), (1, 2, 4), (2, 3, 4), (3, 0, 4)])
PENTA = (Q((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (0, 1, 1)),
         [(0, 2, 1), (3, 4, 5), (0, 1, 4, 3), (1, 2, 5, 4), (2, 0, 3, 5)])
HEXA = (Q((0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)),
        [(0, 3, 2, 1), (4, 5, 6, 7), (0, 1, 5, 4), (1, 2, 6, 5), (2, 3, 7, 6), (3, 0, 4, 7)])
HEX12 = (Q(*[(x, y, 0) for x, y in HEXGP] + [(x, y, 1) for x, y in HEXGP]),
         [(5, 4, 3, 2, 1, 0), (6, 7, 8, 9, 10, 11)] + [(i, (i + 1) % 6, 6 + (i + 1) % 6, 6 + i) for i in range(6)])
ELL = Q((0, 0), (3, 0), (3, 1), (1, 1), (1, 3), (0, 3))
LPRISM = (Q(*[(x, y, 0) for x, y in ELL] + [(x, y, 2) for x, y in ELL]),
          [(5, 4, 3, 2, 1, 0), (6, 7, 8, 9, 10, 11)] + [(i, (i + 1) % 6, 6 + (i + 1) % 6, 6 + i) for i in range(6)])
BASE = [(0, 0), (4, 0), (3, 2), (0, 3)]
SKEW = (Q(*[(x, y, 0) for x, y in BASE][::-1] + [(1, 2, 3)]), PYRA[1])
FRUSTUM = (Q(*[(x, y, 0) for x, y in BASE] + [(Fr(x + 1, 2), Fr(y + 2, 2), Fr(3, 2)) for x, y in BASE]), HEXA[1])
TAPER = (Q((0, 0, 0), (4, 0, 0), (1, 3, 0), (0, 0, 1), (2, 0, 2), (Fr(1, 2), Fr(3, 2), 2)), PENTA[1])
# orientations: identity, turned upside down, oblique with rational entries, sheared
TURNS = [("", ((1, 0, 0), (0, 1, 0), (0, 0, 1))),
         (" turned", ((0, 1, 0), (0, 0, 1), (1, 0, 0))),
         (" oblique", ((2, 1, -1), (0, 3, 1), (1, -1, 2))),
         (" slightly tilted", ((1, 0, 0), (0, 1, 0), (Fr(1, 200), Fr(-1, 300), 1))),
         (" barely tilted", ((1, 0, 0), (0, 1, 0), (Fr(1, 10 ** 6), Fr(1, 10 ** 6), 1)))]
FLAT = [("convex quadrangle", Q((0, 0), (2, 0), (3, 2), (0, 1))), ("hollow quadrangle", Q((0, 0), (3, 0), (Fr(1, 2), Fr(1, 2)), (0, 3))),
        ("deep quadrangle", Q((0, 0), (4, 0), (Fr(1, 4), Fr(1, 2)), (0, 3))),
        ("quadrangle with two equal nodes", Q((0, 0), (2, 0), (2, 0), (0, 1)))]
FLATN = [("triangle", Q((0, 0), (1, 0), (0, 1))), ("pentagon with aligned nodes", Q((0, 0), (2, 0), (3, 1), (2, 2), (1, 1))), ("L", ELL),
         ("arrow", Q((0, 0), (4, -1), (1, 0), (4, 1))),
         ("comb", Q((0, 0), (5, 0), (5, 3), (4, 3), (4, 1), (3, 1), (3, 3), (2, 3), (2, 1), (1, 1), (1, 3), (0, 3)))]


def rot(l, k):
    return l[k:] + l[:k]


def run(P, R_, tier):
    from sa.checks import p15m
    V.POSITIVE.clear()
    V.POSITIVE.add(("p", "lam"))
    V.ROOTS.setdefault(-1, {})
    W = Run(P, R_)
    shuffle = [7, 2, 11, 4, 9, 0, 13, 5, 10, 3, 8, 1, 6, 12, 20, 16, 15, 19, 14, 18, 17, 23, 22, 21, 25, 24, 27, 26]
    half = R.const(Fr(1, 2))

    def nodes(l):
        """coordinates by node number, and the connectivity, numbers being scattered"""
        ids = [shuffle[i] for i in range(len(l))]
        return ids, dict(zip(ids, l))

    # ---- segments, any nodes
    for dim in (1, 2, 3):
        pts = [[sym("%s%d" % (c, i)) for c in "xyz"[:dim]] for i in range(4)]
        for t, n in (("NORM_SEG2", 2), ("NORM_SEG4", 4), ("NORM_SEG3", 3)):
            sg = Sign(dim)
            if t == "NORM_SEG3":
                pts = pts[:2] + [[(x + y) * half for x, y in zip(*pts[:2])]]
            ids, X = nodes(pts[:n])
            d = sub(pts[1], pts[0])
            V.SIGN = sg
            want = d[0] if dim == 1 else V.root(dot(d, d))
            V.SIGN = None
            W.judge("measure", "%s in %dD" % (t, dim), W.vol, t, ids, X, dim, want, sg)
            W.judge("centre", "%s in %dD" % (t, dim), W.bary, t, ids, X, dim, [(a + b) * half for a, b in zip(pts[0], pts[1])], sg, dim)
    # ---- polygons of the plane, any nodes
    for t, n in (("NORM_TRI3", 3), ("NORM_QUAD4", 4), ("NORM_POLYGON", 3), ("NORM_POLYGON", 4), ("NORM_POLYGON", 5), ("NORM_POLYGON", 7)):
        sg = Sign(n)
        pts = [[sym("%s%d" % (c, i)) for c in "xy"] for i in range(n)]
        ids, X = nodes(pts)
        A, cx, cy = poly2(pts)
        key = "%s of %d nodes in 2D" % (t, n)
        W.judge("measure", key, W.vol, t, ids, X, 2, -A * half, sg)
        W.judge("centre", key, W.bary, t, ids, X, 2, [cx / (A * R.const(3)), cy / (A * R.const(3))], sg, 2)
    # ---- quadratic cells of the plane with straight edges, any corners
    for t, n, m in (("NORM_TRI6", 3, 6), ("NORM_TRI7", 3, 7), ("NORM_QUAD8", 4, 8), ("NORM_QUAD9", 4, 9), ("NORM_QPOLYG", 5, 10)):
        sg = Sign(n)
        pts = [[sym("%s%d" % (c, i)) for c in "xy"] for i in range(n)]
        A, cx, cy = poly2(pts)
        q = pts + [[(x + y) * half for x, y in zip(pts[i], pts[(i + 1) % n])] for i in range(n)] + [[sym("xc"), sym("yc")]] * (m - 2 * n)
        ids, X = nodes(q)
        key = "%s with straight edges in 2D" % t
        W.judge("measure", key, W.vol, t, ids, X, 2, -A * half, sg)
        if t != "NORM_QUAD9":
            W.judge("centre", key, W.bary, t, ids, X, 2, [cx / (A * R.const(3)), cy / (A * R.const(3))], sg, 2)
    # ---- plane cells in space, by any affine map
    a, b, o = ([sym(k + c) for c in "xyz"] for k in "abo")
    N = cross(a, b)
    for nm, sh in FLAT + FLATN:
        n = len(sh)
        ts = [("NORM_POLYGON", n), ("NORM_QPOLYG", 2 * n)]
        if n == 3:
            ts += [("NORM_TRI3", 3), ("NORM_TRI6", 6), ("NORM_TRI7", 7)]
        if n == 4:
            ts += [("NORM_QUAD4", 4), ("NORM_QUAD8", 8), ("NORM_QUAD9", 9)]
        for t, m in ts:
            for k in range(n if n < 5 else 2):
                q = rot(sh, k)
                q = q + [tuple((x + y) / 2 for x, y in zip(q[i], q[(i + 1) % n])) for i in range(n)] if m > n else q
                if m > 2 * n:
                    q = q + [tuple(sum(p[j] for p in sh) / n for j in range(2))]
                A, cx, cy = poly2(sh)
                sg = Sign(n + k, 1 if (n + k) % 2 else 1e-8)
                img = [[x * R.const(p[0]) + y * R.const(p[1]) + z for x, y, z in zip(a, b, o)] for p in q]
                ids, X = nodes(img)
                V.SIGN = sg
                S = V.root(dot(N, N)) * R.const(abs(A) / 2)
                V.SIGN = None
                key = "%s, %s from node %d, in 3D" % (t, nm, k)
                W.judge("measure", key, W.vol, t, ids, X, 3, S, sg)
                c = (cx / (3 * A), cy / (3 * A))
                if t in ("NORM_QUAD9",):
                    continue
                W.judge("centre", key, W.bary, t, ids, X, 3, [x * R.const(c[0]) + y * R.const(c[1]) + z for x, y, z in zip(a, b, o)], sg, 3)
    solids(W, R_, nodes)
    p15m.run(W, R_)
    R_.floor("measure", 60)
    R_.floor("centre", 60)


def poly_conn(faces, ids):
    c = []
    for f in faces:
        c += ([-1] if c else []) + [ids[i] for i in f]
    return c


def solids(W, R_, nodes):
    cols = [[sym(k + c) for c in "xyz"] for k in "abc"]
    o = [sym("o" + c) for c in "xyz"]
    det = dot(cols[0], cross(cols[1], cols[2]))
    lam = sym("lam")
    mids = {"NORM_TETRA10": 6, "NORM_PYRA13": 8, "NORM_PENTA15": 9, "NORM_PENTA18": 12, "NORM_HEXA20": 12, "NORM_HEXA27": 19}
    for nm, sh, ts in (("tetrahedron", TETRA, ("NORM_TETRA4", "NORM_TETRA10")), ("pyramid", PYRA, ("NORM_PYRA5", "NORM_PYRA13")),
                       ("prism", PENTA, ("NORM_PENTA6", "NORM_PENTA15", "NORM_PENTA18")),
                       ("hexahedron", HEXA, ("NORM_HEXA8", "NORM_HEXA20", "NORM_HEXA27")), ("hexagonal prism", HEX12, ("NORM_HEXGP12",)),
                       ("skew pyramid", SKEW, ("NORM_PYRA5",)), ("frustum", FRUSTUM, ("NORM_HEXA8",)), ("tapered prism", TAPER, ("NORM_PENTA6",)),
                       ("L prism", LPRISM, ())):
        pts, faces = sh
        v, c = polyhedron(pts, faces)
        img = [[sum((x[k] * R.const(p[j]) for j, x in enumerate(cols)), o[k]) for k in range(3)] for p in pts]
        for t in ts + ("NORM_POLYHED",):
            for s in (1, 2):
                sg = Sign(40 + s, 1 if s == 1 else 1e-8)
                ids, X = nodes(img + [[sym("m%s%d" % (c_, i)) for c_ in "xyz"] for i in range(mids.get(t, 0))])
                # cells of the catalogue have their faces turned inwards, the polyhedron here outwards
                want = det * R.const(v) * R.const(-1 if t != "NORM_POLYHED" else 1)
                W.judge("measure", "%s, %s" % (t, nm) + (", other hand" if s > 1 else ""), W.vol, t,
                        ids if t != "NORM_POLYHED" else poly_conn(faces, ids), X, 3, want, sg)
        for t in ts[:1] + ("NORM_POLYHED",):
            for tn, M in TURNS:
                for s, ori in ((1, ""), (-1, ", mirrored")):
                    q = [[sum(Fr(M[k][j]) * p[j] for j in range(3)) * (s if k == 0 else 1) for k in range(3)] for p in pts]
                    ce = [sum(Fr(M[k][j]) * c[j] for j in range(3)) * (s if k == 0 else 1) for k in range(3)]
                    img2 = [[lam * R.const(p[k]) + o[k] for k in range(3)] for p in q]
                    ids, X = nodes(img2)
                    fc = faces if s > 0 else faces
                    W.judge("centre", "%s, %s%s%s" % (t, nm, tn, ori), W.bary, t, ids if t != "NORM_POLYHED" else poly_conn(fc, ids), X, 3,
                            [lam * R.const(ce[k]) + o[k] for k in range(3)], Sign(3, 1 if s > 0 else 1e-8), 3)
    # any positions of the nodes
    for t, sh in (("NORM_TETRA4", TETRA), ("NORM_PENTA6", PENTA), ("NORM_HEXA8", HEXA)):
        pts = [[sym("%s%d" % (c, i)) for c in "xyz"] for i in range(len(sh[0]))]
        ids, X = nodes(pts)
        W.judge("measure", "%s, nodes anywhere" % t, W.vol, t, ids, X, 3, ruled(pts, sh[1]) * R.const(Fr(-1, 6)), Sign(5))
        if t == "NORM_TETRA4":
            W.judge("centre", "%s, nodes anywhere" % t, W.bary, t, ids, X, 3,
                    [(pts[0][k] + pts[1][k] + pts[2][k] + pts[3][k]) * R.const(Fr(1, 4)) for k in range(3)], Sign(5), 3)
    # nodes merged: faces without area, anywhere in the list
    for t, (pts, faces), pairs in (("NORM_HEXA8", HEXA, [((0, 1), (4, 5)), ((1, 2), (5, 6)), ((2, 3), (6, 7)), ((3, 0), (7, 4)),
                                                         ((0, 1), (3, 2)), ((4, 5), (7, 6)), ((0, 4), (1, 5)), ((2, 6), (3, 7)),
                                                         ((0, 3), (4, 7)), ((1, 2), (5, 6))]),
                                   ("NORM_PENTA6", PENTA, [((0, 1), (3, 4)), ((1, 2), (1, 2)), ((3, 4), (3, 4)), ((3, 4), (4, 5)), ((0, 1), (1, 2))])):
        for pr in pairs:
            m = dict(enumerate(range(len(pts))))
            for x, y in pr:
                m[y] = m[x]
            q = [pts[m[i]] for i in range(len(pts))]
            if polyhedron_flat(q, faces) or not plane(q, faces):
                continue
            v, c = polyhedron(q, faces)
            for tt in (t, "NORM_POLYHED"):
                for r in range(1 if tt == t else 3):
                    img2 = [[lam * R.const(p[k]) + o[k] for k in range(3)] for p in q]
                    ids, X = nodes(img2)
                    fc = rot(faces, 2 * r)
                    key = "%s with the nodes %s merged%s" % (tt, " ".join("%d-%d" % x for x in pr), ", faces from %d" % (2 * r) if tt != t else "")
                    W.judge("centre", key, W.bary, tt, ids if tt == t else poly_conn(fc, ids), X, 3,
                            [lam * R.const(c[k]) + o[k] for k in range(3)], Sign(3), 3)


def polyhedron_flat(q, faces):
    try:
        polyhedron(q, faces)
        return False
    except ZeroDivisionError:
        return True

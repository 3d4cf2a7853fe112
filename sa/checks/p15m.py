"""P15, meshes: what the methods of meshes answer is what the formulae give for each cell."""
from fractions import Fraction as Fr
from sa import values as V, arrays as A
from sa.checks import p15
from sa.checks.p15 import sym, Sign, poly2, polyhedron, sub, cross, dot, same, HEXA, PENTA, TETRA, PYRA, HEX12, LPRISM, ELL
from sa.values import R, Ptr

MC = "MEDCoupling::"
HALF = R.const(Fr(1, 2))
MESH = (("o", "mesh"),)


class Meshes:
    def __init__(self, W, R_):
        self.W, self.P, self.R, self.types = W, W.P, R_, W.types

    def find(self, cls, nm, n=None):
        """the method of the class or of the nearest class it inherits"""
        for c in [cls] + list(self.P.all_bases(cls)):
            l = [f for f in self.P.F.values() if f.nm == nm and f.cls == c and (n is None or len(f.params) == n)]
            if l:
                return l[0]
        raise RuntimeError("anchor: no method %s of %s" % (nm, cls))

    def call(self, cls, nm, store, args, sign, this=MESH, more=None):
        f = self.find(cls, nm, len(args))
        I = V.Interp(self.P, decide=sign.decide, maxpaths=8)
        I.meth = A.Arrays()
        V.SIGN = sign
        try:
            c = {this: cls}
            c.update(more or {})
            ps = I.paths(f, args, this=this, init=store, cls=c)
        finally:
            V.SIGN = None
        if len(ps) != 1:
            raise V.TooDeep("%d paths" % len(ps))
        p = ps[0]
        if p.thrown:
            return f, "throws"
        l = A.result(p.store, p.ret)
        t = A.table(p.store, l) if l else None
        if I.outside:
            (place, i, n, w), g = sorted(I.outside.items(), key=str)[0]
            return f, "an array of %d values is %s at %d in %s" % (n, "written" if w else "read", i, getattr(g, "name", str(g)).split("(")[0])
        if t is None:
            raise V.TooDeep("no array returned")
        return f, t

    def judge(self, rule, key, cls, nm, store, args, want, nc, sign, **k):
        try:
            f, t = self.call(cls, nm, store, args, sign, **k)
        except V.TooDeep as e:
            self.R.skip("%s %s" % (rule, key), "not followed: %s" % e)
            return
        if isinstance(t, str):
            self.R.ob(rule, key, False, f.loc(), "%s: %s" % (key, t))
            return
        if (t[0] * nc, t[1]) != (len(want), nc):
            self.R.ob(rule, key, False, f.loc(), "%s: %d tuples of %d components instead of %d of %d" % (key, t[0], t[1], len(want) // nc, nc))
            return
        why = next((m for m in map(V.murky, t[2]) if m), None)
        if why:
            self.R.skip("%s %s" % (rule, key), "not followed: %s" % why)
            return
        bad = [i for i, w in enumerate(want) if not (isinstance(t[2][i], R) and (same(t[2][i], w, sign) or w is None))]
        self.R.ob(rule, key, not bad, f.loc(), "%s: the value of cell %d is not that of its shape" % (key, bad[0] // nc) if bad else "%s: ok" % key)


def umesh(AR, types, dim, mdim, cells, X):
    st = {}
    ci, c = [0], []
    for t, ids in cells:
        c += [types[t]] + list(ids)
        ci.append(len(c))
    co = AR.array(st, "coords", len(X), dim, [x for p in X for x in p])
    cn = AR.array(st, "conn", len(c), 1, c)
    cx = AR.array(st, "connI", len(ci), 1, ci)
    st[MESH + (("f", "_coords"),)] = Ptr(co)
    st[MESH + (("f", "_nodal_connec"),)] = Ptr(cn)
    st[MESH + (("f", "_nodal_connec_index"),)] = Ptr(cx)
    st[MESH + (("f", "_mesh_dim"),)] = R.const(mdim)
    return st


PART = (2, 0, 2, 1)


def part(st, ids=PART):
    st = dict(st)
    for i, v in enumerate(ids):
        st[(("ids",), ("x", R.const(i)))] = R.const(v)
    st[(("ids",), ("f", "#size"))] = R.const(len(ids))
    return st, [Ptr((("ids",), ("x", V.ZERO))), Ptr((("ids",), ("x", R.const(len(ids)))))]


def absolute(x, sg):
    return x if sg(x) >= 0 else -x


def unstructured(M, name, st, sg, meas, cent, iso, dim, normals=None, cls=MC + "MEDCouplingUMesh"):
    b = [V.ZERO, V.R1]
    st2, rng = part(st)
    n = len(meas)
    for a in (0, 1):
        w = [absolute(x, sg) for x in meas] if a else meas
        M.judge("mesh", "getMeasureField(%d), %s" % (a, name), cls, "getMeasureField", st, [b[a]], w, 1, sg)
        M.judge("mesh", "getPartMeasureField(%d), %s" % (a, name), cls, "getPartMeasureField", st2, [b[a]] + rng, [w[i] for i in PART], 1, sg)
    if cent is not None:
        M.judge("mesh", "computeCellCenterOfMass, %s" % name, cls, "computeCellCenterOfMass", st, [], [x for c in cent for x in c], dim, sg)
        M.judge("mesh", "getPartBarycenterAndOwner, %s" % name, cls, "getPartBarycenterAndOwner", st2, rng,
                [x for i in PART for x in cent[i]], dim, sg)
    if iso is not None:
        M.judge("mesh", "computeIsoBarycenterOfNodesPerCell, %s" % name, cls, "computeIsoBarycenterOfNodesPerCell", st, [],
                [x for c in iso for x in c], dim, sg)
    if normals is not None:
        M.judge("mesh", "buildOrthogonalField, %s" % name, cls, "buildOrthogonalField", st, [], [x for c in normals for x in c], 3, sg)
        M.judge("mesh", "buildPartOrthogonalField, %s" % name, cls, "buildPartOrthogonalField", st2, rng,
                [x for i in PART for x in normals[i]], 3, sg)


def mean(X, ids):
    k = R.const(Fr(1, len(ids)))
    return [sum((X[i][j] for i in ids[1:]), X[ids[0]][j]) * k for j in range(len(X[0]))]


def grid(dims):
    """positions of the nodes of a grid, first axis fastest"""
    out = [()]
    for n in reversed(dims):
        out = [(i,) + p for p in out for i in range(n)] if False else [(i,) + p for p in out for i in range(n)]
    return sorted(out, key=lambda p: p[::-1])


def run(W, R_):
    M = Meshes(W, R_)
    AR = A.Arrays()
    # ---- any polygons of the plane
    for seed in (3, 4):
        sg = Sign(seed)
        X = [[sym("%s%d" % (c, i)) for c in "xy"] for i in range(9)]
        cells = [("NORM_TRI3", [2, 0, 4]), ("NORM_POLYGON", [8, 1, 5, 3, 0]), ("NORM_QUAD4", [7, 6, 3, 2])]
        meas, cent, nor = [], [], []
        for t, ids in cells:
            a, cx, cy = poly2([X[i] for i in ids])
            meas.append(-a * HALF)
            cent.append([cx / (a * R.const(3)), cy / (a * R.const(3))])
            nor.append([V.ZERO, V.ZERO, V.R1 if sg(a) < 0 else -V.R1])
        unstructured(M, "polygons in 2D (%d)" % seed, umesh(AR, M.types, 2, 2, cells, X), sg, meas, cent, [mean(X, ids) for t, ids in cells], 2, nor)
    # ---- segments
    for dim in (1, 2, 3):
        sg = Sign(dim + 10)
        X = [[sym("%s%d" % (c, i)) for c in "xyz"[:dim]] for i in range(6)]
        cells = [("NORM_SEG2", [1, 0]), ("NORM_SEG4", [2, 5, 0, 1]), ("NORM_SEG2", [3, 5])]
        meas, cent = [], []
        for t, ids in cells:
            d = sub(X[ids[1]], X[ids[0]])
            V.SIGN = sg
            meas.append(d[0] if dim == 1 else V.root(dot(d, d)))
            V.SIGN = None
            cent.append(mean(X, ids[:2]))
        nor = None
        if dim == 2:
            # a quarter of a turn from the segment
            nor = []
            for (t, ids), m in zip(cells, meas):
                d = sub(X[ids[1]], X[ids[0]])
                nor.append([-d[1] / m, d[0] / m])
        unstructured(M, "segments in %dD" % dim, umesh(AR, M.types, dim, 1, cells, X), sg, meas, cent, [mean(X, ids) for t, ids in cells], dim)
        if nor:
            st = umesh(AR, M.types, dim, 1, cells, X)
            M.judge("mesh", "buildOrthogonalField, segments in 2D", MC + "MEDCouplingUMesh", "buildOrthogonalField", st, [], [x for c in nor for x in c], 2, sg)
            st2, rng = part(st)
            M.judge("mesh", "buildPartOrthogonalField, segments in 2D", MC + "MEDCouplingUMesh", "buildPartOrthogonalField", st2, rng,
                    [x for i in PART for x in nor[i]], 2, sg)
    # ---- plane cells in space
    a, b, o = ([sym(k + c) for c in "xyz"] for k in "abo")
    N = cross(a, b)
    for seed, r in ((5, 0), (6, 1), (7, 2)):
        sg = Sign(seed)
        sh = [("NORM_TRI3", [(0, 0), (2, 0), (1, 1)]), ("NORM_QUAD4", p15.FLAT[1][1]), ("NORM_POLYGON", p15.rot(ELL, 2 * r))]
        if r:
            sh = [(t, p15.rot(list(p)[::-1], r)) for t, p in sh]
        X, cells, meas, cent, nor = [], [], [], [], []
        V.SIGN = sg
        nn = V.root(dot(N, N))
        V.SIGN = None
        for t, p in sh:
            ids = [len(X) + (k + 1) % len(p) for k in range(len(p))]
            q = [None] * len(p)
            for k, i in enumerate(ids):
                q[i - len(X)] = [x * R.const(p[k][0]) + y * R.const(p[k][1]) + z for x, y, z in zip(a, b, o)]
            X += q
            cells.append((t, ids))
            A2, cx, cy = poly2([[Fr(c) for c in x] for x in p])
            meas.append(nn * R.const(abs(A2) / 2))
            cent.append([x * R.const(cx / (3 * A2)) + y * R.const(cy / (3 * A2)) + z for x, y, z in zip(a, b, o)])
            s = R.const(1 if A2 > 0 else -1)
            nor.append([s * c / nn for c in N])
        unstructured(M, "plane cells in 3D (%d)" % r, umesh(AR, M.types, 3, 2, cells, X), sg, meas, cent, [mean(X, ids) for t, ids in cells], 3, nor)
    # ---- solids
    lam, o = sym("lam"), [sym("o" + c) for c in "xyz"]
    for seed in (8, 9):
        X, cells, meas, cent, iso = [], [], [], [], []
        sg = Sign(seed)
        for t, (pts, faces) in (("NORM_HEXA8", HEXA), ("NORM_POLYHED", LPRISM), ("NORM_TETRA4", TETRA)):
            s = 1 if seed == 8 else -1
            q = [(s * p[0], p[1], p[2]) for p in pts]
            ids = [len(X) + (k + 2) % len(q) for k in range(len(q))]
            g = [None] * len(q)
            for k, i in enumerate(ids):
                g[i - len(X)] = [lam * R.const(q[k][j]) + o[j] for j in range(3)]
            X += g
            v, c = polyhedron(pts, faces)
            meas.append(R.const(v * s * (-1 if t != "NORM_POLYHED" else 1)) * lam * lam * lam)
            cent.append([lam * R.const(c[j] * (s if j == 0 else 1)) + o[j] for j in range(3)])
            iso.append(ids)
            cells.append((t, ids if t != "NORM_POLYHED" else p15.poly_conn(faces, ids)))
        unstructured(M, "solids (%d)" % seed, umesh(AR, M.types, 3, 3, cells, X), sg, meas, cent, [mean(X, i) for i in iso], 3)
    structured(M, AR)
    oriented(M, AR)
    R_.floor("mesh", 30)
    R_.floor("orientation", 4)


def cells_of(dims):
    """corners of the cells of a grid, first axis fastest, as positions of nodes"""
    out = []
    for p in grid([n - 1 for n in dims]):
        c = [p]
        for k in range(len(dims)):
            c = c + [q[:k] + (q[k] + 1,) + q[k + 1:] for q in c]
        out.append(c)
    return out


def structured(M, AR):
    # ---- tensor grids: planes at any positions
    for dims in ((4,), (3, 4), (3, 2, 4)):
        d = len(dims)
        for cls in ("MEDCouplingCMesh", "MEDCouplingIMesh"):
            st = {}
            sg = Sign(d + 20)
            if cls == "MEDCouplingCMesh":
                X = [[sym("%s%d" % ("xyz"[k], i)) for i in range(n)] for k, n in enumerate(dims)]
                # increasing positions
                for k in range(d):
                    for i in range(dims[k]):
                        sg.env[("p", "%s%d" % ("xyz"[k], i))] = 1.3 * i + .2 * k + .1 * i * i
                for k, nm in enumerate(("_x_array", "_y_array", "_z_array")):
                    st[MESH + (("f", nm),)] = Ptr(AR.array(st, nm, dims[k], 1, X[k])) if k < d else V.ZERO
            else:
                h, o = [sym("h" + c) for c in "xyz"], [sym("o" + c) for c in "xyz"]
                X = [[o[k] + h[k] * R.const(i) for i in range(n)] for k, n in enumerate(dims)]
                for k in range(3):
                    sg.env[("p", "h" + "xyz"[k])] = .7 + .1 * k
                    st[MESH + (("f", "_dxyz"), ("x", R.const(k)))] = h[k] if k < d else V.ZERO
                    st[MESH + (("f", "_origin"), ("x", R.const(k)))] = o[k] if k < d else V.ZERO
                    st[MESH + (("f", "_structure"), ("x", R.const(k)))] = R.const(dims[k] if k < d else 0)
                st[MESH + (("f", "_space_dim"),)] = R.const(d)
            meas, cent = [], []
            for p in grid([n - 1 for n in dims]):
                m = V.R1
                for k in range(d):
                    m = m * (X[k][p[k] + 1] - X[k][p[k]])
                meas.append(m)
                cent.append([(X[k][p[k] + 1] + X[k][p[k]]) * HALF for k in range(d)])
            for a in (0, 1):
                M.judge("mesh", "%s %dD getMeasureField(%d)" % (cls, d, a), MC + cls, "getMeasureField", st, [R.const(a)], meas, 1, sg)
            for nm in ("computeCellCenterOfMass", "computeIsoBarycenterOfNodesPerCell"):
                M.judge("mesh", "%s %dD %s" % (cls, d, nm), MC + cls, nm, st, [], [x for c in cent for x in c], d, sg)
    # ---- curvilinear grids
    cls = MC + "MEDCouplingCurveLinearMesh"
    for dims, dim in (((4,), 1), ((4,), 2), ((4,), 3), ((3, 4), 2), ((4, 3), 2), ((3, 2, 4), 3), ((2, 4, 3), 3)):
        d = len(dims)
        sg = Sign(d + 30)
        nodes = grid(dims)
        if d < 3:
            X = {p: [sym("%s%s" % (c, "_".join(map(str, p)))) for c in "xyz"[:dim]] for p in nodes}
        else:
            # planes moved along each axis: boxes of any sizes
            ax = [[sym("%s%d" % ("xyz"[k], i)) for i in range(n)] for k, n in enumerate(dims)]
            X = {p: [ax[k][p[k]] for k in range(3)] for p in nodes}
        st = {}
        st[MESH + (("f", "_coords"), ("f", "_ptr"))] = Ptr(AR.array(st, "coords", len(nodes), dim, [x for p in nodes for x in X[p]]))
        for k, n in enumerate(dims):
            st[MESH + (("f", "_structure"), ("x", R.const(k)))] = R.const(n)
        st[MESH + (("f", "_structure"), ("f", "#size"))] = R.const(d)
        meas, cent = [], []
        for c in cells_of(dims):
            if d == 1:
                v = sub(X[c[1]], X[c[0]])
                V.SIGN = sg
                meas.append(v[0] if dim == 1 else V.root(dot(v, v)))
                V.SIGN = None
                cent.append([(x + y) * HALF for x, y in zip(X[c[0]], X[c[1]])])
            elif d == 2:
                a, cx, cy = poly2([X[c[i]] for i in (0, 1, 3, 2)])
                meas.append(a * HALF)
                cent.append([cx / (a * R.const(3)), cy / (a * R.const(3))])
            else:
                p, q = X[c[0]], X[c[7]]
                meas.append((q[0] - p[0]) * (q[1] - p[1]) * (q[2] - p[2]))
                cent.append([(x + y) * HALF for x, y in zip(p, q)])
        nm = "curvilinear %s in %dD" % ("x".join(map(str, dims)), dim)
        for a in (0, 1):
            M.judge("mesh", "%s getMeasureField(%d)" % (nm, a), cls, "getMeasureField", st, [R.const(a)],
                    [absolute(x, sg) for x in meas] if a else meas, 1, sg)
        M.judge("mesh", "%s computeCellCenterOfMass" % nm, cls, "computeCellCenterOfMass", st, [], [x for c in cent for x in c], dim, sg)


def oriented(M, AR):
    """the answer is the sign of the measure, for every affine image"""
    cols = [[sym(k + c) for c in "xyz"] for k in "abc"]
    o = [sym("o" + c) for c in "xyz"]
    det = dot(cols[0], cross(cols[1], cols[2]))
    for nm, sh, name in (("IsTetra4WellOriented", TETRA, "tetrahedron"), ("IsPyra5WellOriented", PYRA, "pyramid"),
                         ("Is3DExtrudedStaticCellWellOriented", PENTA, "prism"), ("Is3DExtrudedStaticCellWellOriented", HEXA, "hexahedron"),
                         ("Is3DExtrudedStaticCellWellOriented", HEX12, "hexagonal prism"), ("IsPolyhedronWellOriented", LPRISM, "L prism"),
                         ("IsPolyhedronWellOriented", PYRA, "pyramid")):
        f = M.find(MC + "MEDCouplingUMesh", nm)
        pts, faces = sh
        key = "%s, %s" % (nm, name)
        ids = [(3 * i + 1) % len(pts) if len(pts) % 3 else (5 * i + 2) % len(pts) for i in range(len(pts))]
        X = {}
        for k, i in enumerate(ids):
            X[i] = [sum((x[j] * R.const(pts[k][n]) for n, x in enumerate(cols)), o[j]) for j in range(3)]
        conn = ids if nm != "IsPolyhedronWellOriented" else p15.poly_conn(faces, ids)
        st = {}
        for i, c in enumerate(conn):
            st[(("conn",), ("x", R.const(i)))] = R.const(c)
        st[(("conn",), ("f", "#size"))] = R.const(len(conn))
        for n, x in X.items():
            for k in range(3):
                st[(("coords",), ("x", R.const(3 * n + k)))] = x[k]
        ok = True
        try:
            # the two hands of the map, and a number of maps of each
            for seed in range(8):
                sg = Sign(seed)
                I = V.Interp(M.P, decide=sg.decide, maxpaths=8)
                V.SIGN = sg
                ps = I.paths(f, [Ptr((("conn",), ("x", V.ZERO))), Ptr((("conn",), ("x", R.const(len(conn))))), Ptr((("coords",), ("x", V.ZERO)))], init=st)
                V.SIGN = None
                if len(ps) != 1 or ps[0].thrown or not isinstance(ps[0].ret, R):
                    raise V.TooDeep("%d paths" % len(ps))
                # catalogue cells have a positive measure when their first face is seen from inside
                want = (sg(det) < 0) == (nm != "IsPolyhedronWellOriented")
                if bool(sg.num(ps[0].ret)) != want:
                    ok = False
        except V.TooDeep as e:
            V.SIGN = None
            M.R.skip("orientation %s" % key, "not followed: %s" % e)
            continue
        M.R.ob("orientation", key, ok, f.loc(), "%s: the answer is not the sign of the measure" % key)

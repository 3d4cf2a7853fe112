"""P10: the tables describing cell types agree with one another."""
from fractions import Fraction as Fr
from sa import core, values as V
from sa.values import R
from sa.checks import p11
from sa.checks.p11 import one, cell_types

PARTS = ["interp"]
EXPLAIN = ("Constant propagation through the constructor of CellModel gives the tables of every cell type; the methods answering "
           "about sons, edges, extrusion and orientation are then analysed on them with unknown node numbers, which gives the nodes "
           "they return or write as positions in the cell.  One obligation per son, edge, link, middle node and inversion.")
ASSUME = ["node numbers of a cell are different from one another and not negative",
          "polygons are analysed for 3 to 6 edges"]
CM = "INTERP_KERNEL::CellModel::"
T0 = (("cm",),)


class Unknown(Exception):
    """the propagation does not say: no obligation is made of it"""


def node(i):
    return ("node", i)


def unset(v):
    """a place of the table which the constructor has left without a value"""
    return v is None or isinstance(v, R) and bool(v.atoms()) and all(a[0] == "in" and a[1][0] == T0[0] and not a[2] for a in v.atoms())


class Model:
    """what the code says of one cell type, asked through the methods of CellModel on unknown node numbers"""

    def __init__(self, K, t):
        self.K = K
        self.t = t
        ps = [p for p in K.I.paths(K.ctor, [R.const(t)], this=T0) if not p.thrown]
        if len(ps) != 1:
            raise core.AnalysisBroken("constructor of CellModel for type %s: %d outcomes" % (K.types[t], len(ps)))
        self.init = {l: v for l, v in ps[0].store.items() if l[0] == T0[0]}
        self.cls = ps[0].cls

    def ask(self, name, args=(), init=None):
        """the only outcome of a method, None when it refuses"""
        d = dict(self.init)
        d.update(init or {})
        ps = [p for p in self.K.I.paths(self.K.m(name), list(args), this=T0, init=d) if not p.thrown]
        if not ps:
            return None
        r = {str(p.ret) for p in ps}
        if len(ps) != 1 and len(r) != 1:
            raise Unknown("%s for %s: %d outcomes" % (name, self.K.types[self.t], len(ps)))
        return ps[0]

    def num(self, name, *args):
        p = self.ask(name, [R.const(a) if not isinstance(a, (R, V.Ptr)) else a for a in args])
        if p is None:
            return None
        return self.const(name, p.ret)

    def const(self, name, v):
        if isinstance(v, R) and v.c is not None:
            return int(v.c)
        if unset(v):
            return None
        raise Unknown("%s for %s is %s" % (name, self.K.types[self.t], v))

    def fill(self, name, k, n, conn=None):
        """nodes written by a fill method, with the type it gives; nodes are positions in the cell"""
        init = {}
        for i in range(n):
            init[(("conn",), ("x", R.const(i)))] = R.atom(node(i)) if conn is None else conn[i]
        args = [R.const(k), V.Ptr((("conn",), ("x", V.ZERO)))]
        f = self.K.m(name)
        for q in f.params[2:]:
            t = f.S[q[1]] if isinstance(q[1], int) else q[1]
            if q[0] == "lgth":
                args.append(R.const(n))
            elif t.rstrip().endswith("&"):
                args.append(V.LV((("type",),)))
            else:
                args.append(V.Ptr((("out",), ("x", V.ZERO))))
        p = self.ask(name, args, init)
        if p is None:
            return None
        cnt = self.const(name, p.ret) or 0
        out = [p.store.get((("out",), ("x", R.const(i)))) for i in range(cnt)]
        ty = p.store.get((("type",),))
        return self.const(name, ty), [pos(v) for v in out]


def pos(v, strict=True):
    a = v.the_atom if isinstance(v, R) else None
    if a and a[0] == "node":
        return a[1]
    if strict and not unset(v) and not (isinstance(v, R) and all(a[0] in ("node", "offset") or a[0] == "in" and unset(R.atom(a)) or
                                                                 a[0] == "in" and a[1][0] == ("conn",) for a in v.atoms())):
        raise Unknown("node %s" % (v,))
    return None


class Kb:
    def __init__(self, P):
        self.P = P
        self.types = cell_types(P)

        def dec(v):
            a = v.the_atom
            if a and a[0] == "cmp" and a[1] == "==" and "node" in str(a[2]):
                return False
        self.I = V.Interp(P, decide=dec)
        self.I.hooks[CM + "GetCellModel"] = self.model
        self.ctor = one(P, CM + "CellModel(INTERP_KERNEL::NormalizedCellType)")
        self._m = {}
        self._sons = {}
        self.M = {}

    def model(self, I, args):
        """GetCellModel on a known type: the tables of that type"""
        a = I.rv(args[0]) if args else None
        if not isinstance(a, R) or a.c is None or int(a.c) not in self.M:
            return None
        l = (("cm", int(a.c)),)
        for k, v in self.M[int(a.c)].init.items():
            I.store[l + k[1:]] = v
        return V.LV(l)

    def m(self, name):
        if name not in self._m:
            self._m[name] = one(self.P, CM + name + "(")
        return self._m[name]


    # ------------------------------------------------------------- facts of a type
    def nodes(self, t):
        return self.M[t].num("getNumberOfNodes")

    def dim(self, t):
        return self.M[t].num("getDimension")

    def dyn(self, t):
        return bool(self.M[t].num("isDynamic"))

    def sons(self, t, n=None):
        """[(type, positions)]; n: number of nodes of a dynamic type"""
        k = (t, n)
        if k not in self._sons:
            m = self.M[t]
            if self.dyn(t):
                d = {"NORM_POLYGON": n, "NORM_QPOLYG": n // 2}.get(self.types[t])
                self._sons[k] = [m.fill("fillSonCellNodalConnectivity2", i, n) for i in range(d)]
            else:
                self._sons[k] = [m.fill("fillSonCellNodalConnectivity2", i, self.nodes(t)) for i in range(m.num("getNumberOfSons"))]
        return self._sons[k]

    def sub(self, nd, ps):
        if None in ps or ps and max(ps) >= len(nd):
            raise Unknown("a son has the nodes %s" % (ps,))
        return [nd[p] for p in ps]

    def border(self, t, nd):
        """oriented border of a cell of type t on the nodes nd, with its inner nodes: comparable by =="""
        d = self.dim(t)
        if d == 1:
            return (tuple(nd[:2]), tuple(nd[2:]))
        ss = self.sons(t, len(nd))
        b = []
        used = set()
        for st, ps in ss:
            q = self.sub(nd, ps)
            used |= set(q)
            b.append(self.border(st, q))
        rest = tuple(x for x in nd if x not in used)
        return (frozenset(b), rest) if len(set(b)) == len(b) else (tuple(b), rest)

    def back(self, b):
        """the same border oriented the other way"""
        if isinstance(b[0], (frozenset, tuple)) and not (isinstance(b[0], tuple) and (not b[0] or not isinstance(b[0][0], tuple))):
            return (frozenset(self.back(x) for x in b[0]), b[1])
        return (tuple(reversed(b[0])), tuple(reversed(b[1])))

    def edges(self, t, nd):
        """oriented edges of the faces of a cell"""
        d = self.dim(t)
        if d == 1:
            return [self.border(t, nd)]
        r = []
        for st, ps in self.sons(t, len(nd)):
            r += self.edges(st, self.sub(nd, ps))
        return r


VTK = {"NORM_POINT1": 1, "NORM_SEG2": 3, "NORM_POLYL": 4, "NORM_TRI3": 5, "NORM_POLYGON": 7, "NORM_QUAD4": 9, "NORM_TETRA4": 10,
       "NORM_HEXA8": 12, "NORM_PENTA6": 13, "NORM_PYRA5": 14, "NORM_HEXGP12": 16, "NORM_SEG3": 21, "NORM_TRI6": 22, "NORM_QUAD8": 23,
       "NORM_TETRA10": 24, "NORM_HEXA20": 25, "NORM_PENTA15": 26, "NORM_PYRA13": 27, "NORM_QUAD9": 28, "NORM_HEXA27": 29,
       "NORM_PENTA18": 32, "NORM_TRI7": 34, "NORM_SEG4": 35, "NORM_QPOLYG": 36, "NORM_POLYHED": 42}
LENGTHS = {"NORM_POLYGON": (3, 4, 5, 6), "NORM_QPOLYG": (6, 8, 10)}


def run(P, R_, tier):
    K = Kb(P)
    M = K.M = {}
    K._sons = {}
    names = {n: t for t, n in K.types.items()}
    err = names["NORM_ERROR"]
    for t in sorted(K.types):
        if K.types[t] not in ("NORM_MAXTYPE", "NORM_ERROR"):
            M[t] = Model(K, t)
    loc = K.ctor.loc()
    ref = reference(P, K)
    for t, m in M.items():
        name = K.types[t]

        def step(fn, *a):
            try:
                fn(*a)
            except (Unknown, V.TooDeep) as e:
                R_.skip("%s of %s" % (fn.__name__, name), "not decided: %s" % e)
        if not K.dyn(t):
            d = K.dim(t)
            step(sons, K, t, m, name, R_, loc)
            if d >= 2:
                step(closed, K, t, list(range(K.nodes(t))), name, R_, loc)
            if d == 3:
                step(little, K, t, m, name, R_, loc)
            if d >= 2:
                step(micro, K, t, m, name, R_, loc)
            if t in ref and d >= 2:
                step(middles, K, t, ref[t], name, R_, loc)
                step(convex, K, t, ref[t], name, R_, loc)
            step(links, K, t, m, name, err, R_, loc)
            step(extruded, K, t, m, name, err, R_)
        else:
            for n in LENGTHS.get(name, ()):
                step(closed, K, t, list(range(n)), "%s of %d nodes" % (name, n), R_, loc)
        step(inverted, K, t, m, name, R_)
        step(flags, K, t, m, name, R_, loc)
    fm = one(P, CM + "BuildUniqueInstance(")
    R_.count("cell types", len(M))
    R_.floor("sons", 80)
    R_.floor("closed", 10)
    R_.floor("edges", 8)
    R_.floor("inverted", 12)
    R_.floor("middle", 40)
    R_.floor("convex", 30)
    R_.floor("links", 30)
    R_.floor("extruded", 3)
    R_.floor("vtk", 12)


def sons(K, t, m, name, R_, loc):
    M = K.M
    d, n = K.dim(t), K.nodes(t)
    ss = K.sons(t)
    for k, (st, ps) in enumerate(ss):
        okn = st in M and (len(ps) == K.nodes(st) or (K.dyn(st) and len(ps) >= 3))
        ok = okn and K.dim(st) == d - 1 and None not in ps and len(set(ps)) == len(ps) and max(ps) < n
        R_.ob("sons", "%s son %d" % (name, k), ok, loc, "%s: son %d is of type %s with the nodes %s" % (
            name, k, K.types.get(st), ps))
        c = m.num("getNumberOfNodesConstituentTheSon2", k, V.Ptr((("conn",), ("x", V.ZERO))), n)
        R_.ob("sons", "%s size of son %d" % (name, k), c == len(ps), loc, "%s: son %d is said to have %s nodes and has %d" % (
            name, k, c, len(ps)))
    R_.ob("sons", name + " count", m.num("getNumberOfSons2", V.Ptr((("conn",), ("x", V.ZERO))), n) == len(ss), loc,
          "%s: two counts of its sons differ" % name)
    R_.ob("flags", name + " simplex", bool(m.num("isSimplex")) == (n == d + 1 and not m.num("isQuadratic")), loc,
          "%s: isSimplex is %s" % (name, m.num("isSimplex")))


def flags(K, t, m, name, R_, loc):
    p = m.ask("getRepr")
    K.I.store = {}
    v = p.ret if p is not None else None
    if isinstance(v, V.Ptr) and len(v.loc) > 1 and v.loc[-1] == ("x", V.ZERO):
        v = K.I.read(v.loc[:-1])
    if isinstance(v, V.Str):
        R_.ob("flags", name + " name", v.s == name, K.m("getRepr").loc(), "%s: its name is %s" % (name, v))
    else:
        R_.skip("name of %s" % name, "not decided")
    v = K.I.read((("g", "MEDCOUPLING2VTKTYPETRADUCER"), ("x", R.const(t))))
    v = int(v.c) if isinstance(v, R) and v.c is not None else None
    if v is None:
        return R_.skip("VTK type of %s" % name, "not decided")
    R_.ob("vtk", name, v == VTK.get(name), loc, "%s: the VTK type is %s, VTK has %s" % (name, v, VTK.get(name)))


def reference(P, K):
    I = V.Interp(P, opaque=["CellModel::GetCellModel"])
    f = one(P, "GaussInfo::GetDefaultReferenceCoordinatesOf(")
    r = {}
    for t in K.M:
        for p in I.paths(f, [R.const(t)]):
            v = None if p.thrown else p11.vec(p, p.ret)
            if v is not None and not K.dyn(t) and None not in v:
                d = K.dim(t)
                r[t] = [v[i * d:(i + 1) * d] for i in range(K.nodes(t))]
    return r


def closed(K, t, nd, name, R_, loc):
    """3D: each edge of a face is, the other way round, an edge of exactly one other face; 2D: the sons make one loop"""
    d = K.dim(t)
    if d == 3:
        es = K.edges(t, nd)
        bad = [e for e in es if es.count(e) != 1 or es.count(K.back(e)) != 1]
        R_.ob("closed", name, not bad, loc, "%s: its faces do not close up coherently at the edge %s" % (name, bad and bad[0]))
        return
    nx = {}
    for st, ps in K.sons(t, len(nd)):
        nx.setdefault(ps[0], []).append(ps[1])
    a, n = 0, 0
    while a in nx and len(nx[a]) == 1:
        a = nx[a][0]
        n += 1
        if a == 0 or n > 40:
            break
    mids = [m for st, ps in K.sons(t, len(nd)) for m in ps[2:]]
    R_.ob("closed", name, a == 0 and n == len(nx) == len(K.sons(t, len(nd))) and len(set(mids)) == len(mids), loc,
          "%s: its edges do not make one loop" % name)


def und(K, e):
    return frozenset((e, (e[0][::-1], e[1][::-1])))


def little(K, t, m, name, R_, loc):
    want = {und(K, e) for e in K.edges(t, list(range(K.nodes(t))))}
    c = m.num("getNumberOfEdgesIn3D", V.Ptr((("conn",), ("x", V.ZERO))), K.nodes(t))
    l = m.num("getNumberOfLittleSons")
    R_.ob("edges", name + " count", c == len(want) == l, loc, "%s: it has %d edges, the code says %s" % (
        name, len(want), "an unset value" if c is None else c))
    have = []
    for k in range(l or 0):
        st, ps = m.fill("fillSonEdgesNodalConnectivity3D", k, K.nodes(t))
        ok = st in K.M and K.dim(st) == 1 and len(ps) == K.nodes(st) and None not in ps
        R_.ob("edges", "%s edge %d" % (name, k), ok and und(K, K.border(st, ps)) in want, loc, "%s: edge %d, of type %s on the nodes %s, "
              "is not an edge of its faces" % (name, k, K.types.get(st), ps))
        if ok:
            have.append(und(K, K.border(st, ps)))
    R_.ob("edges", name, l is None or set(have) == want, loc, "%s: not every edge of its faces is listed" % name)


def micro(K, t, m, name, R_, loc):
    c = m.num("getNumberOfMicroEdges")
    if c is None:
        return
    es = {und(K, e) for e in K.edges(t, list(range(K.nodes(t))))}
    want = set()
    for e in es:
        (a, b), ms = sorted(e)[0]
        ch = (a,) + ms + (b,)
        want |= {frozenset(x) for x in zip(ch, ch[1:])}
    have = []
    for k in range(c):
        r = m.fill("fillMicroEdgeNodalConnectivity", k, K.nodes(t))
        have.append(frozenset(r[1]) if r else None)
    R_.ob("micro", name, set(have) == want and len(have) == len(want), K.m("fillMicroEdgeNodalConnectivity").loc(),
          "%s: its elementary edges are not the halves of its edges" % name)


def place(x):
    return "(%s)" % ", ".join("%g" % float(v) for v in x)


def middles(K, t, X, name, R_, loc):
    """reference coordinates: a middle node is in the middle of its edge"""
    for e in sorted({sorted(und(K, e))[0] for e in K.edges(t, list(range(K.nodes(t))))}):
        (a, b), ms = e
        for i, x in enumerate(ms):
            w = Fr(i + 1, len(ms) + 1)
            want = [p + (q - p) * w for p, q in zip(X[a], X[b])]
            ok = all(abs(p - q) < p11.EPS for p, q in zip(want, X[x]))
            R_.ob("middle", "%s node %d" % (name, x) + ("" if ok else " at %s" % place(X[x])), ok, loc,
                  "%s: node %d is not in the middle of the edge %d %d in the reference coordinates" % (name, x, a, b))
    if K.dim(t) == 3:
        for k, (st, ps) in enumerate(K.sons(t)):
            c = [p for p in ps if p not in {y for e in K.edges(st, ps) for y in e[0] + e[1]}]
            cor = sorted({y for e in K.edges(st, ps) for y in e[0]})
            for x in c:
                want = [sum(X[y][j] for y in cor) / len(cor) for j in range(3)]
                ok = all(abs(p - q) < p11.EPS for p, q in zip(want, X[x]))
                R_.ob("middle", "%s node %d" % (name, x) + ("" if ok else " at %s" % place(X[x])), ok, loc,
                      "%s: node %d is not in the middle of face %d in the reference coordinates" % (name, x, k))


def convex(K, t, X, name, R_, loc):
    """the reference coordinates make a convex cell of these faces: all the other corners are on one side of each face, whose own
    corners are in one plane and turn one way"""
    cor = sorted({x for e in K.edges(t, list(range(K.nodes(t)))) for x in e[0]})
    if K.dim(t) == 2:
        X = {c: list(X[c]) + [Fr(0)] for c in cor}
        faces = [loop(K.edges(t, list(range(K.nodes(t)))))]
    else:
        faces = [loop(K.edges(st, ps)) for st, ps in K.sons(t)]
    sub = lambda a, b: [p - q for p, q in zip(a, b)]
    cross = lambda a, b: [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
    dot = lambda a, b: sum(p * q for p, q in zip(a, b))
    sides = set()
    for k, c in enumerate(faces):
        n = None if c is None else cross(sub(X[c[1]], X[c[0]]), sub(X[c[2]], X[c[0]]))
        ok = c is not None and all(abs(dot(n, sub(X[x], X[c[0]]))) < p11.EPS for x in c)
        if ok:
            ok = all(dot(n, cross(sub(X[b], X[a]), sub(X[d], X[b]))) > p11.EPS for a, b, d in zip(c, c[1:] + c[:1], c[2:] + c[:2]))
            sides |= {dot(n, sub(X[x], X[c[0]])) > 0 for x in cor if x not in c}
        R_.ob("convex", "%s face %d" % (name, k), ok, loc, "%s: the corners %s of its face %d do not make a convex polygon in the reference "
              "coordinates" % (name, c, k))
    R_.ob("convex", name, len(sides) <= 1, loc, "%s: the faces are not all turned to the same side in the reference coordinates" % name)


def loop(es):
    """corners in turn, None when the edges do not make a loop"""
    nx = {e[0][0]: e[0][1] for e in es}
    a = es[0][0][0]
    r = [a]
    while len(r) <= len(es) and nx.get(r[-1]) is not None and nx[r[-1]] != a:
        r.append(nx[r[-1]])
    return r if len(r) == len(es) == len(nx) else None


def links(K, t, m, name, err, R_, loc):
    lt = m.num("getLinearType")
    quad = bool(m.num("isQuadratic"))
    R_.ob("links", name + " quadratic", quad == (lt != err), loc, "%s: isQuadratic is %s and its linear type is %s" % (
        name, quad, K.types.get(lt)))
    if quad and lt in K.M:
        L = K.M[lt]
        R_.ob("links", name + " linear", not L.num("isQuadratic") and K.dim(lt) == K.dim(t) and K.nodes(lt) < K.nodes(t)
              and len(K.sons(lt)) == (len(K.sons(t)) if K.dim(t) > 1 else 2), loc,
              "%s: its linear type %s does not match" % (name, K.types.get(lt)))
        if K.dim(t) > 1:
            for k, ((a, p), (b, q)) in enumerate(zip(K.sons(t), K.sons(lt))):
                R_.ob("links", "%s linear son %d" % (name, k), a in K.M and K.M[a].num("getLinearType") == b and p[:len(q)] == q, loc,
                      "%s: the vertices of son %d are not those of the son of %s" % (name, k, K.types[lt]))
    for g in ("getQuadraticType", "getQuadraticType2"):
        q = m.num(g)
        if q == err or q is None:
            continue
        R_.ob("links", name + " " + g, q in K.M and K.M[q].num("getLinearType") == t, loc, "%s: the linear type of its quadratic type "
              "%s is another one" % (name, K.types.get(q)))


def extruded(K, t, m, name, err, R_):
    et = m.num("getExtrudedType")
    f = K.m("buildExtruded")
    rt = m.num("getReverseExtrudedType")
    if rt in K.M:
        R_.ob("extruded", name + " reverse", K.M[rt].num("getExtrudedType") == t and m.num("isExtruded") == 1, f.loc(),
              "%s: said to be the extrusion of %s, which is extruded to another type" % (name, K.types[rt]))
    if et == err or et not in K.M or K.dyn(et) or not K.dim(t):
        return
    E = K.M[et]
    n, ne = K.nodes(t), K.nodes(et)
    quad = bool(m.num("isQuadratic"))
    R_.ob("extruded", name + " type", K.dim(et) == K.dim(t) + 1 and bool(E.num("isQuadratic")) == quad, f.loc(),
          "%s: extruded to %s" % (name, K.types[et]))
    if K.dim(t) == 2 and not quad:
        R_.ob("extruded", name + " back", E.num("getReverseExtrudedType") == t, f.loc(), "%s: %s is not said to be its extrusion" % (
            name, K.types[et]))
    off = R.atom(("offset",))
    init = {(("conn",), ("x", R.const(i))): R.atom(node(i)) for i in range(n)}
    p = m.ask("buildExtruded", [V.Ptr((("conn",), ("x", V.ZERO))), off, V.Ptr((("out",), ("x", V.ZERO)))], init)
    out = []
    for i in range(ne):
        v = p.store.get((("out",), ("x", R.const(i)))) if p else None
        h = [(pos(v - off * R.const(l), False), l) for l in (0, 1, 2) if isinstance(v, R) and pos(v - off * R.const(l), False) is not None]
        if not h:
            pos(v)
        out.append(h[0] if h else None)
    ok = None not in out and len(set(out)) == ne
    if ok:
        # the edges of the base at the bottom and at the top, an edge over each corner; over the middle of an edge is the middle of
        # the face it makes, over the middle of the cell are those of the two bases and of the extrusion
        top = 2 if quad else 1
        lift = lambda b, l: (tuple((x, l) for x in b[0]), tuple((x, l) for x in b[1]))
        base = [sorted(und(K, e))[0] for e in K.edges(t, list(range(n)))]
        cor = sorted({x for e in base for x in e[0]})
        inn = [x for x in range(n) if x not in {y for e in base for y in e[0] + e[1]}]
        want = {und(K, lift(e, l)) for e in base for l in (0, top)}
        want |= {und(K, (((c, 0), (c, top)), ((c, 1),) if quad else ())) for c in cor}
        ok = {und(K, e) for e in K.edges(et, out)} == want
        cen = {frozenset((c, l) for c in e[0] for l in (0, top)): tuple((x, 1) for x in e[1]) for e in base}
        cen.update({frozenset((c, l) for c in cor): tuple((x, l) for x in inn) for l in (0, top)})
        used = {y for e in want for y in sorted(e)[0][0] + sorted(e)[0][1]}
        if K.dim(et) == 3:
            for st, ps in K.sons(et):
                q = [out[x] for x in ps]
                ee = K.edges(st, q)
                c = frozenset(y for e in ee for y in e[0])
                rest = tuple(x for x in q if x not in {y for e in ee for y in e[0] + e[1]})
                ok = ok and (not rest or cen.get(c) == rest)
                used |= set(rest)
        ok = ok and all(x == (y, 1) for x, y in zip([x for x in out if x not in used], inn if K.dim(et) == 3 else
                                                    [y for e in base for y in e[1]]))
    R_.ob("extruded", name, ok, f.loc(), "%s: the nodes of its extrusion, %s, do not make the prism on it" % (name, out))


def run_inverter(K, t, m, n, how):
    """positions after inversion of a cell of n nodes"""
    I = K.I
    init = {(("conn",), ("x", R.const(i))): R.atom(node(i)) for i in range(n)}
    b = V.Ptr((("conn",), ("x", V.ZERO)))
    if how == "change":
        d = K.dim(t)
        p = m.ask("changeOrientationOf%dD" % d, [b, R.const(n)], init)
    else:
        if how == "model":
            q = m.ask("buildOrientationInverter")
        else:
            qs = [p for p in I.paths(one(K.P, "INTERP_KERNEL::OrientationInverter::BuildInstanceFrom("), [R.const(t)]) if not p.thrown]
            q = qs[0] if len(qs) == 1 else None
        if q is None:
            return None
        l = q.ret.loc
        c = q.cls.get(l)
        f = None
        while c and f is None:
            f = next((g for g in K.P.F.values() if g.cls == c and g.nm == "operate"), None)
            c = next(iter(K.P.R[c].bases), None) if c in K.P.R else None
        if f is None:
            raise Unknown("no operate method of the inverter for %s" % K.types[t])
        d = dict(q.store)
        d.update(init)
        ps = [x for x in I.paths(f, [b, V.Ptr((("conn",), ("x", R.const(n))))], this=l, init=d, cls=dict(q.cls)) if not x.thrown]
        if len(ps) != 1:
            raise Unknown("inverter of %s: %d outcomes" % (K.types[t], len(ps)))
        p = ps[0]
    if p is None:
        return None
    # nothing outside of the cell or of a buffer is written
    for l in p.store:
        if l[-1][0] != "x" or l[-1][1].c is None or l[0][0] in ("cm", "g"):
            continue
        z = R.const(n) if l[:-1] == (("conn",),) else p.store.get(l[:-1] + (("f", "#size"),))
        k = l[-1][1].c
        if k < 0 or isinstance(z, R) and z.c is not None and k >= z.c:
            return "writes outside of a buffer of %s" % (z,)
    return [pos(p.store.get((("conn",), ("x", R.const(i))))) for i in range(n)]


def at(K, t, how):
    return K.m("changeOrientationOf%dD" % K.dim(t) if how == "change" else "buildOrientationInverter").loc()


def inverted(K, t, m, name, R_):
    lens = LENGTHS.get(name) if K.dyn(t) else (K.nodes(t),)
    for how in ("model", "factory", "change"):
        if how == "change" and K.dim(t) not in (1, 2):
            continue
        for n in lens or ():
            o = run_inverter(K, t, m, n, how)
            if o is None:
                continue
            if isinstance(o, str):
                R_.ob("inverted", "%s %d %s" % (name, n, how), False, at(K, t, how), "%s: inverting its orientation %s" % (name, o))
                continue
            ok = None not in o and sorted(o) == list(range(n)) and K.border(t, o) == K.back(K.border(t, list(range(n))))
            R_.ob("inverted", "%s %d %s%s" % (name, n, how, "" if ok else " gives %s" % o), ok, at(K, t, how),
                  "%s: the cell with the nodes %s is not the one turned the other way" % (name, o))

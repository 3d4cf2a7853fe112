"""P12: the simplices a cell is cut into cover exactly the cell."""
import re
from fractions import Fraction as Fr
from sa import core, values as V
from sa.checks import p10
from sa.checks.p10 import Unknown
from sa.values import R

PARTS = ["interp", "medcoupling"]
EXPLAIN = ("Constant propagation through the code that cuts cells into triangles or tetrahedra, for every cell type and policy, on "
           "a cell of known node numbers and unknown coordinates: the corners of each simplex come out as weighted means of the "
           "nodes of the cell.  On that table the oriented faces of the simplices are added up: inner ones cancel, the others "
           "make up each face of the cell, as CellModel has it, once.")
ASSUME = ["the splitter's private tables are as after a first call",
          "on cells of the shape of the reference element the simplices do not overlap; on others their signed volumes still add up to that "
          "of the cell with its faces cut likewise"]
IK = "INTERP_KERNEL::"
IDS = [11 + 7 * i for i in range(24)]
SIZE = ("f", "#size")
HEXGP = [(1, 0), (Fr(1, 2), Fr(7, 8)), (Fr(-1, 2), Fr(7, 8)), (-1, 0), (Fr(-1, 2), Fr(-7, 8)), (Fr(1, 2), Fr(-7, 8))]


def enum(P, last):
    for n, e in P.E.items():
        if n.endswith("::" + last):
            return {k: int(v) for k, v in e[0]}
    raise core.AnalysisBroken("no enumeration " + last)


def fs(P, rx):
    return [f for n, f in sorted(P.F.items()) if re.match(rx, n) and not f.lam]


def only(fs_, what):
    if not fs_:
        raise core.AnalysisBroken("no function " + what)
    return fs_[0]


# ------------------------------------------------------------------ the geometry of a cut
def det(p):
    a, b, c, d = p
    u, v, w = ([x[k] - a[k] for k in range(3)] for x in (b, c, d))
    return (u[0] * (v[1] * w[2] - v[2] * w[1]) - u[1] * (v[0] * w[2] - v[2] * w[0]) + u[2] * (v[0] * w[1] - v[1] * w[0]))


def det2(p):
    a, b, c = p
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def even(t):
    """a triple up to rotation: (sorted triple, sign)"""
    s = tuple(sorted(t))
    i = t.index(s[0])
    return s, 1 if t[i:] + t[:i] == s else -1


class Cut:
    """a cell, its faces and the simplices: corners are tuples of (node, weight)"""

    def __init__(self, X, faces, tetra):
        self.X = X              # coordinates of the nodes
        self.faces = faces      # loops of nodes
        self.tetra = tetra      # faces of a simplex, as positions of its corners

    def at(self, c):
        return [sum(w * self.X[n][k] for n, w in c) for k in range(len(self.X[0]))]

    def check(self, sims, oriented):
        """what is wrong with a cut, or None"""
        d = len(self.X[0])
        for s in sims:
            for c in s:
                if sum(w for _, w in c) != 1 or any(w < 0 for _, w in c):
                    return "a corner is not a mean of the nodes: weights %s" % show(c)
        vols = [(det if d == 3 else det2)([self.at(c) for c in s]) for s in sims]
        flat = [s for s, v in zip(sims, vols) if not v]
        if flat:
            return "the simplex %s is flat" % shows(flat[0])
        ref = det([(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)]) if d == 3 else 1
        turn = [v * ref > 0 for v in vols]
        if oriented and len(set(turn)) > 1:
            k = turn.index(not max(set(turn), key=turn.count))
            return "the simplex %s is turned the other way than most" % shows(sims[k])
        chain = {}
        for s, t in zip(sims, turn):
            if not oriented and not t:
                s = s[:d - 1] + s[d - 1:][::-1]
            for f in self.tetra:
                k, g = even(tuple(s[i] for i in f)) if d == 3 else (tuple(sorted((s[f[0]], s[f[1]]))), 1 if s[f[0]] < s[f[1]] else -1)
                chain[k] = chain.get(k, 0) + g
                if not chain[k]:
                    del chain[k]
        if any(abs(n) > 1 for n in chain.values()):
            return "two simplices lie on the same side of %s" % shows(next(k for k, n in chain.items() if abs(n) > 1))
        if d == 2:
            return self.loops({k if n > 0 else k[::-1]: 1 for k, n in chain.items()}, [self.faces[0]], oriented)
        per = {}
        for k, n in chain.items():
            sup = {m for c in k for m, _ in c}
            fit = [i for i, f in enumerate(self.faces) if sup <= set(f)]
            if not fit:
                return "the triangle %s is the side of one simplex only and lies inside the cell" % shows(k)
            if len(fit) > 1:
                return "the triangle %s lies in two faces" % shows(k)
            per.setdefault(fit[0], []).append(k if n > 0 else (k[1], k[0], k[2]))
        sign = None
        for i, f in enumerate(self.faces):
            if i not in per:
                return "the face %s is not covered" % (list(f),)
            es = {}
            for t in per[i]:
                for a, b in ((t[0], t[1]), (t[1], t[2]), (t[2], t[0])):
                    if (b, a) in es:
                        del es[b, a]
                    elif (a, b) in es:
                        return "triangles of the face %s overlap" % (list(f),)
                    else:
                        es[a, b] = 1
            ok = [s for s in ((1, -1) if sign is None else (sign,)) if self.loops(es, [f[::s]], True) is None]
            if not ok:
                return "the triangles of the face %s do not make up the face" % (list(f),)
            sign = ok[0]
        if oriented and sign != 1:
            return "the simplices are turned inside out"
        return None

    def loops(self, es, loops, oriented):
        """oriented edges make exactly one turn along the loop"""
        nx = {}
        for a, b in es:
            if a in nx:
                return "the border is not a line"
            nx[a] = b
        for f in (loops if oriented else loops + [loops[0][::-1]]):
            n = 0
            for i, a in enumerate(f):
                b = f[(i + 1) % len(f)]
                x, w = ((a, Fr(1)),), Fr(0)
                while x in nx and x != ((b, Fr(1)),):
                    y = nx[x]
                    if not {m for m, _ in y} <= {a, b} or dict(y).get(b, 0) <= w:
                        break
                    x, w = y, dict(y)[b]
                    n += 1
                if x != ((b, Fr(1)),):
                    break
            else:
                if n == len(nx):
                    return None
        return "the border of the simplices is not the border of the cell"


def show(c):
    return " + ".join("%s*node %s" % (w, n) if w != 1 else "node %s" % n for n, w in c) or "nothing"


def shows(s):
    return "(" + ", ".join(show(c) for c in s) + ")"


# ------------------------------------------------------------------ what the code makes
def corner(vs, nodes):
    """the weighted mean of nodes that the coordinates stand for"""
    d = len(vs)
    out = []
    for k, v in enumerate(vs):
        if not isinstance(v, R):
            raise Unknown("a coordinate is %s" % (v,))
        w = {}
        for m, c in v.num.items():
            a = V.ATOMS[m[0][0]] if m else None
            if a is None or len(m) != 1 or m[0][1] != 1 or a[0] != "in" or a[1][0] != ("xyz",) or a[1][1][1].c is None or a[2]:
                raise Unknown("a coordinate is %s" % (v,))
            i, q = divmod(int(a[1][1][1].c), d)
            w[i if q == k else ("component", q, i)] = c
        if v.den is not None:
            raise Unknown("a coordinate is %s" % (v,))
        out.append(w)
    if any(o != out[0] for o in out):
        return ((("mixed components",), Fr(-1)),)
    bad = [n for n in out[0] if n not in nodes]
    if bad:
        return ((("node outside the cell",), Fr(-1)),)
    return tuple(sorted((nodes.index(n), c) for n, c in out[0].items()))


def sized(p, l):
    n = p.store.get(l + (SIZE,))
    if not isinstance(n, R) or n.c is None:
        raise Unknown("the size of an output is %s" % (n,))
    return [p.store.get(l + (("x", R.const(i)),)) for i in range(int(n.c))]


def number(v, what):
    if not isinstance(v, R) or v.c is None:
        raise Unknown("%s is %s" % (what, v))
    return int(v.c)


class Cells:
    def __init__(self, P):
        self.P = P
        self.made = 0
        self.K = K = p10.Kb(P)
        for t in sorted(K.types):
            if K.types[t] not in ("NORM_MAXTYPE", "NORM_ERROR"):
                K.M[t] = p10.Model(K, t)
        self.ty = {n: t for t, n in K.types.items()}
        self.ref = p10.reference(P, K)
        h = self.ty["NORM_HEXGP12"]
        self.ref.setdefault(h, [(x, y, z) for z in (1, -1) for x, y in HEXGP])
        tet = self.ty["NORM_TETRA4"]
        self.tet = [tuple(ps) for _, ps in K.sons(tet)]

    def linear(self, t):
        K = self.K
        fs_ = []
        for st, ps in K.sons(t):
            d = K.dim(st)
            fs_.append(tuple(ps))
        return fs_

    def cell(self, t):
        """(connectivity, Cut) of one cell of a type of fixed size"""
        K = self.K
        n = K.nodes(t)
        if K.dim(t) == 2:
            return IDS[:n], Cut(self.ref[t], [tuple(range(n))], [(0, 1), (1, 2), (2, 0)])
        return IDS[:n], Cut(self.ref[t], self.linear(t), self.tet)

    def polyhedra(self):
        """polyhedra with the faces of the fixed types"""
        for n in ("NORM_TETRA4", "NORM_PYRA5", "NORM_PENTA6", "NORM_HEXA8", "NORM_HEXGP12"):
            ids, cut = self.cell(self.ty[n])
            conn = []
            for f in cut.faces:
                conn += ([-1] if conn else []) + [ids[i] for i in f]
            yield n, ids, conn, cut


def one_path(I, f, args, this, init, what):
    ps = [p for p in I.paths(f, args, this=this, init=init)]
    if len(ps) != 1:
        raise Unknown("%s has %d outcomes" % (what, len(ps)))
    return ps[0]


def direct(P, C, R_):
    """SplitIntoTetras"""
    f = only(fs(P, re.escape(IK + "SplitIntoTetras(")), "SplitIntoTetras")
    pol = {v: k for k, v in enum(P, "SplittingPolicy").items()}
    cases = []
    for n in ("NORM_TETRA4", "NORM_PYRA5", "NORM_PENTA6", "NORM_HEXGP12"):
        ids, cut = C.cell(C.ty[n])
        cases.append((n, min(pol), C.ty[n], ids, ids, cut))
    ids, cut = C.cell(C.ty["NORM_HEXA8"])
    for q in sorted(pol):
        cases.append(("NORM_HEXA8 by " + pol[q], q, C.ty["NORM_HEXA8"], ids, ids, cut))
    for n, ids, conn, cut in C.polyhedra():
        cases.append(("NORM_POLYHED shaped as " + n, min(pol), C.ty["NORM_POLYHED"], ids, conn, cut))
    for name, q, t, ids, conn, cut in cases:
        def case():
            I = V.Interp(P)
            init = {(("conn",), ("x", R.const(i))): R.const(c) for i, c in enumerate(conn)}
            tv, av = (("tet",),), (("add",),)
            init[tv + (SIZE,)] = init[av + (SIZE,)] = V.ZERO
            a = (("conn",), ("x", V.ZERO))
            p = one_path(I, f, [R.const(q), R.const(t), V.Ptr(a), V.Ptr((("conn",), ("x", R.const(len(conn))))),
                                V.Ptr((("xyz",), ("x", V.ZERO))), V.LV(tv), V.LV(av)], None, init, f.nm)
            within(R_, I, "SplitIntoTetras " + name, f)
            if p.thrown:
                return R_.ob("cover", "SplitIntoTetras " + name, False, f.loc(), "%s: the cell is refused" % name)
            tet, add = sized(p, tv), sized(p, av)
            if len(tet) % 4 or len(add) % 3:
                return R_.ob("cover", "SplitIntoTetras " + name, False, f.loc(), "%s: sizes %d and %d" % (name, len(tet), len(add)))
            cs = []
            for v in tet:
                i = number(v, "a node of a tetrahedron")
                if i >= 0:
                    cs.append(((ids.index(i), Fr(1)),) if i in ids else ((("node outside the cell",), Fr(-1)),))
                else:
                    k = -i - 1
                    if 3 * k + 3 > len(add):
                        cs.append(((("added node without coordinates",), Fr(-1)),))
                    else:
                        cs.append(corner(add[3 * k:3 * k + 3], ids))
            sims = [tuple(cs[4 * i:4 * i + 4]) for i in range(len(cs) // 4)]
            bad = cut.check(sims, True)
            R_.ob("cover", "SplitIntoTetras " + name, bad is None, f.loc(), "%s: %s" % (name, bad))
            C.made += len(sims)
        attempt(R_, "SplitIntoTetras " + name, case)


def attempt(R_, what, fn):
    try:
        fn()
    except (Unknown, V.TooDeep) as e:
        R_.skip(what, "not decided: %s" % e)


def within(R_, I, key, f):
    o = sorted("%s element %s of %s, which has %s" % ("writes" if w else "reads", i, "a table of %s" % (g.nm if g else f.nm), n)
               for (l, i, n, w), g in I.outside.items())
    R_.ob("within", key, not o, f.loc(), "%s: the cut %s" % (key, o and o[0]))


def splitter(P, C, R_):
    """SplitterTetra2, as the intersectors use it"""
    pol = {v: k for k, v in enum(P, "SplittingPolicy").items()}
    fl = fs(P, re.escape(IK + "SplitterTetra2<") + r".*>::splitTargetCell2?\(")
    if not fl:
        raise core.AnalysisBroken("no SplitterTetra2")
    seen = set()
    for f in fl:
        m = re.match(r".*SplitterTetra2<(MEDCouplingNormalizedUnstructuredMesh<(\d), (\d)>), (.*)>::splitTargetCell(2?)\(", f.name)
        if not m or m.group(2) != "3" or m.group(3) != "3":
            continue
        src = m.group(4)
        whole = m.group(5) == "2"
        tag = "SplitterTetra2" + ("::splitTargetCell2" if whole else "") + ("" if src == m.group(1) else " of " + src.rsplit("::", 1)[-1])
        if tag in seen:
            continue
        seen.add(tag)
        cases = []
        for n in ("NORM_TETRA4", "NORM_PYRA5", "NORM_PENTA6", "NORM_HEXGP12"):
            ids, cut = C.cell(C.ty[n])
            cases.append((n, min(pol), C.ty[n], ids, ids, cut))
        ids, cut = C.cell(C.ty["NORM_HEXA8"])
        for q in sorted(pol):
            cases.append(("NORM_HEXA8 by " + pol[q], q, C.ty["NORM_HEXA8"], ids, ids, cut))
        for n, ids, conn, cut in C.polyhedra():
            cases.append(("NORM_POLYHED shaped as " + n, min(pol), C.ty["NORM_POLYHED"], ids, conn, cut))
        for name, q, t, ids, conn, cut in cases:
            def case():
                I = V.Interp(P)
                made = {}

                def ctor(I, a, l):
                    if len(a) != 3:
                        return False
                    nd, cn = I.decay(a[1]), I.decay(a[2])
                    r = []
                    flat = isinstance(nd, V.Ptr) and not isinstance(I.read(nd.target()), V.Ptr)
                    for j in range(4):
                        if flat:
                            r.append((I.read(cn.move(R.const(j)).target()), [I.read(nd.move(R.const(3 * j + k)).target()) for k in range(3)]))
                            continue
                        p = I.read(nd.move(R.const(j)).target()) if isinstance(nd, V.Ptr) else None
                        if not isinstance(p, V.Ptr):
                            raise Unknown("the corners of a tetrahedron are %s" % (p,))
                        r.append((I.read(cn.move(R.const(j)).target()), [I.read(p.move(R.const(k)).target()) for k in range(3)]))
                    made[l] = r
                    return True
                M = m.group(1) + "::"
                nn = len([c for c in conn if c != -1])
                zero = ("x", V.ZERO)
                I.hooks.update({
                    p10.CM + "GetCellModel": C.K.model,
                    M + "getConnectivityPtr": lambda I, a: V.Ptr((("conn",), zero)),
                    M + "getConnectivityIndexPtr": lambda I, a: V.Ptr((("ci",), zero)),
                    M + "getCoordinatesPtr": lambda I, a: V.Ptr((("xyz",), zero)),
                    M + "getTypeOfElement": lambda I, a: R.const(t),
                    M + "getNumberOfNodesOfElement": lambda I, a: R.const(nn),
                    IK + "SplitterTetra<%s>::SplitterTetra" % src: ctor})
                init = {(("conn",), ("x", R.const(i))): R.const(c) for i, c in enumerate(conn)}
                init[(("ci",), zero)] = V.ZERO
                init[(("ci",), ("x", V.R1))] = R.const(len(conn))
                this = (("this",),)
                init[this + (("f", "_splitting_pol"),)] = R.const(q)
                for n in ("_nodes", "_node_ids"):
                    init[this + (("f", n), SIZE)] = V.ZERO
                out = (("tet",),)
                init[out + (SIZE,)] = V.ZERO
                p = one_path(I, f, [V.ZERO] + ([] if whole else [R.const(nn)]) + [V.LV(out)], this, init, f.nm)
                if p.thrown:
                    return R_.ob("cover", tag + " " + name, False, f.loc(), "%s: the cell is refused" % name)
                sims = []
                left, wrong, named = [], [], {}
                for v in sized(p, out):
                    if not isinstance(v, V.Ptr) or v.loc not in made:
                        raise Unknown("a tetrahedron is %s" % (v,))
                    sims.append(tuple(corner(x, ids) for _, x in made[v.loc]))
                    left += [i for i, _ in made[v.loc] if not isinstance(i, R) or any(a[0] == "in" and a[1][0] == this[0] for a in i.atoms())]
                    for i, x in made[v.loc]:
                        c = corner(x, ids)
                        if len(c) == 1 and c[0][1] == 1 and isinstance(i, R) and i.c is not None:
                            # the number of the node in the mesh or in the cell
                            if named.setdefault(c, i.c) != i.c or i.c not in (ids[c[0][0]], c[0][0]):
                                wrong.append("the corner at %s is given the number %s" % (show(c), i))
                bad = cut.check(sims, False)
                R_.ob("cover", tag + " " + name, bad is None, f.loc(), "%s: %s" % (name, bad))
                within(R_, I, tag + " " + name, f)
                R_.ob("identifiers", tag + " " + name, not left and not wrong, f.loc(), "%s: %s" % (name, wrong[0] if wrong else
                      "the number given to a corner is read from %s, where there is nothing" % (left and left[0])))
                C.made += len(sims)
            attempt(R_, tag + " " + name, case)


def dual(P, C, R_):
    """the cells of the dual mesh inside a triangle or a tetrahedron"""
    zero = ("x", V.ZERO)
    for f in fs(P, re.escape(IK + "fillDualCellOfTri<") + r"[23]>\("):
        dim = int(f.name.split("<")[1][0])

        def tri():
            sims = []
            for k in range(3):
                I = V.Interp(P)
                # the triangle as seen from its node k
                init = {(("in",), ("x", R.const(dim * i + c))): R.atom(("in", (("xyz",), ("x", R.const(dim * ((i + k) % 3) + c))), 0))
                        for i in range(3) for c in range(dim)}
                p = one_path(I, f, [V.Ptr((("in",), zero)), V.Ptr((("out",), zero))], None, init, f.nm)
                q = [corner([p.store.get((("out",), ("x", R.const(dim * i + c)))) for c in range(dim)], [0, 1, 2]) for i in range(4)]
                n = [i for i, c in enumerate(q) if c == ((k, Fr(1)),)]
                if len(n) != 1:
                    return R_.ob("dual", "%s in dimension %d" % (f.nm, dim), False, f.loc(),
                                 "the cell around node %d has the corners %s" % (k, shows(q)))
                q = q[n[0]:] + q[:n[0]]
                sims += [(q[0], q[1], q[2]), (q[0], q[2], q[3])]
                R_.ob("dual", "%s in dimension %d node %d" % (f.nm, dim, k), all(dict(c).get(k, 0) >= w for c in q for _, w in c), f.loc(),
                      "the cell around node %d reaches %s" % (k, shows(q)))
            bad = Cut([(0, 0), (1, 0), (0, 1)], [(0, 1, 2)], [(0, 1), (1, 2), (2, 0)]).check(sims, True)
            R_.ob("dual", "%s in dimension %d" % (f.nm, dim), bad is None, f.loc(), "the cells around the three nodes: %s" % bad)
            C.made += len(sims)
        attempt(R_, "%s in dimension %d" % (f.nm, dim), tri)
    for f in fs(P, re.escape(IK + "SplitterTetra<") + r".*>::splitMySelfForDual\("):
        if "3, 3>" not in f.name:
            continue

        def tet():
            sims = []
            this = (("this",),)
            bad = None
            for i in range(24):
                I = V.Interp(P)
                init = {this + (("f", "_coords"), ("x", R.const(k))): R.atom(("in", (("xyz",), ("x", R.const(k))), 0)) for k in range(12)}
                init.update({this + (("f", "_conn"), ("x", R.const(k))): R.const(IDS[k]) for k in range(4)})
                o, n = (("out",),), (("id",),)
                p = one_path(I, f, [V.Ptr(o + (zero,)), R.const(i), V.LV(n)], this, init, f.nm)
                s = [corner([p.store.get(o + (("x", R.const(3 * k + c)),)) for c in range(3)], [0, 1, 2, 3]) for k in range(4)]
                if any(None in c for c in s):
                    raise Unknown("a corner")
                sims.append(tuple(s))
                k = IDS.index(number(p.store.get(n), "the number of the node"))
                if not any(c == ((k, Fr(1)),) for c in s) or any(dict(c).get(k, 0) < w for c in s for _, w in c):
                    bad = bad or "part %d, said to be around node %d, is %s" % (i, k, shows(s))
            R_.ob("dual", f.nm + " nodes", bad is None, f.loc(), str(bad))
            bad = Cut([(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)], C.tet, C.tet).check(sims, False)
            R_.ob("dual", f.nm, bad is None, f.loc(), "the 24 parts: %s" % bad)
            C.made += 24
        attempt(R_, f.nm, tet)


def arrays(P, C, R_):
    """simplexize: the connectivity arrays rewritten cell by cell"""
    for cls, typed in (("MEDCouplingUMesh", True), ("MEDCoupling1SGTUMesh", False)):
        for f in fs(P, re.escape("MEDCoupling::%s::" % cls) + r"simplexize\w+\(\)"):
            name = cls + "::" + f.nm
            try:
                one_simplexize(P, C, R_, f, name, typed)
            except (Unknown, V.TooDeep) as e:
                R_.skip(name, "not decided: %s" % e)


OPAQUE = ["::alloc", "::check", "GetCellModel", "::getNumberOf", "::Range(", "::computeTypes", "::updateTime", "::getMeshDimension", "::decrRef",
          "::incrRef", "::retn", "::iota", "::getNodalConnectivityArrayLen", "::declareAsNew", "MCAuto", "::New("]


def one_simplexize(P, C, R_, f, name, typed):
    K = C.K

    bufs = {}

    def gp(I, a):
        I.nbuf = getattr(I, "nbuf", 0) + 1
        return V.Ptr((("buf", I.nbuf, I.nfresh), ("x", V.ZERO)))
    I = V.Interp(P, opaque=OPAQUE)
    for g in P.D:
        if re.match(r"MEDCoupling::DataArrayTemplate<long>::(getPointer|begin|getConstPointer|rwBegin|cbegin)\(", g):
            I.hooks[g.split("(")[0]] = gp
    models = []

    def gm(I, a):
        v = I.rv(a[0]) if a else None
        if isinstance(v, R) and v.c is not None:
            models.append(int(v.c))
        return None
    I.hooks[p10.CM + "GetCellModel"] = gm
    for g in P.D:
        if g.startswith("MEDCoupling::MEDCoupling1") and "::getCellModelEnum(" in g:
            I.hooks[g.split("(")[0]] = lambda I, a: R.atom(("in", (("this",), ("f", "type")), 0))
    found = set()
    for p in I.paths(f, [], this=(("this",),)):
        if p.thrown:
            continue
        groups = {}
        for l, v in p.store.items():
            if l[0][0] == "buf" and len(l) == 2 and l[1][0] == "x" and isinstance(v, R):
                i = l[1][1]
                c = i.num.get((), Fr(0))
                groups.setdefault((l[0], (i - R.const(c)).key()), {})[int(c)] = v
        for (b, _), g in groups.items():
            vs = [g[k] for k in sorted(g)]
            if sorted(g) != list(range(min(g), min(g) + len(g))):
                continue
            loc = [source(v) for v in vs]
            if len([x for x in loc if x is not None]) < 3:
                continue
            want = [int(c[0]) for c, pol in type_tests(p, typed) if pol]
            if len(want) != 1 or want[0] not in K.M:
                raise Unknown("the type of the cell cut is not compared with one type")
            t = want[0]
            ids, cut = C.cell(t)
            d = K.dim(t)
            base = next(x[0] for x in loc if x is not None)
            if typed:
                n = d + 2
                cells = [loc[i:i + n] for i in range(0, len(loc), n)]
                heads = [vs[i] for i in range(0, len(vs), n)]
                ok = all(isinstance(h, R) and h.c is not None for h in heads)
                if len(loc) % n or not ok:
                    raise Unknown("cells of %s" % name)
                tys = {int(h.c) for h in heads}
                pos = [[x and x[1] - 1 for x in c[1:]] for c in cells]
                same = all(x is not None and x[0] == base for c in cells for x in c[1:])
            else:
                n = d + 1
                if len(loc) % n:
                    raise Unknown("cells of %s" % name)
                tys = set(models[-1:])
                pos = [[x and x[1] for x in loc[i:i + n]] for i in range(0, len(loc), n)]
                same = all(x is not None and x[0] == base for x in loc)
            if not same:
                raise Unknown("nodes of several origins in %s" % name)
            key = "%s %s" % (name, K.types[t])
            if key in found:
                continue
            found.add(key)
            simp = {C.ty["NORM_TRI3"] if d == 2 else C.ty["NORM_TETRA4"]}
            R_.ob("type", key, tys == simp, f.loc(), "%s: the cells made are said to be of type %s" % (
                key, ", ".join(K.types.get(x, "?") for x in tys)))
            k = K.nodes(t)
            if any(x < 0 or x >= k for c in pos for x in c):
                R_.ob("cover", key, False, f.loc(), "%s: the nodes %s are taken of a cell of %d nodes" % (key, pos, k))
                continue
            bad = cut.check([tuple(((x, Fr(1)),) for x in c) for c in pos], True)
            R_.ob("cover", key, bad is None, f.loc(), "%s: %s" % (key, bad))
            C.made += len(pos)
    if not found:
        raise Unknown("no cell seen to be cut")


def source(v):
    """(base, offset) of an element of another array"""
    a = v.the_atom
    if a is None or a[0] != "in" or a[1][0][0] not in ("buf", "*"):
        return None
    i = a[1][-1]
    if i[0] != "x":
        return None
    c = i[1].num.get((), Fr(0))
    return (a[1][:-1], (i[1] - R.const(c)).key()), int(c)


def type_tests(p, typed):
    for c, pol in p.conds.items():
        a = c[-1].the_atom if isinstance(c[-1], R) else None
        if a is None or a[0] != "cmp" or a[1] != "==":
            continue
        d = a[2] - a[3]
        k = d.num.get((), Fr(0))
        rest = d - R.const(k)
        x = rest.the_atom if rest.the_atom else (-rest).the_atom
        if x is None:
            continue
        if not rest.the_atom:
            k = -k
        if x[0] == "in" and (x[1][0][0] == "buf" and typed or x[1][-1] == ("f", "type") and not typed):
            yield (-k, x), pol


def run(P, R_, tier):
    C = Cells(P)
    direct(P, C, R_)
    splitter(P, C, R_)
    dual(P, C, R_)
    arrays(P, C, R_)
    R_.count("simplices", C.made)
    R_.floor("cover", 24)
    R_.floor("identifiers", 6)
    R_.floor("within", 20)
    R_.floor("type", 3)
    R_.floor("dual", 4)

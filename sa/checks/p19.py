"""P19: parts, ghost zones and refinements of structured grids address the cells their indices announce."""
import itertools
from fractions import Fraction as Fr
from sa import values as V, arrays as A
from sa.bench import Bench, Point, Arr, Raw, End, Out, Vec, Pair, grid, sym, ids, THROWS, DBL, I64, MC
from sa.values import R, Ptr, LV

PARTS = ["interp", "medcoupling"]
EXPLAIN = ("The functions on parts of structured grids are followed through their own code for grids of one, two and three dimensions whose "
           "sizes differ along each axis, with cell values that are unknown.  Each cell of the result has to hold the very value, sum "
           "or product announced by the indices of that cell; the other cells have to keep theirs.  Reads and writes outside an array are "
           "violations too.  One obligation per function, grid, part, refinement and ghost level.")
ASSUME = ["arithmetic is exact", "grids have at most six cells along an axis, two components; the refinement factors are at least the ghost level"]
IM, SM = MC + "MEDCouplingIMesh", MC + "MEDCouplingStructuredMesh"


def cells(st):
    """positions in the order of their identifiers"""
    return [tuple(reversed(p)) for p in itertools.product(*[range(n) for n in reversed(st)])]


def prod(l):
    n = 1
    for x in l:
        n *= x
    return n


def number(st, pos):
    n, f = 0, 1
    for s, p in zip(st, pos):
        n += f * p
        f *= s
    return n


def rng(part):
    return Vec([Pair(a, b) for a, b in part])


def vec(l):
    return Vec(list(l))


def inside(part, pos):
    return all(a <= p < b for (a, b), p in zip(part, pos))


class Cells:
    """values of the cells of a grid, with a ghost zone"""

    def __init__(self, name, st, nc, g=0):
        self.st, self.nc, self.g = [n + 2 * g for n in st], nc, g
        self.vals = grid(name, prod(self.st), nc)

    def at(self, pos, c):
        return self.vals[number(self.st, [p + self.g for p in pos]) * self.nc + c]

    def arr(self):
        return Arr(prod(self.st), self.nc, list(self.vals))

    def made(self, fn):
        """array whose value at (position, component) is fn(position, component)"""
        return Arr(prod(self.st), self.nc, [fn(tuple(x - self.g for x in p), c) for p in cells(self.st) for c in range(self.nc)])


GRIDS = [([5], [(1, 4)], [3]), ([4], [(0, 4)], [2]), ([4], [(2, 3)], [1]),
         ([4, 3], [(1, 3), (0, 2)], [2, 3]), ([3, 4], [(0, 1), (1, 4)], [3, 2]), ([3, 2], [(0, 3), (0, 2)], [2, 2]), ([5, 3], [(2, 4), (1, 3)], [1, 2]),
         ([3, 4, 2], [(1, 3), (0, 2), (0, 1)], [2, 1, 3]), ([2, 3, 3], [(0, 1), (1, 3), (1, 3)], [1, 3, 2]), ([2, 2, 3], [(0, 2), (0, 2), (1, 3)], [2, 2, 1]),
         ([4, 2, 3], [(1, 3), (0, 2), (1, 3)], [1, 2, 1])]


def title(st, part, facts=None, g=None):
    return "grid %s part %s" % ("x".join(map(str, st)), "x".join("%d-%d" % p for p in part)) + \
        (" refined %s" % "x".join(map(str, facts)) if facts else "") + (" ghost %d" % g if g is not None else "")


def sub(part, facts, q):
    """fine cells of the coarse cell q (positions in the fine grid)"""
    return itertools.product(*[range((x - a) * f, (x - a + 1) * f) for x, (a, b), f in zip(q, part, facts)])


def refine(B):
    for st, part, facts in GRIDS:
        fst = [(b - a) * f for (a, b), f in zip(part, facts)]
        for nc in (1, 2) if len(st) < 3 else (1,):
            C, F = Cells("c", st, nc), Cells("f", fst, nc)
            k = title(st, part, facts) + ", %d component%s" % (nc, "s" * (nc > 1))

            def total(F):
                return lambda p, c: sum((F.at(q, c) for q in sub(part, facts, p)), V.ZERO)

            def up(F):
                return lambda C: C.made(lambda p, c: total(F)(p, c) if inside(part, p) else C.at(p, c))
            B.case("condensed values are sums", k, IM, "CondenseFineToCoarse", None, [vec(st), F.arr(), rng(part), vec(facts), C.arr()],
                   outs={4: up(F)(C)})

            def below(C, clip):
                def fn(p, c):
                    q = []
                    for x, (a, b), f in zip(p, part, facts):
                        y = a + x // f
                        q.append(max(a - 1, min(b, y)) if clip else y)
                    return C.at(q, c)
                return fn
            B.case("spread values are copies", k, IM, "SpreadCoarseToFine", None, [C.arr(), vec(st), F.arr(), rng(part), vec(facts)],
                   outs={2: F.made(below(C, False))})
            for g in (0, 1, 2):
                if g > min(facts):
                    continue
                CG, FG = Cells("c", st, nc, g), Cells("f", fst, nc, g)
                kg = title(st, part, facts, g) + ", %d component%s" % (nc, "s" * (nc > 1))
                B.case("condensed values are sums", kg, IM, "CondenseFineToCoarseGhost", None,
                       [vec(st), FG.arr(), rng(part), vec(facts), CG.arr(), g],
                       outs={4: CG.made(lambda p, c: total(FG)(p, c) if inside(part, p) else CG.at(p, c))})
                B.case("spread values are copies", kg, IM, "SpreadCoarseToFineGhost", None,
                       [CG.arr(), vec(st), FG.arr(), rng(part), vec(facts), g], outs={2: FG.made(below(CG, True))})
                core = [(0, n) for n in fst]
                B.case("ghost zone receives copies", kg, IM, "SpreadCoarseToFineGhostZone", None,
                       [CG.arr(), vec(st), FG.arr(), rng(part), vec(facts), g],
                       outs={2: FG.made(lambda p, c: FG.at(p, c) if inside(core, p) else below(CG, True)(p, c))})


def refused(B):
    st, part, facts = [4, 3], [(1, 3), (0, 2)], [2, 3]
    n, m = 12, 24
    a = lambda k, nc=1: Arr(k, nc, grid("v", k, nc))
    for what, c, f, s, p, fa in [("coarse values too few", a(11), a(m), st, part, facts), ("coarse values too many", a(13), a(m), st, part, facts),
                                 ("fine values too few", a(n), a(23), st, part, facts), ("fine values too many", a(n), a(48), st, part, facts),
                                 ("components differ", a(n, 2), a(m), st, part, facts), ("factors of another dimension", a(n), a(m), st, part, [2, 3, 1]),
                                 ("part of another dimension", a(n), a(m), st, part + [(0, 1)], facts),
                                 ("reversed range", a(n), a(m), st, [(3, 1), (0, 2)], facts)]:
        B.case("mismatched arguments are refused", "CondenseFineToCoarse " + what, IM, "CondenseFineToCoarse", None, [vec(s), f, rng(p), vec(fa), c], THROWS)
        B.case("mismatched arguments are refused", "SpreadCoarseToFine " + what, IM, "SpreadCoarseToFine", None, [c, vec(s), f, rng(p), vec(fa)], THROWS)
    n, m = 30, 48
    for what, c, f, s, p, fa, g in [("coarse values too few", a(29), a(m), st, part, facts, 1), ("coarse values too many", a(31), a(m), st, part, facts, 1),
                                    ("fine values too few", a(n), a(47), st, part, facts, 1), ("fine values too many", a(n), a(49), st, part, facts, 1),
                                    ("components differ", a(n, 2), a(m), st, part, facts, 1), ("factors of another dimension", a(n), a(m), st, part, [2, 3, 1], 1),
                                    ("part of another dimension", a(n), a(m), st, part + [(0, 1)], facts, 1),
                                    ("ghost level of the arrays is another", a(n), a(m), st, part, facts, 2),
                                    ("negative ghost level", a(n), a(m), st, part, facts, -1)]:
        B.case("mismatched arguments are refused", "CondenseFineToCoarseGhost " + what, IM, "CondenseFineToCoarseGhost", None, [vec(s), f, rng(p), vec(fa), c, g], THROWS)
        for nm in ("SpreadCoarseToFineGhost", "SpreadCoarseToFineGhostZone"):
            B.case("mismatched arguments are refused", "%s %s" % (nm, what), IM, nm, None, [c, vec(s), f, rng(p), vec(fa), g], THROWS)


def parts(B):
    x = sym("x")
    for st, part, facts in GRIDS + [([4, 3], [(1, 1), (0, 2)], None), ([3, 3, 2], [(0, 3), (2, 3), (0, 2)], None)]:
        k = title(st, part)
        C = Cells("c", st, 2)
        inp = [p for p in cells(st) if inside(part, p)]
        B.case("part of values", k, SM, "ExtractFieldOfDoubleFrom", None, [vec(st), C.arr(), rng(part)],
               Arr(len(inp), 2, [C.at(p, c) for p in inp for c in range(2)]))
        B.case("identifiers of a part", k, SM, "BuildExplicitIdsFrom", None, [vec(st), rng(part)], ids(*[number(st, p) for p in inp]))
        bo = [sym("b%d" % i) for i in range(prod(st))]
        B.case("part of booleans", k, SM, "ExtractFieldOfBoolFrom", None, [vec(st), vec(bo), rng(part), Vec([])],
               outs={3: vec([bo[number(st, p)] for p in inp])})
        B.case("identifiers switched on", k, SM, "SwitchOnIdsFrom", None, [vec(st), rng(part), vec(bo)],
               outs={2: vec([1 if inside(part, p) else bo[number(st, p)] for p in cells(st)])})
        B.case("part multiplied", k, SM, "MultiplyPartOf", None, [vec(st), rng(part), x, C.arr()],
               outs={3: C.made(lambda p, c: C.at(p, c) * x if inside(part, p) else C.at(p, c))})
        for g in (0, 1, 2):
            G = Cells("c", st, 1, g)
            B.case("part multiplied", k + " ghost %d" % g, SM, "MultiplyPartOfByGhost", None, [vec(st), rng(part), g, x, G.arr()],
                   outs={4: G.made(lambda p, c: G.at(p, c) * x if inside(part, p) else G.at(p, c))})
        if inp:
            D = Cells("d", [b - a for a, b in part], 2)
            B.case("part assigned", k, SM, "AssignPartOfFieldOfDoubleUsing", None, [vec(st), C.arr(), rng(part), D.arr()],
                   outs={1: C.made(lambda p, c: D.at([y - a for y, (a, b) in zip(p, part)], c) if inside(part, p) else C.at(p, c))})
        # every part that leaves the grid
        for d in range(len(st)):
            for what, r in (("before the first", (-1, part[d][1])), ("after the last", (part[d][0], st[d] + 1)), ("reversed", (part[d][1] + 1, part[d][1]))):
                bad = part[:d] + [r] + part[d + 1:]
                kb = "%s axis %d %s" % (k, d, what)
                if r[0] > st[d]:
                    continue
                B.case("parts outside are refused", "ExtractFieldOfDoubleFrom " + kb, SM, "ExtractFieldOfDoubleFrom", None, [vec(st), C.arr(), rng(bad)], THROWS)
                B.case("parts outside are refused", "BuildExplicitIdsFrom " + kb, SM, "BuildExplicitIdsFrom", None, [vec(st), rng(bad)], THROWS)
                B.case("parts outside are refused", "MultiplyPartOf " + kb, SM, "MultiplyPartOf", None, [vec(st), rng(bad), x, C.arr()], THROWS)
                B.case("parts outside are refused", "SwitchOnIdsFrom " + kb, SM, "SwitchOnIdsFrom", None, [vec(st), rng(bad), vec(bo)], THROWS)
                B.case("parts outside are refused", "ExtractFieldOfBoolFrom " + kb, SM, "ExtractFieldOfBoolFrom", None, [vec(st), vec(bo), rng(bad), Vec([])], THROWS)


class Meshes(A.Real):
    """unstructured copies locate points as announced"""

    def __call__(self, I, name, rl, args):
        q = name.split("(")[0]
        b = q.rsplit("::", 1)[-1]
        if b == "checkConsistencyLight":
            return V.ZERO
        if b == "buildUnstructured":
            l = (("o", "copy"),)
            I.cls[l] = MC + "MEDCouplingUMesh"
            return Ptr(l)
        if rl and rl[0] == ("o", "copy"):
            if b == "getCellContainingPoint":
                return R.const(self.want if self.want is not None else -1)
            if b == "getCellsContainingPoint":
                v = I.rv(args[2]) if not isinstance(args[2], LV) else args[2]
                n = I.num(I.store.get(v.loc + (("f", "#size"),), V.ZERO))
                if self.want is not None:
                    I.store[v.loc + (("x", n),)] = R.const(self.want)
                    n = n + V.R1
                I.store[v.loc + (("f", "#size"),)] = n
                return V.ZERO
            return V.ZERO if b in ("decrRef", "incrRef") else None
        return A.Real.__call__(self, I, name, rl, args)


def axis(n, k):
    """positions along an axis of n nodes at 0, 1, ... and the cells they are in"""
    m = n - 1
    l = [(-.4, ()), (-.9, ()), (m + .4, ()), (-1.7, ())] if k else [(-.4, ()), (m + .4, ())]
    l += [(i + .3, (i,)) for i in range(m)]
    if k:
        l += [(0., (0,)), (float(m), (m - 1,)), (-.0004, (0,)), (m + .0004, (m - 1,)), (-.002, ()), (m + .002, ())]
        l += [(float(i), (i - 1, i)) for i in range(1, m)]
    return l


def locate(B):
    P = B.P
    for cls, nodes in [(c, n) for c in ("MEDCouplingIMesh", "MEDCouplingCMesh", "MEDCouplingCurveLinearMesh")
                       for n in ((2,), (4,), (4, 3), (3, 4), (3, 4, 3))]:
        one, many = B.find(MC + cls, "getCellContainingPoint"), B.find(MC + cls, "getCellsContainingPoint")
        dim = len(nodes)
        ax = [axis(k, (dim < 3) and cls != "MEDCouplingCurveLinearMesh") for k in nodes]
        for pts in itertools.product(*ax):
            at = {"e": 0.001}
            at.update(("p%d" % i, 10. + i + 2. * q[0]) for i, q in enumerate(pts))
            allowed = {number([k - 1 for k in nodes], c) for c in itertools.product(*[q[1] for q in pts])}
            for f in (one, many):
                key = "%s %s" % (cls, f.nm)
                try:
                    got = where(P, cls, f, nodes, at, allowed)
                except V.TooDeep as e:
                    B.R.skip("points %s %s" % (key, nodes), "not followed: %s" % str(e)[:150])
                    continue
                ok = set(got) <= allowed and (bool(got) == bool(allowed))
                B.R.ob("points are in the cell found", "%s, nodes %s, at %s" % (key, "x".join(map(str, nodes)), " ".join("%g" % q[0] for q in pts)), ok, f.loc(),
                       "%s: on a grid of %s nodes a point at %s steps from the first node is found in %s instead of %s" % (
                           key, "x".join(map(str, nodes)), ", ".join("%g" % q[0] for q in pts), got or "no cell",
                           sorted(allowed) or "no cell"))


def where(P, cls, f, nodes, at, allowed):
    """cells found, as numbers"""
    st, H = {}, Meshes()
    H.want = min(allowed) if allowed else None
    t = (("o", "mesh"),)
    H.cls[t] = MC + cls
    at = dict(at)
    for i, k in enumerate(nodes):
        at["o%d" % i], at["d%d" % i] = 10. + i, 2.
    if cls == "MEDCouplingIMesh":
        st[t + (("f", "_space_dim"),)] = R.const(len(nodes))
        for i, k in enumerate(nodes):
            for nm, v in (("_origin", sym("o%d" % i)), ("_dxyz", sym("d%d" % i)), ("_structure", R.const(k))):
                st[t + (("f", nm), ("x", R.const(i)))] = v
    elif cls == "MEDCouplingCMesh":
        for i, nm in enumerate(("_x_array", "_y_array", "_z_array")):
            if i >= len(nodes):
                st[t + (("f", nm),)] = Ptr((("null",),))
                continue
            vals = [sym("n%d.%d" % (i, j)) for j in range(nodes[i])]
            at.update(("n%d.%d" % (i, j), 10. + i + 2. * j) for j in range(nodes[i]))
            st[t + (("f", nm),)] = Ptr(H.array(st, "axis%d" % i, nodes[i], 1, vals, DBL))
    else:
        vals = []
        for p in cells(nodes):
            for i, x in enumerate(p):
                vals.append(sym("c%d" % len(vals)))
                at["c%d" % (len(vals) - 1)] = 10. + i + 2. * x
        c = H.array(st, "coords", prod(nodes), len(nodes), vals, DBL)
        st[t + (("f", "_coords"), ("f", "_ptr"))] = Ptr(c)
        for i, k in enumerate(nodes):
            st[t + (("f", "_structure"), ("x", R.const(i)))] = R.const(k)
        st[t + (("f", "_structure"), ("f", "#size"))] = R.const(len(nodes))
    pos = (("o", "pos"),)
    for i in range(len(nodes)):
        st[pos + (("x", R.const(i)),)] = sym("p%d" % i)
    st[pos + (("f", "#size"),)] = R.const(len(nodes))
    out = (("o", "found"),)
    st[out + (("f", "#size"),)] = V.ZERO
    args = [Ptr(pos + (("x", V.ZERO),)), sym("e")] + ([LV(out)] if len(f.params) > 2 else [])
    sign = Point(1, at)
    I = V.Interp(P, decide=sign.decide, maxpaths=8)
    I.meth = H
    V.SIGN = sign
    try:
        ps = I.paths(f, args, this=t, init=st, cls=H.cls)
    finally:
        V.SIGN = None
    if len(ps) != 1:
        raise V.TooDeep("%d paths" % len(ps))
    if I.outside:
        return ["memory outside of an array"]
    p = ps[0]
    if p.thrown:
        return ["an exception"]
    def value(v):
        if not isinstance(v, R) or V.murky(v):
            raise V.TooDeep("the cell found is not known")
        return int(round(sign.num(v)))
    if len(f.params) > 2:
        n = value(p.store.get(out + (("f", "#size"),)))
        return [value(p.store.get(out + (("x", R.const(i)),))) for i in range(n)]
    v = value(p.ret)
    return [v] if v >= 0 else []


def run(P, R_, tier):
    B = Bench(P, R_)
    for f in (locate, refine, refused, parts):
        f(B)
    for rule, n in (("points are in the cell found", 400), ("condensed values are sums", 30), ("spread values are copies", 30),
                    ("ghost zone receives copies", 20), ("mismatched arguments are refused", 20), ("part of values", 6),
                    ("identifiers of a part", 6), ("part of booleans", 6), ("identifiers switched on", 6), ("part multiplied", 20),
                    ("part assigned", 5), ("parts outside are refused", 100)):
        R_.floor(rule, n)
    R_.count("functions of the classes of grids", sum(len(v) for (c, m), v in B.byname.items() if c in (
        IM, SM, MC + "MEDCouplingCMesh", MC + "MEDCouplingCurveLinearMesh")))

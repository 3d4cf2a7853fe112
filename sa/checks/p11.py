"""P11: shape functions of the reference elements are the interpolation functions of their reference nodes."""
from fractions import Fraction as Fr
from sa import core, values as V
from sa.core import short
from sa.values import R

PARTS = ["interp", "medcoupling"]
EXPLAIN = ("Constant and polynomial propagation through GaussInfo: for every cell type and every reference element the code "
           "tries for it, the reference coordinates (constants) and the shape functions and their derivatives (polynomial "
           "fractions of the point) are read off the control-flow graph, and the identities between them are compared as "
           "normal forms.  One obligation per identity, shape function and node.")
ASSUME = ["arithmetic is exact; decimal constants agree within 1e-6",
          "inside the guard around the apex of pyramids the values are judged at the apex, the derivatives are not"]
EPS = Fr(1, 10 ** 6)
THIS = (("this",),)


def cell_types(P):
    for n, e in P.E.items():
        if n.endswith("::NormalizedCellType"):
            d = {k: int(v) for k, v in e[0]}
            return {v: k for k, v in d.items()}
    raise core.AnalysisBroken("no enumeration of cell types")


def one(P, s):
    fs = [g for n, g in sorted(P.F.items()) if s in n and not g.lam]
    if len(fs) != 1:
        raise core.AnalysisBroken("%d functions %s" % (len(fs), s))
    return fs[0]


def inner(x, acc):
    """every atom a value or condition mentions, at any depth"""
    if isinstance(x, R):
        for a in x.atoms():
            inner(a, acc)
    elif isinstance(x, tuple):
        acc.add(x)
        for y in x:
            if isinstance(y, (tuple, R)):
                inner(y, acc)
    return acc


def turns(x):
    return {a for a in inner(x, set()) if a[:2] == ("?", "turn")}


def is_gc(a):
    return a[0] == "in" and len(a[1]) > 2 and a[1][1] == ("f", "_my_gauss_coord")


def replace(x, m):
    """substitute atoms in a value, also inside abs and comparisons"""
    if isinstance(x, R):
        s = {}
        for a in x.atoms():
            if a in m:
                s[a] = m[a]
            elif a[0] in ("abs", "cmp"):
                s[a] = fold(tuple(replace(y, m) for y in a))
        return x.subs(s) if s else x
    return x


def fold(a):
    if a[0] == "abs" and a[1].c is not None:
        return R.const(abs(a[1].c))
    if a[0] == "cmp":
        c = (a[2] - a[3]).c
        if c is not None:
            return R.const(1 if (c < 0 if a[1] == "<" else c == 0) else 0)
    return R.atom(a)


class Element:
    """one reference element: coordinates, functions, derivatives, and the guards the values are under"""

    def __init__(self, p):
        S = p.store

        def fld(n):
            v = S.get(THIS + (("f", n),))
            return v.c if isinstance(v, R) else None
        dim, nb = fld("_my_local_ref_dim"), fld("_my_local_nb_ref")
        self.ok = dim is not None and nb is not None
        if not self.ok:
            return
        self.dim, self.nb = d, _ = int(dim), int(nb)
        self.ref = [[S.get(THIS + (("f", "_my_local_reference_coord"), ("x", R.const(i * d + k)))) for k in range(d)]
                    for i in range(self.nb)]
        self.X = [("point", k) for k in range(max(d, 1))]
        v = {"f": {}, "d": {}}
        t = {"f": set(), "d": set()}
        for l, x in S.items():
            if l[0] == THIS[0] and len(l) == 3 and l[2][0] == "x":
                w = {"_my_function_value": "f", "_my_derivative_func_value": "d"}.get(l[1][1])
                if w:
                    v[w][int(l[2][1].num.get((), 0))] = x
                    t[w] |= turns(l[2][1])
        m = {}
        for w in v:
            for x in v[w].values():
                if isinstance(x, R):
                    self.point(inner(x, set()), m)
        self.cond = {"f": [], "d": []}
        for c, pol in p.conds.items():
            ats = inner(c, set())
            if any(is_gc(a) for a in ats):
                self.point(ats, m)
                for w in v:
                    if turns(c) & t[w]:
                        self.cond[w].append((replace(c[-1], m), pol))
        self.f = {k: replace(x, m) for k, x in v["f"].items()}
        self.d = {k: replace(x, m) for k, x in v["d"].items()}
        self.coords_ok = all(isinstance(c, R) and c.c is not None for r in self.ref for c in r)

    def point(self, atoms, m):
        for a in atoms:
            if is_gc(a):
                k = int(a[1][2][1].num.get((), 0))
                if k < len(self.X):
                    m[a] = R.atom(self.X[k])

    def at(self, v, pt):
        return replace(v, {x: c for x, c in zip(self.X, pt)})

    def admits(self, w, pt):
        """whether the values of this path are the ones for that point"""
        for c, pol in self.cond[w]:
            x = self.at(c, pt).c
            if x is None:
                a = self.at(c, pt).the_atom
                return None if a is None else None
            if (x != 0) != pol:
                return False
        return True

    def guarded(self, w):
        """under an equality-like guard (|e| < tiny): the values hold on a subset only"""
        for c, pol in self.cond[w]:
            a = c.the_atom
            if pol and a and a[0] == "cmp":
                return True
        return False

    def key(self):
        return tuple(tuple(c.c if isinstance(c, R) else None for c in r) for r in self.ref)

    def degenerate(self):
        """the reference points span less than the dimension: stands for a lower-dimensional cell"""
        rows = [[a.c - b.c for a, b in zip(r, self.ref[0])] for r in self.ref[1:]]
        return rank(rows) < self.dim


def rank(rows):
    rows = [list(r) for r in rows]
    k = 0
    for c in range(len(rows[0]) if rows else 0):
        p = next((i for i in range(k, len(rows)) if abs(rows[i][c]) > EPS), None)
        if p is None:
            continue
        rows[k], rows[p] = rows[p], rows[k]
        for i in range(k + 1, len(rows)):
            q = rows[i][c] / rows[k][c]
            rows[i] = [x - q * y for x, y in zip(rows[i], rows[k])]
        k += 1
    return k


def elements(P, types=None, I=None):
    """(type name, type, [Element]) for every type GaussInfo knows"""
    f = one(P, "GaussInfo::initLocalInfo()")

    def dec(v):
        a = v.the_atom
        if a and a[0] == "in" and a[1][-1][1] in ("_my_nb_gauss", "_my_nb_ref"):
            return True
    I = I or V.Interp(P, opaque=["GaussInfo::isSatisfy", "CellModel::GetCellModel"], decide=dec)
    for t, name in sorted(cell_types(P).items()):
        els = []
        for p in I.paths(f, [], this=THIS, init={THIS + (("f", "_my_geometry"),): R.const(t)}):
            if p.thrown:
                continue
            e = Element(p)
            if e.ok:
                els.append(e)
        if els:
            yield name, t, els


def run(P, R_, tier):
    f = one(P, "GaussInfo::initLocalInfo()")
    known = {}
    for name, t, els in elements(P):
        seen = known[t] = {}
        for e in els:
            n, l = seen.setdefault(e.key(), (len(seen) + 1, []))
            l.append(e)
            check(e, "%s element %d" % (name, n), R_, f.loc())
    types = cell_types(P)
    I = V.Interp(P, opaque=["CellModel::GetCellModel"])
    ref0 = (("ref",), ("x", V.ZERO))
    fd, fb, fi = (one(P, "GaussInfo::%s(" % x) for x in ("GetDefaultReferenceCoordinatesOf", "GetReferenceCoordinatesOfBarycenterOf",
                                                         "IsInOrOutForReference"))
    fl = one(P, "GaussInfo::convertToLinear(")
    fg = one(P, "MEDCouplingFieldDiscretizationGaussNE::GetRefCoordsFromGeometricType(")
    for t, seen in sorted(known.items()):
        name = types[t]
        for p in I.paths(fd, [R.const(t)]):
            if not p.thrown:
                v = vec(p, p.ret)
                if v is None or None in v:
                    R_.skip("default " + name, "not decided")
                    continue
                R_.ob("default", name, v in [flat(k) for k in seen], fd.loc(), "%s: the default reference coordinates %s are those "
                      "of no element the shape functions are known for" % (name, show(v)))
        for p in I.paths(fg, [R.const(t), None]):
            if p.thrown:
                continue
            n = next((v.c for l, v in p.store.items() if l and l[0] == ("*", ("p", fg.params[1][0])) and isinstance(v, R)), None)
            v = None
            if isinstance(p.ret, V.Ptr) and n is not None:
                I.store, I.cls = p.store, p.cls
                v = [I.read(p.ret.move(R.const(i)).target()) for i in range(int(n))]
                v = tuple(x.c if isinstance(x, R) else None for x in v)
            if v is None or None in v:
                R_.skip("gauss-ne " + name, "not decided")
                continue
            R_.ob("gauss-ne", name, v is not None and any(near(v, flat(k)) for k in seen), fg.loc(), "%s: the reference coordinates "
                  "of Gauss points on nodes elements %s are those of no element the shape functions are known for" % (name, show(v)))
        for k, (n, l) in sorted(seen.items(), key=lambda x: x[1][0]):
            e = l[0]
            if not e.dim or not e.coords_ok or e.degenerate():
                continue
            key = "%s element %d" % (name, n)
            init = {ref0[:1] + (("x", R.const(i * e.dim + c)),): e.ref[i][c] for i in range(e.nb) for c in range(e.dim)}
            args = [R.const(t), V.Ptr(ref0), V.Ptr((("pt",), ("x", V.ZERO))), V.ZERO]
            hull = facets(e)
            for p in I.paths(fb, args[:2], init=init):
                if p.thrown:
                    continue
                v = vec(p, p.ret)
                if v is None or None in v:
                    R_.skip("barycentre " + key, "not decided")
                    continue
                ok = v is not None and len(v) == e.dim and all(sum(a * b for a, b in zip(h[0], v)) < h[1] - EPS for h in hull)
                R_.ob("barycentre", key, ok, fb.loc(), "%s: the barycentre %s does not lie inside the element" % (key, show(v)))
            inside(I, fi, args, init, e, hull, key, R_)
            linear(I, fl, t, e, known, types, key, R_)
    R_.count("reference elements", sum(len(s) for s in known.values()))
    R_.floor("sum", 25)
    R_.floor("nodes", 1500)
    R_.floor("derivative", 600)
    R_.floor("default", 15)
    R_.floor("inside", 60)
    R_.floor("barycentre", 20)
    R_.floor("linear", 8)
    R_.floor("gauss-ne", 15)


def show(v):
    return "?" if v is None else "(" + ", ".join("?" if x is None else "%g" % float(x) for x in v) + ")"


def flat(k):
    return tuple(c for r in k for c in r)


def near(a, b):
    return len(a) == len(b) and all(x is not None and y is not None and abs(x - y) <= EPS for x, y in zip(a, b))


def vec(p, v):
    """the constants of a returned vector"""
    l = v.loc if isinstance(v, (V.Obj, V.LV)) else None
    return None if l is None else vec_at(p, l)


def vec_at(p, l):
    n = p.store.get(l + (("f", "#size"),))
    if not isinstance(n, R) or n.c is None:
        return None
    r = [p.store.get(l + (("x", R.const(i)),)) for i in range(int(n.c))]
    return tuple(x.c if isinstance(x, R) else None for x in r)


def facets(e):
    """the half-spaces (normal, bound) the reference nodes are the hull of"""
    pts = sorted({tuple(c.c for c in r) for r in e.ref})
    d = e.dim
    if d == 1:
        return [((Fr(1),), max(p[0] for p in pts)), ((Fr(-1),), -min(p[0] for p in pts))]
    import itertools
    out = []
    for c in itertools.combinations(pts, d):
        u = [tuple(a - b for a, b in zip(x, c[0])) for x in c[1:]]
        n = (u[0][1], -u[0][0]) if d == 2 else (u[0][1] * u[1][2] - u[0][2] * u[1][1], u[0][2] * u[1][0] - u[0][0] * u[1][2],
                                                  u[0][0] * u[1][1] - u[0][1] * u[1][0])
        m = max(abs(x) for x in n)
        if m < EPS:
            continue
        n = tuple(x / m for x in n)
        b = sum(x * y for x, y in zip(n, c[0]))
        v = [sum(x * y for x, y in zip(n, p)) - b for p in pts]
        if min(v) < -EPS and max(v) > EPS:
            continue
        if max(v) > EPS:
            n, b = tuple(-x for x in n), -b
        if not any(near(n + (b,), h[0] + (h[1],)) for h in out):
            out.append((n, b))
    return out


def inside(I, f, args, init, e, hull, key, R_):
    """the conjunction of comparisons under which the function answers yes is the intersection of the element's half-spaces"""
    yes = []
    for p in I.paths(f, args, init=init):
        if p.thrown or not isinstance(p.ret, R) or p.ret.c == 0:
            continue
        yes.append([(c[-1], pol) for c, pol in p.conds.items()] + ([(p.ret, True)] if p.ret.c is None else []))
    X = [("in", (("pt",), ("x", R.const(k))), 0) for k in range(e.dim)]
    cons = []
    bad = len(yes) != 1
    for c, pol in (yes[0] if not bad else ()):
        a = c.the_atom
        while a is not None and a[0] == "not":
            c, pol = a[1], not pol
            a = c.the_atom
        if a is None or a[0] != "cmp" or a[1] != "<":
            bad = True
            break
        d = a[2] - a[3]
        for x in spread(d if pol else -d):
            n = [Fr(0)] * e.dim
            b = Fr(0)
            for mono, k in x.num.items():
                if mono == ():
                    b -= k
                    continue
                at = V.ATOMS[mono[0][0]]
                if len(mono) != 1 or mono[0][1] != 1 or at not in X:
                    bad = True
                    break
                n[X.index(at)] = k
            m = max(abs(y) for y in n)
            if bad or not m:
                bad = True
                break
            cons.append((tuple(y / m for y in n), b / m))
    if bad:
        R_.skip("inside " + key, "the answer is not one conjunction of linear comparisons")
        return
    pts = [tuple(c.c for c in r) for r in e.ref]
    for n, b in cons:
        ok = all(sum(x * y for x, y in zip(n, p)) <= b + EPS for p in pts)
        R_.ob("inside", "%s keeps %s" % (key, show(n + (b,))), ok, f.loc(), "%s: points of the element are said to be outside by the "
              "condition %s" % (key, show(n + (b,))))
    for n, b in hull:
        R_.ob("inside", "%s face %s" % (key, show(n + (b,))), any(near(n + (b,), c[0] + (c[1],)) for c in cons), f.loc(),
              "%s: points beyond the face of normal %s are said to be inside the element" % (key, show(n)))


def spread(d):
    """a < 0 with absolute values, as comparisons without"""
    for a in d.atoms():
        if a[0] == "abs":
            k = next(v for m, v in d.num.items() if m and V.ATOMS[m[0][0]] == a)
            if k > 0:
                return spread(d.subs({a: a[1]})) + spread(d.subs({a: -a[1]}))
    return [d]


def linear(I, f, t, e, known, types, key, R_):
    """the linear element a quadratic one is turned into has its first nodes"""
    c = THIS + (("f", "_my_reference_coord"),)
    init = {c + (("x", R.const(i * e.dim + k)),): e.ref[i][k] for i in range(e.nb) for k in range(e.dim)}
    init[c + (("f", "#size"),)] = R.const(e.nb * e.dim)
    init[THIS + (("f", "_my_geometry"),)] = R.const(t)
    for p in I.paths(f, [], this=THIS, init=init):
        if p.thrown or not isinstance(p.ret, V.Obj):
            continue
        g = p.store.get(p.ret.loc + (("f", "_my_geometry"),))
        v = vec_at(p, p.ret.loc + (("f", "_my_reference_coord"),))
        mine = flat(e.key())
        if not isinstance(g, R) or g.c is None or v is None or None in v:
            R_.skip("linear " + key, "not decided")
            continue
        ok = isinstance(g, R) and g.c in known and v is not None and near(v, mine[:len(v)]) and any(near(v, flat(k)) for k in known[g.c])
        R_.ob("linear", key, ok, f.loc(), "%s: its linear element has the reference nodes %s, which are not the first of its own or "
              "not those of a known element" % (key, show(v)))


def check(e, key, R_, loc):
    if not R_ob(R_, "complete", key, e.coords_ok and sorted(e.f) == list(range(e.nb)) and all(isinstance(v, R) for v in e.f.values())
                and sorted(e.d) == list(range(e.nb * e.dim)) and all(isinstance(v, R) for v in e.d.values()), loc,
                "%s: not every reference coordinate, shape function and derivative gets a value" % key):
        return
    odd = {a for v in list(e.f.values()) + list(e.d.values()) for a in v.atoms() if a not in e.X and a[0] not in ("abs", "cmp", "div0", "not")}
    if odd:
        R_.skip(key, "not decided: the values depend on %s" % (sorted(map(str, odd))[0],))
        return
    free = not e.guarded("f")
    tot = V.ZERO
    for v in e.f.values():
        tot = tot + v
    pts = [i for i in range(e.nb) if free or e.admits("f", e.ref[i])]
    if free:
        R_.ob("sum", key, tot.same(V.R1, EPS), loc, "%s: the shape functions do not sum up to 1 but to %s" % (key, tot))
    deg = e.degenerate()
    if deg:
        R_.skip(key, "stands for a degenerated cell: its reference nodes span less than its dimension")
    for i in range(e.nb):
        if deg:
            break
        for j in pts:
            try:
                v = e.at(e.f[i], e.ref[j])
            except ZeroDivisionError:
                v = None
            if v is None or any(a[0] == "div0" for a in v.atoms()) or (free and e.cond["f"] and e.admits("f", e.ref[j]) is False):
                continue
            R_.ob("nodes", "%s f%d node %d" % (key, i, j), v.same(R.const(1 if i == j else 0), EPS), loc,
                  "%s: shape function %d is %s at reference node %d" % (key, i, v, j))
    if not free or e.guarded("d"):
        return
    for i in range(e.nb):
        for k in range(e.dim):
            g = e.f[i].diff(e.X[k])
            R_.ob("derivative", "%s f%d d%d" % (key, i, k), e.d[i * e.dim + k].same(g, EPS), loc, "%s: the derivative of shape "
                  "function %d along %d is %s, the code has %s" % (key, i, k, g, e.d[i * e.dim + k]))


def R_ob(R_, rule, key, ok, loc, text):
    R_.ob(rule, key, ok, loc, text)
    return ok

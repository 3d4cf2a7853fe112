"""P13: results depend on the arguments only: no memory between calls, nothing read before it is set, the planar precision
of a call is the one it was given."""
import collections, re
from sa import core
from sa.core import short
from sa.defassign import Locals, Members, scalar

PARTS = ["interp", "medcoupling", "icoco", "renumber", "shape"]
EXPLAIN = ("Over every function with a body: writes to storage that outlives the call (namespace variables, static data "
           "members, static locals) are found on the syntax tree and must be one of: a counter only incremented, a value "
           "filled once under a test that it is still empty and from constants, a guard object that saves and restores, a "
           "setter the library does not call, a table grown with its own size.  Static locals are initialised from "
           "constants.  Scalar locals are written before being read (dataflow over the control-flow graph, then a search "
           "that follows flags and repeated conditions), scalar members are set by every constructor.  Random, "
           "environment and clock values do not reach results.  Functions given a precision that reach the global "
           "precision of the planar geometry install it by a guard first.")
ASSUME = ["a variable passed by non-const reference or by address is set by the function it is passed to",
          "measures and centres of curved cells use the precision in force, they are not given one"]

PREC = "INTERP_KERNEL::QuadraticPlanarPrecision"
MEASURE = ("calculateAreaForQPolyg", "computeQPolygonBarycenter2D", "calculateLgthForSeg3", "computeVolSurfOfCell",
           "computeBarycenter")
# guards whose precision is fixed on purpose
FIXED = {
    "DataArrayDouble::asArcOfCircle": "takes no precision",
    "MEDCouplingUMesh::tessellate2DCurveInternal": "its eps is the angle between two points of the polyline",
}
# pointers to storage that lives on, not written through
ADDRESS = {
    "SplitterTetra2::splitConvex::allNodeIndices": "used as the list of nodes of polyhedra only, whose faces are not filled in",
}
# set by the phase that uses them, which starts by setting them
LATE = {
    "Edge::_hit": "initLocations()/initHitStatus() before the marks are used",
    "Node::_hit": "initHitStatus() before the marks are used",
    "ExprParser::_is_parsed": "parse()",
    "FMin::n": "first statement of operator()",
    "GaussInfo::_my_local_ref_dim": "initLocalInfo()", "GaussInfo::_my_local_nb_ref": "initLocalInfo()",
    "Interpolation2D1D::_dim_caracteristic": "first step of interpolateMeshes()",
    "Interpolation2D3D::_splitting_policy": "not read: the one of the options is",
    "LeafExprVar::_ref_pos": "prepareExprEvaluation*()",
    "PolygonAlgorithms::_terminus": "first statement of the entry points",
    "PolygonAlgorithms::_vdouble": "set before the flag that leads to its use",
    "TetraAffineTransform::_back_linear_transform": "read when the determinant is not zero, where it is set",
    "TetraAffineTransform::_back_translation": "read when the determinant is not zero, where it is set",
    "CellModel::_sons_con": "rows declared by the counts", "CellModel::_little_sons_con": "rows declared by the counts",
    "TransformedTriangle::_barycenterA": "calculatePolygonBarycenter()",
    "_Cartesian3D2UnstructHexMesh::_coordsU": "filled node by node",
    "MEDCouplingDefinitionTimeSlice": "unserialize() follows", "MEDCouplingDefinitionTimeSliceInst": "unserialize() follows",
    "MEDCouplingDefinitionTimeSliceCstOnTI": "unserialize() follows",
    "MEDCouplingDefinitionTimeSliceLT": "unserialize() follows",
    "NodesBuilder::nodes": "build()",
}
LATECTOR = {("TransformedTriangle", 0): "for unit tests of the parts"}
# (function, variable): why the order of the events sets it
ORDER = {
    ("PolygonAlgorithms::intersectConvexPolygons", "Poly1"): "the sweep starts on a vertex with four neighbours",
    ("PolygonAlgorithms::intersectConvexPolygons", "Poly2"): "the sweep starts on a vertex with four neighbours",
}
ENV = re.compile(r"^(rand|srand|time|random|drand48|getenv|gettimeofday|clock|std::getenv|std::rand|std::random_device"
                 r"|std::time|std::clock|std::chrono::.*::now|std::this_thread::get_id|getpid)(\(|::|$)")
ACCESS = re.compile(r"::(operator\[\]|at|front|back|begin|end|data|operator\*|operator->|find|rbegin|rend|lower_bound|"
                    r"upper_bound|c_str|equal_range)(?!\w)")


def bare(n):
    """without template arguments"""
    out, d = [], 0
    i = 0
    while i < len(n):
        c = n[i]
        if c == "<":
            d += 1
        elif c == ">":
            d -= 1
        elif not d:
            out.append(c)
        i += 1
    return "".join(out)


def target(f, e):
    e = f.e(e)
    while e is not None:
        if e[0] == "cast":
            e = f.e(e[4])
        elif e[0] in ("x", "m"):
            e = f.e(e[1])
        elif e[0] == "u" and e[1] == "*":
            e = f.e(e[2])
        elif e[0] == "c" and e[3] is not None and ACCESS.search(f.S[e[1]]):
            e = f.e(e[3])
        elif e[0] == "c" and e[3] is None and e[2] and re.search(r"operator(\[\]|\*|->)", f.S[e[1]]):
            e = f.e(e[2][0])
        else:
            break
    return e


def writes(P, f):
    """(kind, target node, written expression or None, block, line)"""
    for b, i, ln, x in f.all_nodes():
        if x[0] == "b" and x[1].endswith("=") and x[1] not in ("==", "!=", "<=", ">="):
            yield x[1], target(f, x[2]), x[3], b, ln
        elif x[0] == "u" and ("++" in x[1] or "--" in x[1]):
            yield "++" if "++" in x[1] else "--", target(f, x[2]), None, b, ln
        elif x[0] == "u" and x[1] == "&":
            yield "&", target(f, x[2]), None, b, ln
        elif x[0] == "del":
            yield "delete", target(f, x[2]), None, b, ln
        elif x[0] in ("c", "k"):
            n = f.S[x[1]]
            D = P.D.get(n) or P.F.get(n)
            ps = D.params if D else None
            for k, a in enumerate(x[2]):
                if ps is not None and k < len(ps) and ps[k][1].rstrip().endswith(("&", "*")) and \
                        not ps[k][1].startswith("const "):
                    yield "arg:" + n, target(f, a), a, b, ln
            if x[0] == "c" and x[3] is not None and D is not None and not D.const and not D.static and \
                    not ACCESS.search(n) and "operator<<" not in n:
                yield "call:" + n, target(f, x[3]), x, b, ln


def constant(P, f, e):
    """no parameter, local, object or capture in it"""
    for x in f.walk_full(e):
        if x[0] == "v" and f.vkind(x[1]) in "pl":
            return False
        if x[0] == "this":
            return False
        if x[0] == "g" and not isconst(P, f.S[x[1]]) and f.S[x[1]] in P.V:
            return False
    return True


def isconst(P, g):
    v = P.V.get(g)
    return v is None or v[0].startswith("const ") or v[0].rstrip().endswith("const")


def mentions(f, e, t):
    return any(x[0] == t[0] and x[1] == t[1] for x in f.walk_full(e))


def controlled(f, b, t):
    """b is reached through a test of t itself"""
    seen = {b}
    todo = list(f.pred[b])
    if not todo:
        return False
    for p in todo:
        term = f.bl[p][2]
        if term is None or term[1] is None or not mentions(f, term[1], t):
            return False
    return True


def run(P, R, tier):
    W = collections.defaultdict(list)
    nfun = 0
    statics = []
    for n, f in sorted(P.F.items()):
        if not f.has_body:
            continue
        nfun += 1
        for k, y, val, b, ln in writes(P, f):
            if y is None:
                continue
            if y[0] == "g":
                g = f.S[y[1]]
                if g.startswith("std::"):
                    continue
                if k == "&" or k.startswith("arg:"):
                    if isconst(P, g):
                        continue
                W[("g", g)].append((f, k, y, val, b, ln))
            elif y[0] == "v" and f.vkind(y[1]) == "s":
                if k == "&" and f.vtype(y[1]).startswith("const "):
                    continue
                W[("s", bare(f.short) + "::" + f.vname(y[1]))].append((f, k, y, val, b, ln))
        for i, (ln, e) in f.el.items():
            for x in f.walk(e):
                if x[0] == "decl":
                    for v, ini in x[1:]:
                        if f.vkind(v) == "s":
                            statics.append((f, v, ini, ln))
    callers = collections.defaultdict(set)
    for n, f in P.F.items():
        for b, i, ln, x, nm in f.calls():
            for t in P.targets(f, x) if x[0] == "c" else [nm]:
                callers[t].add(n)
    # ---------------------------------------------------------------- memory between calls
    for (kind, g), ws in sorted(W.items()):
        ok, txt, loc = True, "", ""
        for f, k, y, val, b, ln in ws:
            why = None
            if k in ("++",) or (k.startswith("call:") and "operator++" in k):
                why = "counter"
            elif f.ctor and k == "=" and f.cls is not None and guard(P, f, g):
                why = "guard"
            elif f.dtor and k == "=" and val is not None and any(x[0] == "m" for x in f.walk_full(val)):
                why = "guard"
            elif f.static and k == "=" and f.access == 0 and not [c for c in callers[f.name] if P.F[c].cls != f.cls]:
                why = "setter, not called by the library"
            elif (k == "=" or k.startswith("arg:")) and controlled(f, b, y) and val is not None and constant(P, f, val):
                why = "filled once"
            elif k == "&" and g in ADDRESS:
                why = "address"
            elif k.startswith("call:") and "::push_back" in k and selfsize(f, val, y):
                why = "grown with its own size"
            elif k == "=" and val is not None and eqindex(f, f.el, val, y):
                why = "grown with its own size"
            if why is None:
                ok, loc = False, f.loc(ln)
                txt = "%s changes %s (%s), which keeps its value after the call: the result of a call then depends on the " \
                      "calls made before it" % (f.short, g, k.split("(")[0])
                break
        R.ob("no-memory", g, ok, loc or ws[0][0].loc(ws[0][5]), txt)
    for f, v, ini, ln in statics:
        c = ini is None or constant(P, f, ini)
        R.ob("static-initialiser", bare(f.short) + "::" + f.vname(v), c, f.loc(ln),
             "static %s of %s is initialised from the arguments of the first call, later calls get that value" % (
                 f.vname(v), f.short))
    # ---------------------------------------------------------------- environment
    for n, f in sorted(P.F.items()):
        for b, i, ln, x, nm in f.calls():
            if not ENV.match(nm):
                continue
            q = ENV.match(nm).group(1)
            ok = q in ("clock", "std::clock") and logonly(P, f)
            R.ob("environment", "%s in %s" % (q, bare(f.short)), ok, f.loc(ln),
                 "%s uses %s: its result may differ from one run to the next" % (f.short, q))
    # ---------------------------------------------------------------- locals
    nvar = 0
    bad = {}
    seenl = set()
    for n, f in sorted(P.F.items()):
        if not f.has_body:
            continue
        L = Locals(P, f)
        if not L.und:
            continue
        r = L.run()
        if r is None:
            R.skip(bare(f.short), "too many combinations of flags")
            continue
        for v in sorted(L.und):
            nvar += 1
            key = "%s::%s" % (bare(f.short), f.vname(v))
            if (bare(f.short), f.vname(v)) in ORDER:
                if key not in seenl:
                    seenl.add(key)
                    R.skip(key, ORDER[(bare(f.short), f.vname(v))])
                continue
            R.ob("local-set", key, v not in r, f.loc(r.get(v)) if v in r else f.loc(),
                 "%s may be read in %s before any value was given to it" % (f.vname(v), f.short))
    # ---------------------------------------------------------------- members
    M = Members(P)
    read = set()
    for n, f in P.F.items():
        for b, i, ln, x in f.all_nodes():
            if x[0] == "m":
                read.add(f.S[x[2]])
    for c in sorted(P.R):
        r = P.R[c]
        if not r.file.startswith(core.REPO + "/"):
            continue
        fs = [x[0] for x in r.fields if (scalar(P, x[1]) or x[1].endswith("]")) and x[0] in read]
        if not fs:
            continue
        for m in r.ms:
            f = P.F.get(m)
            if f is None or not f.ctor or f.impl or not f.has_body:
                continue
            may = M.may(f)
            for x in fs:
                sx = bare(short(x))
                sx = "::".join(sx.split("::")[-2:])
                if sx in LATE or sx.split("::")[0] in LATE or (sx.split("::")[0], len(f.params)) in LATECTOR:
                    continue
                R.ob("member-set", "%s %d %s" % (bare(f.short), len(f.params), sx.split("::")[-1]),
                     x in may or "*" in may, f.loc(),
                     "constructor %s of %d argument(s) leaves %s without a value" % (f.short, len(f.params), short(x)))
    for k in sorted(LATE):
        R.skip("member " + k, LATE[k])
    precision(P, R, callers)
    R.count("functions searched for writes that outlive the call", nfun)
    R.count("local variables declared without a value", nvar)
    R.floor("no-memory", 4)
    R.floor("static-initialiser", 10)
    R.floor("local-set", 500)
    R.floor("member-set", 500)
    R.floor("precision-installed", 8)


def guard(P, f, g):
    """the constructor keeps the old value in a member, the destructor of the class writes g from a member"""
    def reads(e):
        for y in f.walk_full(e):
            if y[0] == "g" and f.S[y[1]] == g:
                return True
            if y[0] == "c":
                for t in P.targets(f, y):
                    h = P.F.get(t)
                    if h is not None and len(h.el) < 12 and any(
                            z[0] == "ret" and z[1] is not None and any(
                                w[0] == "g" and h.S[w[1]] == g for w in h.walk_full(z[1])) for b, i, ln, z in h.all_nodes()):
                        return True
        return False
    saved = False
    for b, i, ln, x in f.all_nodes():
        if x[0] == "finit" and x[2] is not None and reads(x[2]):
            saved = True
        if x[0] == "b" and x[1] == "=" and f.e(x[2])[0] == "m" and reads(x[3]):
            saved = True
    if not saved:
        return False
    for m in P.R[f.cls].ms if f.cls in P.R else ():
        d = P.F.get(m)
        if d is None or not d.dtor:
            continue
        todo, seen = [d], set()
        while todo:
            h = todo.pop()
            if h.name in seen:
                continue
            seen.add(h.name)
            for k, y, val, b, ln in writes(P, h):
                if y is not None and y[0] == "g" and h.S[y[1]] == g:
                    if val is not None and any(x[0] in ("m",) for x in h.walk_full(val)):
                        return True
                    if h is not d:
                        return True
            for b, i, ln, x, nm in h.calls():
                if nm in P.F:
                    todo.append(P.F[nm])
    return False


def selfsize(f, call, y):
    a = f.e(call[2][0]) if call[2] else None
    while a is not None and a[0] == "cast":
        a = f.e(a[4])
    if a is not None and a[0] == "c" and f.S[a[1]].split("(")[0].endswith("::size") and a[3] is not None:
        t = target(f, a[3])
        return t is not None and t[0] == y[0] and t[1] == y[1]
    if a is not None and a[0] == "v" and f.vkind(a[1]) == "l":
        # a loop counter that starts at the size
        for i, (ln, e) in f.el.items():
            for x in f.walk(e):
                if x[0] == "decl":
                    for v, ini in x[1:]:
                        if v == a[1] and ini is not None:
                            for z in f.walk_full(ini):
                                if z[0] == "c" and f.S[z[1]].split("(")[0].endswith("::size") and z[3] is not None:
                                    t = target(f, z[3])
                                    if t is not None and t[:2] == y[:2]:
                                        return True
    return False


def eqindex(f, el, val, y):
    """v[i] = i"""
    v = f.e(val)
    while v is not None and v[0] == "cast":
        v = f.e(v[4])
    if v is None or v[0] != "v":
        return False
    for i, (ln, e) in el.items():
        for x in f.walk(e):
            if x[0] == "b" and x[1] == "=" and x[3] is val:
                l = f.e(x[2])
                ix = None
                if l[0] == "c" and "operator[]" in f.S[l[1]] and l[2]:
                    ix = f.e(l[2][-1])
                elif l[0] == "x":
                    ix = f.e(l[2])
                while ix is not None and ix[0] == "cast":
                    ix = f.e(ix[4])
                if ix is not None and ix[0] == "v" and ix[1] == v[1]:
                    return True
    return False


def logonly(P, f):
    """what clock() returns is kept in a local that is only subtracted"""
    var = set()
    for i, (ln, e) in f.el.items():
        for x in f.walk(e):
            if x[0] == "decl":
                for v, ini in x[1:]:
                    if ini is not None and any(z[0] == "c" and ENV.match(f.S[z[1]]) for z in f.walk_full(ini)):
                        var.add(v)
            elif x[0] == "b" and x[1] == "=" and any(z[0] == "c" and ENV.match(f.S[z[1]]) for z in f.walk_full(x[3])):
                l = f.e(x[2])
                if l[0] != "v":
                    return False
                var.add(l[1])
    # uses end in a stream
    for b, i, ln, x in f.all_nodes():
        if x[0] in ("ret", "k") or (x[0] == "c" and "operator<<" not in f.S[x[1]]):
            for a in (x[2] if x[0] != "ret" else [x[1]]):
                if a is not None and any(z[0] == "v" and z[1] in var for z in f.walk_full(a)):
                    return False
        if x[0] == "b" and x[1] == "=" and f.e(x[2])[0] != "v":
            if any(z[0] == "v" and z[1] in var for z in f.walk_full(x[3])):
                return False
    return True


def isguard(t):
    """a guard object, or a smart pointer that owns one"""
    t = re.sub(r"^(const |struct |class )+", "", t).strip()
    return t == PREC or t == "QuadraticPlanarPrecision" or re.match(
        r"(std::)?(unique_ptr|shared_ptr|auto_ptr|optional)<\s*(const )?(INTERP_KERNEL::)?QuadraticPlanarPrecision\b", t) is not None


def precision(P, R, callers):
    G = PREC + "::_precision"
    readers, guards = set(), collections.defaultdict(list)
    for n, f in P.F.items():
        if f.cls == PREC:
            if f.static and any(x[0] == "g" and f.S[x[1]] == G for b, i, ln, x in f.all_nodes()) and not any(
                    y is not None and y[0] == "g" and f.S[y[1]] == G for k, y, v, b, ln in writes(P, f)):
                readers.add(n)
            continue
        if any(x[0] == "g" and f.S[x[1]] == G for b, i, ln, x in f.all_nodes()):
            readers.add(n)
        for i in range(len(f.vars)):
            if isguard(f.vtype(i)) and f.vkind(i) == "l":
                guards[n].append(i)
    if not readers:
        raise core.AnalysisBroken("nothing reads the planar precision")
    # classes holding a guard: their constructor installs it for the life of the object
    holders = {c for c in P.R for x in P.R[c].fields if isguard(x[1])}

    def up(stop, cut=True):
        seen = set(readers)
        todo = list(readers)
        via = {}
        while todo:
            x = todo.pop()
            for c in callers[x]:
                if c in seen:
                    continue
                f = P.F[c]
                if f.cls == PREC and (f.ctor or f.dtor):
                    continue
                if cut and f.nm.startswith(MEASURE):
                    continue
                if stop and (c in guards or (f.cls is not None and any(P.is_a(f.cls, h) or f.cls.split("<")[0] == h.split(
                        "<")[0] for h in holders))):
                    continue
                seen.add(c)
                via[c] = x
                todo.append(c)
        return seen, via
    every, _ = up(False)
    free, via = up(True)
    # methods whose name promises it for the measures too
    full, via2 = up(True, False)
    for n in full:
        if P.F[n].nm.endswith("WithPrecision"):
            free.add(n)
            via[n] = via2.get(n)
    for n in full:
        via.setdefault(n, via2.get(n))
    for n in sorted(n for n in P.F if P.F[n].nm.endswith("WithPrecision") or n in every):
        f = P.F[n]
        if not n.startswith("MEDCoupling::") or f.lam:
            continue
        eps = [p for p in f.params if p[1] in ("double", "const double") and re.search("eps|prec|tol", p[0], re.I)]
        if not eps or f.access in (1, 2):
            continue
        ok = n not in free
        ch = []
        x = n
        while via.get(x) and len(ch) < 8:
            x = via[x]
            ch.append(P.F[x].short)
        R.ob("precision-installed", bare(f.short) + "/%d" % len(f.params), ok, f.loc(),
             "%s takes the precision %s and reaches the global planar precision without having installed it (%s): the result "
             "depends on the precision left by somebody else" % (f.short, eps[0][0], " > ".join(ch)))
    for c in sorted(holders):
        fs = [x[0] for x in P.R[c].fields if isguard(x[1])]
        for m in P.R[c].ms:
            f = P.F.get(m)
            if f is None or not f.ctor or f.impl or f.cctor or not f.has_body:
                continue
            got = False
            for b, i, ln, x in f.all_nodes():
                if x[0] == "finit" and f.S[x[1]] in fs and x[2] is not None:
                    got = any(y[0] == "v" and f.vkind(y[1]) == "p" for y in f.walk_full(x[2]))
            R.ob("guard-value", bare(f.short) + "/%d" % len(f.params), got, f.loc(),
                 "the precision installed by %s is not the one it was given" % f.short)
    for n, vs in sorted(guards.items()):
        f = P.F[n]
        for v in vs:
            # the guard is alive where the precision is used
            where = None
            arg = None
            for b in f.bl:
                for i in f.bl[b][1]:
                    for x in f.walk(f.el[i][1]):
                        if x[0] == "decl":
                            for w, ini in x[1:]:
                                if w == v:
                                    where, arg = (b, i), ini
            if where is None:
                R.ob("guard-first", bare(f.short), False, f.loc(), "guard never constructed")
                continue
            late = None
            for b, i, ln, x, nm in f.calls():
                ts = P.targets(f, x) if x[0] == "c" else [nm]
                if not any(t in free for t in ts):
                    continue
                if b == where[0]:
                    pos = f.bl[b][1]
                    before = i is not None and pos.index(i) < pos.index(where[1])
                else:
                    before = not f.dominates(where[0], b)
                if before:
                    late = (ln, nm)
            R.ob("guard-first", bare(f.short) + "/%d" % len(f.params), late is None, f.loc(late[0] if late else None),
                 "%s uses the planar precision (%s) before the guard that installs its own" % (
                     f.short, short(late[1]) if late else ""))
            if bare(f.short) in FIXED:
                R.skip("guard of " + bare(f.short), FIXED[bare(f.short)])
                continue
            par = any(x[0] == "v" or x[0] == "m" or x[0] == "c" for x in f.walk_full(arg)) if arg is not None else False
            R.ob("guard-value", bare(f.short) + "/%d" % len(f.params), par, f.loc(),
                 "the precision installed by %s is not the one it was given" % f.short)

"""P02: a deep copy carries every attribute and shares no storage with the original."""
from sa import core, facts
from sa.core import short, strip, auto_of
from sa.facts import Engine, mentions, defs_of, reaching
from sa.copyflow import CopyFlow, refcounted, DEEP

PARTS = ["medcoupling"]
EXPLAIN = ("For every copying constructor of the data model, dataflow over its control-flow graph (the deep flag assumed "
           "set, base constructors and helpers included) decides that each data member takes its value from the same "
           "member of the original on every path, and that reference-counted sub-objects are copied, not shared.  For "
           "every copying method: the object returned has the very class of the original, is made from the whole "
           "original, and asks for the deep variant.")
ASSUME = ["a method called on the original's sub-object whose result is stored is taken to return a new object",
          "a field copied with its mesh shared is the documented contract of the field copy constructors"]

NOT_COPIED = {
    "MEDCoupling::RefCountObjectOnly::_cnt": "reference counter",
    "MEDCoupling::TimeLabel::_time": "modification stamp",
    "MEDCoupling::MEDCouplingFieldDiscretization::_precision": "tolerance setting",
    "MEDCoupling::MEDCouplingDataForGodFather::_tlc": "watches the mesh the copy refers to",
    "MEDCoupling::MEDCouplingCartesianAMRMeshSub::_father": "given by the caller",
}
SHARED = {"MEDCoupling::MEDCouplingField::_mesh": "the copy constructors of fields share the mesh by contract; "
          "cloneWithMesh copies it (own rule)"}
REBUILT_ELSEWHERE = {"MEDCoupling::MEDCouplingMultiFields": "rebuilt field by field (sharing pattern kept)"}


def norm(n):
    i, j = n.find("<"), n.rfind(">")
    return n[:i] + "<*>" + n[j + 1:] if 0 < i < j else n


def copy_ctor(f):
    if not (f.ctor and f.params):
        return False
    t = f.params[0][1]
    return strip(t) == f.cls and t.rstrip().endswith("&") and not t.rstrip().endswith("&&")


def origins(E, f, e, depth=0):
    """expressions a returned value comes from: new, calls, this"""
    e = f.e(e)
    if e is None or depth > 12:
        return []
    t = e[0]
    if t == "cast":
        return origins(E, f, e[4], depth + 1)
    if t == "?:":
        return origins(E, f, e[2], depth + 1) + origins(E, f, e[3], depth + 1)
    if t == "u" and e[1] in ("*", "&"):
        return origins(E, f, e[2], depth + 1)
    if t == "v":
        d = reaching(f).get(id(e))
        ex = list(d.values()) if d else [x[1] for x in defs_of(f).get(e[1], []) if x[0] in ("init", "asg")]
        r = []
        for x in ex:
            r += origins(E, f, x, depth + 1)
        return r
    if t == "k":
        c = strip(f.S[e[3]])
        if auto_of(c) is not None and len(e[2]) == 1:
            return origins(E, f, e[2][0], depth + 1)
        return [e]
    if t == "c":
        d = E.P.D.get(f.S[e[1]])
        if d is not None and d.cls is not None and auto_of(d.cls) is not None and e[3] is not None:
            return origins(E, f, e[3], depth + 1)
        if d is not None and d.nm in ("StaticCast", "DynamicCast", "DynamicCastSafe", "PerformCopyOrIncrRef") and e[2]:
            return origins(E, f, e[2][-1] if d.nm != "PerformCopyOrIncrRef" else e[2][-1], depth + 1)
        return [e]
    return [e]


def value_members(P, c):
    return [x for x in P.fields_of(c) if norm(x[0]) not in NOT_COPIED]


def run(P, R, tier):
    E = Engine(P)
    E.track_done = False
    C = CopyFlow(P, E)
    for f in sorted(P.F.values(), key=lambda f: f.name):
        if not copy_ctor(f) or f.impl or not f.cls.startswith("MEDCoupling::") or auto_of(f.cls):
            continue
        if f.cls.startswith("MEDCoupling::MemArray<"):
            memarray(P, E, R, f)
            continue
        if f.cls in REBUILT_ELSEWHERE:
            R.skip(short(f.cls), REBUILT_ELSEWHERE[f.cls])
            continue
        if not P.is_a(f.cls, "MEDCoupling::RefCountObjectOnly") and not P.is_a(f.cls, "MEDCoupling::TimeLabel"):
            continue
        r = C.ctor(f.name, True)
        sig = short(f.name) + "/%d" % len(f.params)
        for fld, ty, mut, _, _ in value_members(P, f.cls):
            k = r.get(fld)
            R.ob("copy-takes-member", "%s:%s" % (sig, short(fld)), k is not None, f.loc(),
                 "a path of the copying constructor %s never takes %s from the original" % (f.short, fld))
            if k is not None and refcounted(P, ty) and fld not in SHARED:
                R.ob("copy-not-shared", "%s:%s" % (sig, short(fld)), k != "share", f.loc(),
                     "the deep copy made by %s shares %s with the original" % (f.short, fld))
    entries(P, E, R)
    exact_class(P, E, R)
    with_mesh(P, E, R)
    connectivity(P, E, R)
    R.floor("copy-connectivity", 3)
    R.floor("copy-takes-member", 120)
    R.floor("copy-not-shared", 20)
    R.floor("copy-entry-deep", 25)
    R.floor("copy-exact-class", 20)
    R.floor("buffer-copied", 3)
    R.floor("copy-with-mesh", 2)
    for k, v in list(NOT_COPIED.items()) + list(SHARED.items()):
        R.skip(k, v)


def memarray(P, E, R, f):
    """the copying constructor of the raw buffer: a fresh allocation filled from the original's pointer"""
    c = f.cls
    fresh, filled, used = set(), set(), None
    src = ("f", ("p", 0), c + "::_pointer")
    for b, i, ln, n in f.all_nodes():
        if n[0] == "decl":
            for v, ini in n[1:]:
                if ini is not None and allocates(P, f, ini):
                    fresh.add(v)
        elif n[0] == "b" and n[1] == "=" and f.e(n[2])[0] == "v" and allocates(P, f, n[3]):
            fresh.add(f.e(n[2])[1])
        elif n[0] == "c":
            d = P.D.get(f.S[n[1]])
            if d is None:
                continue
            if d.nm in ("copy", "memcpy", "copy_n", "memmove"):
                a = [E.term(f, x) for x in n[2]]
                if any(mentions(x, src) for x in a):
                    full = any(mentions(x, ("f", ("p", 0), c + "::_nb_of_elem")) for x in a)
                    for x in n[2]:
                        v = base(f, x)
                        if v is not None and full:
                            filled.add(v)
            elif d.nm == "useArray" and n[3] is not None and E.term(f, n[3]) == ("this",):
                used = (base(f, n[2][0]), E.term(f, n[2][1]), E.term(f, n[2][-1]))
    ok = used is not None and used[0] in fresh and used[0] in filled and used[1] == ("c", 1) and \
        mentions(used[2], ("f", ("p", 0), c + "::_nb_of_elem"))
    if used is None:
        # written without useArray: the plain dataflow decides
        r = CopyFlow(P, E).ctor(f.name, True)
        ok = r.get(c + "::_nb_of_elem") is not None and bool(filled & fresh)
    R.ob("buffer-copied", short(c), ok, f.loc(),
         "the copy of a buffer must be a fresh allocation holding the original's elements")


def base(f, e):
    e = f.e(e)
    while e is not None and e[0] in ("cast", "u", "b"):
        e = f.e(e[4] if e[0] == "cast" else e[2])
    return e[1] if e is not None and e[0] == "v" else None


def allocates(P, f, e):
    e = f.e(e)
    while e is not None and e[0] == "cast":
        e = f.e(e[4])
    if e is None:
        return False
    if e[0] == "new":
        return True
    return e[0] == "c" and P.D.get(f.S[e[1]]) is not None and P.D[f.S[e[1]]].nm in ("malloc", "calloc", "Allocate")


def copying(f):
    return f.nm in DEEP and f.cls and not f.static and f.nm != "PerformCopyOrIncrRef" and f.has_body


def entries(P, E, R):
    for f in sorted(P.F.values(), key=lambda f: f.name):
        if not copying(f) or not f.cls.startswith("MEDCoupling::") or f.cls.startswith("MEDCoupling::MEDCouplingMulti"):
            continue
        if not P.is_a(f.cls, "MEDCoupling::RefCountObjectOnly") and not P.is_a(f.cls, "MEDCoupling::TimeLabel"):
            continue
        flag = [i for i, p in enumerate(f.params) if p[1] == "bool"]
        want = ("p", flag[0]) if flag else ("c", 1)
        rets = [n for b, i, ln, n in f.all_nodes() if n[0] == "ret" and n[1] is not None]
        org = []
        for n in rets:
            org += origins(E, f, n[1])
        for o in org:
            if o[0] == "this" and flag:
                continue
            if o[0] in ("new", "k"):
                k = f.e(o[3]) if o[0] == "new" else o
                if k is None or k[0] != "k":
                    continue
                args = [E.term(f, a) for a in k[2]]
                d = P.D.get(f.S[k[1]])
                if args and args[0] == ("this",) and d is not None:
                    bad = [a for a, p in zip(args[1:], d.params[1:]) if p[1] == "bool" and a not in (want, ("c", 1))]
                    R.ob("copy-entry-deep", short(f.name), not bad, f.loc(),
                         "%s does not ask the copying constructor for a deep copy" % f.short)
                    continue
            if o[0] == "c":
                d = P.D.get(f.S[o[1]])
                if d is not None and d.nm in DEEP + ("cloneWithMesh",):
                    bad = [a for a, p in zip([E.term(f, a) for a in o[2]], d.params) if p[1] == "bool" and
                           a not in (want, ("c", 1))]
                    R.ob("copy-entry-deep", short(f.name), not bad, f.loc(),
                         "%s does not ask for the deep variant" % f.short)
                    continue
            # rebuilt from pieces: every member has to appear
            if f.nm == "deepCopyConnectivityOnly":
                continue
            seen = set()
            for b, i, ln, n in f.all_nodes():
                if n[0] in ("c", "k"):
                    ts = [E.term(f, a) for a in n[2]]
                    if n[0] == "c" and n[3] is not None:
                        ts.append(E.term(f, n[3]))
                elif n[0] == "b" and n[1] == "=":
                    ts = [E.term(f, n[3])]
                else:
                    continue
                for t in ts:
                    collect(t, seen)
            for fld, ty, mut, _, _ in value_members(P, f.cls):
                R.ob("copy-takes-member", "%s:%s" % (short(f.name), short(fld)), fld in seen, f.loc(),
                     "%s rebuilds the object without %s" % (f.short, fld))


def collect(t, seen):
    if isinstance(t, tuple):
        if t[0] == "f" and t[1] == ("this",):
            seen.add(t[2])
        for k in t:
            if isinstance(k, tuple):
                collect(k, seen)


def classes_made(P, E, f, depth=0):
    r = set()
    for b, i, ln, n in f.all_nodes():
        if n[0] == "ret" and n[1] is not None:
            for o in origins(E, f, n[1]):
                if o[0] == "new":
                    r.add(f.S[o[1]])
                elif o[0] == "c":
                    d = P.D.get(f.S[o[1]])
                    if d is not None and d.nm == "New" and d.cls:
                        r.add(d.cls)
    return r


def exact_class(P, E, R):
    """the copy of an object of class X is of class X: no class inherits the copying method of its base"""
    roots = {}
    for d in P.D.values():
        if d.nm in ("deepCopy", "clone", "performCopyOrIncrRef") and d.virt and d.cls and \
                d.cls.startswith("MEDCoupling::"):
            roots.setdefault(d.cls, set()).add(d.nm)
    for c in sorted(P.R):
        if not c.startswith("MEDCoupling::") or P.R[c].abs:
            continue
        for nm in ("deepCopy", "clone", "performCopyOrIncrRef"):
            if not any(nm in roots.get(b, ()) for b in P.all_bases(c) | {c}):
                continue
            f = find(P, c, nm)
            if f is None:
                continue
            made = {m for m in classes_made(P, E, f) if P.is_a(m, f.cls) or P.is_a(f.cls, m)}
            if not made:
                continue      # delegates to a sibling copying method
            R.ob("copy-exact-class", "%s:%s" % (short(c), nm), made == {c}, f.loc(),
                 "copying an object of class %s makes a %s" % (c, ", ".join(sorted(made))))


def find(P, c, nm, depth=0):
    if c not in P.R or depth > 10:
        return None
    for m in P.R[c].ms:
        d = P.D.get(m)
        if d is not None and d.nm == nm and m in P.F:
            return P.F[m]
    for b in P.R[c].bases:
        r = find(P, b, nm, depth + 1)
        if r is not None:
            return r
    return None


def connectivity(P, E, R):
    """deepCopyConnectivityOnly: every array the result is given is a copy, and every connectivity array is given"""
    for f in sorted(P.F.values(), key=lambda f: f.name):
        if f.nm != "deepCopyConnectivityOnly" or f.cls is None:
            continue
        got, bad = set(), []
        for b, i, ln, n in f.all_nodes():
            if n[0] != "c" or n[3] is None or f.S[n[1]] not in P.D:
                continue
            d = P.D[f.S[n[1]]]
            x = E.term(f, n[3])
            if d.const or d.static or x == ("this",) or not d.cls or not P.is_a(f.cls, d.cls):
                continue
            for a in n[2]:
                for o in origins(E, f, a):
                    if o[0] == "c" and o[3] is not None and P.D.get(f.S[o[1]]) is not None:
                        t = E.term(f, o[3])
                        if t[0] == "f" and t[1] == ("this",):
                            if P.D[f.S[o[1]]].nm in DEEP and not any(E.term(f, z) == ("c", 0) for z in o[2]):
                                got.add(t[2])
                                continue
                            bad.append(t[2])
                    t = E.term(f, o)
                    if t[0] == "f" and t[1] == ("this",):
                        bad.append(t[2])
        if not got and not bad:
            continue      # no connectivity array of its own
        own = {x[0] for x in P.R[f.cls].fields if (auto_of(x[1]) or "").startswith("MEDCoupling::DataArray") or
               x[1].startswith("MEDCoupling::DataArray")}
        own = {m if "::" in m else f.cls + "::" + m for m in own}
        for m in sorted(own | set(bad)):
            R.ob("copy-connectivity", "%s:%s" % (short(f.name), short(m)), m in got and m not in bad, f.loc(),
                 "%s does not give the copy its own %s" % (f.short, m))


def with_mesh(P, E, R):
    """cloneWithMesh: the mesh of the result is a copy of the mesh of the field whenever there is one"""
    for f in sorted(P.F.values(), key=lambda f: f.name):
        if f.nm != "cloneWithMesh":
            continue
        ok = False
        for b, i, ln, n in f.all_nodes():
            if n[0] == "c" and f.S[n[1]] in P.D and P.D[f.S[n[1]]].nm == "setMesh":
                for o in origins(E, f, n[2][0]):
                    if o[0] == "c":
                        d = P.D.get(f.S[o[1]])
                        t = E.term(f, o[3]) if o[3] is not None else None
                        if d is not None and d.nm in ("deepCopy", "clone") and t is not None and t[0] == "f" and \
                                t[2].endswith("MEDCouplingField::_mesh") and \
                                not any(E.term(f, a) == ("c", 0) for a in o[2]):
                            ok = True
        R.ob("copy-with-mesh", short(f.name), ok, f.loc(), "the mesh of the copy is not a deep copy of the mesh")

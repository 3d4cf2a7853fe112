"""P03: what serialization writes, deserialization puts back in the very same attribute."""
from sa import core, facts, slots
from sa.core import short, strip, AnalysisBroken
from sa.checks.p01 import norm, NOT_VALUE

PARTS = ["interp", "medcoupling"]
EXPLAIN = ("For every serializable class, slot dataflow over the writing methods computes what lies at each position of "
           "the three small vectors and in the big arrays; over the reading methods, which position fills each data "
           "member.  R1: a resolved read finds its own member at that position; R2: each value member is written and is "
           "read back; R3: each written attribute is read back from the same stream; R4: each nested writer's vector "
           "ends up in an output.  One obligation per (class, read), (class, member), (class, written segment), "
           "(class, nested vector).")
ASSUME = ["positions the linear analysis cannot resolve are taken to be right",
          "the order of the values inside one big array is taken to be the same on both sides"]

NP = "MEDCoupling::"
MESHES = ["MEDCouplingUMesh", "MEDCoupling1SGTUMesh", "MEDCoupling1DGTUMesh", "MEDCouplingCMesh",
          "MEDCouplingCurveLinearMesh", "MEDCouplingIMesh", "MEDCouplingMappedExtrudedMesh"]
G_MESH = (("getTinySerializationInformation",), ("serialize",), ("unserialization",), ("resizeForUnserialization",))
G_STD = (("getTinySerializationIntInformation", "getTinySerializationDbleInformation",
          "getTinySerializationStrInformation"), ("serialize", "getSerializationIntArray", "getArrays"),
         ("finishUnserialization",), ("resizeForUnserialization", "checkForUnserialization"))
G_TWO = (("getTinySerializationIntInformation2", "getTinySerializationDbleInformation2"), (),
         ("finishUnserialization2",), ())
G_SLICE = (("getTinySerializationInformation",), (), ("unserialize",), ())

# attributes that another party carries
ELSEWHERE = {
    "MEDCoupling::MEDCouplingField::_mesh": "the mesh is serialized by the caller",
    "MEDCoupling::MEDCouplingField::_type": "the caller builds the field with the discretization it read",
    "MEDCoupling::MEDCouplingFieldT<*>::_time_discr": "the caller builds the field with the time discretization it read",
    "MEDCoupling::MEDCouplingFieldTemplate::_mesh": "the mesh is serialized by the caller",
    "MEDCoupling::MEDCouplingTimeDiscretizationTemplate<*>::_time_unit": "carried by the field",
    "MEDCoupling::TimeHolder::_time_unit": "carried by the field",
    "MEDCoupling::MEDCouplingUMesh::_types": "recomputed from the connectivity",
}
# (group, member): not carried by that group of methods
PARTIAL = {
    ("G_TWO", "MEDCoupling::MEDCouplingTimeDiscretizationTemplate<*>::_array"): "the arrays travel on their own",
    ("G_TWO", "MEDCoupling::MEDCouplingTwoTimeSteps::_end_array"): "the arrays travel on their own",
}


def find(P, cls, nm):
    """the implementation a class has of a method"""
    seen = []

    def go(c, depth=0):
        if c not in P.R or depth > 12:
            return None
        for m in P.R[c].ms:
            d = P.D.get(m)
            if d is not None and d.nm == nm and m in P.F:
                return P.F[m]
        for b in P.R[c].bases:
            r = go(b, depth + 1)
            if r is not None:
                return r
        return None
    return go(cls)


def compat(w, r, idx, slen):
    """written path vs path filled"""
    for i in range(min(len(w), len(r))):
        a, b = w[i], r[i]
        if isinstance(a, str) and a.startswith("*"):
            return True
        if isinstance(a, int) or isinstance(b, int):
            if isinstance(a, int) and isinstance(b, int):
                if a != b:
                    return False
                continue
            if isinstance(b, int) and slen is not slots.UNK and slots.lconst(slen) and slen.get((), 0) > 1:
                return b == idx
            return True
        if a != b:
            return False
    return True


def unresolved(pos):
    if pos is slots.UNK:
        return True
    for s in pos:
        x = str(s)
        if "'val'" in x or "('l'," in x and "'size'" not in x:
            return True
    return False


def pathname(p):
    return ".".join(short(str(x)) for x in p)


def stored(P, S, f, chan, out, depth=0):
    """member paths whose contents a big-array writer puts in its outputs"""
    E = S.E
    if depth > 3:
        return
    for b, i, ln, n in f.all_nodes():
        if n[0] == "b" and n[1] == "=":
            for p in S.tmember(f, E.term(f, n[3])):
                out.add(p)
        elif n[0] == "decl":
            for w, ini in n[1:]:
                if ini is not None:
                    for p in S.tmember(f, E.term(f, ini)):
                        out.add(p)
        elif n[0] == "c":
            d = P.D.get(f.S[n[1]])
            if d is None:
                continue
            for a in n[2]:
                for p in S.tmember(f, E.term(f, a)):
                    out.add(p)
            if n[3] is not None:
                base = E.term(f, n[3])
                if base != ("this",):
                    if not (d.nm in core.PURE_SIZE if hasattr(core, "PURE_SIZE") else False):
                        if "erial" in d.nm or d.nm in ("deepCopy", "copy"):
                            for p in S.tmember(f, base):
                                out.add(p)
                else:
                    for t in S.targets(f, n):
                        g = P.F.get(t)
                        if g is not None and g is not f and d.nm in ("serialize", "getSerializationIntArray", "getArrays",
                                                                     "getTimeDiscr"):
                            stored(P, S, g, chan, out, depth + 1)


def groups(P):
    for c in MESHES:
        yield NP + c, "G_MESH", G_MESH
    for c in sorted(P.R):
        if not c.startswith(NP):
            continue
        s = short(c)
        if s.startswith("DataArray") and find(P, c, "finishUnserialization") is not None and not P.R[c].abs:
            yield c, "G_STD", G_STD
        elif s.startswith("MEDCouplingField") and find(P, c, "finishUnserialization") is not None:
            yield c, "G_STD", G_STD
        elif find(P, c, "finishUnserialization2") is not None and not P.R[c].abs:
            yield c, "G_STD", G_STD
            yield c, "G_TWO", G_TWO
        elif s.startswith("MEDCouplingDefinitionTimeSlice") and find(P, c, "unserialize") is not None:
            yield c, "G_SLICE", G_SLICE


def run(P, R, tier):
    E = facts.Engine(P)
    E.track_done = False
    ncls = 0
    for cls, gname, (tiny, big, fin, res) in groups(P):
        if cls not in P.R:
            raise AnalysisBroken("class %s vanished" % cls)
        tag = short(cls) + (":2" if gname == "G_TWO" else "")
        S = slots.Slots(P, E, cls)
        W = {}
        written = set()       # first component of every path
        wloc = ""
        for nm in tiny:
            f = find(P, cls, nm)
            if f is None:
                continue
            wloc = wloc or f.loc()
            S.dropped = []
            r = S.writer(f.name)
            for k, lay in r.items():
                c = slots.channel(f.params[k][1])
                if c:
                    W[c] = lay
                    for s in lay.segs:
                        written |= {p[0] for p in s.what if p}
            for t, loc in nested(P, S, f):
                R.ob("nested-vector-kept", "%s:%s:%s" % (tag, nm, t), t in kept(P, S, f), loc,
                     "%s fills %s from a sub-object and never puts it in its outputs" % (f.short, t))
        bigset = set()
        for nm in big:
            f = find(P, cls, nm)
            if f is not None:
                stored(P, S, f, nm, bigset)
        written |= {p[0] for p in bigset if p}
        anyw = any(p and str(p[0]) == "*any" for c in W for sg in W[c].segs for p in sg.what)
        reads = []
        for nm in fin + res:
            f = find(P, cls, nm)
            if f is not None:
                reads += [(nm,) + x for x in S.reader(f.name, W)]
        if not reads and not any(W[c].segs for c in W):
            continue
        ncls += 1
        got = set()
        for nm, c, pos, path, loc, fn in reads:
            if not path:
                continue
            got.add(path[0])
            if c not in ("I", "D", "S") or nm.startswith(("resize", "check")):
                continue
            lay = W.get(c)
            key = "%s:%s:%s%s" % (tag, pathname(path), c, "" if pos is slots.UNK else fmt(pos))
            if unresolved(pos) or lay is None or lay.at(pos) is slots.UNK:
                R.count("unresolved reads", R.counts.get("unresolved reads", 0) + 1)
                continue
            h = lay.at(pos)
            ok = any((not w) or any(compat(p, path, idx, sg.len) for p in w) for w, idx, sg in h)
            R.ob("slot-agrees", key, ok, loc, "%s fills %s from position %s of the %s stream, where the writer puts %s" % (
                fn, pathname(path), fmt(pos), NAME[c], what(h)))
        # members
        for fld, ty, mut, _, _ in P.fields_of(cls):
            nf = norm(fld)
            if nf in NOT_VALUE or nf in ELSEWHERE or (gname, nf) in PARTIAL:
                continue
            if gname == "G_SLICE" and nf == "MEDCoupling::TimeLabel::_time":
                continue
            if not (gname == "G_STD" and nf == "MEDCoupling::DataArrayTemplate<*>::_mem"):   # values travel on their own
                R.ob("member-written", "%s:%s" % (tag, short(fld)), fld in written or anyw, wloc,
                     "serialization of %s does not write %s" % (short(cls), short(fld)))
            R.ob("member-read", "%s:%s" % (tag, short(fld)), fld in got, wloc,
                 "deserialization of %s does not fill %s" % (short(cls), short(fld)))
        # what is written in the scalar and string streams comes back
        for c in ("D", "S"):
            for sg in (W[c].segs if c in W else ()):
                for p in sg.what:
                    if not p or norm(str(p[0])) in ELSEWHERE and len(p) > 1 and str(p[1]).startswith("*"):
                        pass
                    if not p:
                        continue
                    ok = any(x[1] == c and x[3] and compat(p, x[3], 0, slots.UNK) and near(sg, x[2]) for x in reads)
                    R.ob("written-is-read", "%s:%s:%s%s" % (tag, pathname(p), c,
                                                          fmt(sg.start) if sg.start is not slots.UNK else "?"), ok, wloc,
                         "%s written at position %s of the %s stream is never read back from there" % (
                             pathname(p), fmt(sg.start), NAME[c]))
    R.count("class x group", ncls)
    R.floor("slot-agrees", 60)
    R.floor("member-read", 60)
    for k, v in ELSEWHERE.items():
        R.skip(k, v)


NAME = {"I": "integer", "D": "double", "S": "string", "a1": "integer array", "a2": "double array"}


def near(sg, pos):
    if sg.start is slots.UNK or unresolved(pos) or sg.len is slots.UNK or not slots.lconst(sg.len):
        return True
    d = slots.ladd(pos, sg.start, -1)
    return not d or not slots.lconst(d) or 0 <= d[()] < sg.len.get((), 0)


def fmt(pos):
    if pos is slots.UNK:
        return "?"
    return "+".join((str(v) if s == () else ("" if v == 1 else "%d*" % v) + short(str(s[0]))) for s, v in
                    sorted(pos.items(), key=repr)) or "0"


def what(h):
    r = sorted({pathname(p) for w, _, _ in h for p in w})
    return ", ".join(r) if r else "nothing"


def nested(P, S, f):
    """vectors local to a writer that the writer of a sub-object fills"""
    out = []
    for b, i, ln, n in f.all_nodes():
        if n[0] != "c" or n[3] is None:
            continue
        d = P.D.get(f.S[n[1]])
        if d is None or not (d.nm.startswith("getTinySer")):
            continue
        for a in n[2]:
            x = f.e(a)
            if x[0] == "v" and f.vkind(x[1]) == "l":
                nm = f.o["vars"][x[1]][0]
                out.append((nm, f.loc(ln)))
    return out


def kept(P, S, f):
    r = set()
    for b, i, ln, n in f.all_nodes():
        if n[0] == "c":
            d = P.D.get(f.S[n[1]])
            if d is None or d.nm.startswith("getTinySer") or d.nm in ("size", "clear", "operator[]"):
                continue
            for a in n[2]:
                mark(P, f, a, r)
        elif n[0] == "b" and n[1] == "=":
            mark(P, f, n[3], r)
        elif n[0] in ("u",) or n[0] == "cx":
            pass
    return r


def mark(P, f, a, r):
    for x in f.walk(f.e(a)):
        y = f.e(x)
        if y is not None and y[0] == "c":
            d = P.D.get(f.S[y[1]])
            if d is not None and d.nm == "size":
                continue
            if y[3] is not None:
                mark(P, f, y[3], r)
            for z in y[2]:
                mark(P, f, z, r)
        if y is not None and y[0] == "v" and f.vkind(y[1]) == "l":
            r.add(f.o["vars"][y[1]][0])

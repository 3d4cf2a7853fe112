"""P09: references on counted objects are given back exactly once, in C++ and through the Python interface."""
from sa import core, refs
from sa.core import short
from sa.facts import Engine

PARTS = ["interp", "medcoupling", "icoco", "renumber", "shape", "python"]
EXPLAIN = ("Path-sensitive reference counting over the control-flow graph of every function handling counted objects, with "
           "ownership summaries of callees (result owned or lent, argument consumed, out-argument owned) computed to a "
           "fixpoint; the Python module's wrapper, generated from the interface files, is analysed the same way: what a "
           "wrapper hands to the Python runtime with or without its reference must be owned or lent accordingly.  One "
           "obligation per function, per overriding pair, per class holding references, per hand-over to Python.")
ASSUME = ["references leave with the object stored in a container of raw pointers", "paths left by an exception are not judged",
          "a dynamic cast that fails everywhere means the function is not concerned"]
# a reference taken in one function and given in another through a plain pointer
HANDED = {
    "NodesBuilder::build": "hands to Nodes the reference ShapeRecognMeshBuilder::recognize took on the mesh",
    "ShapeRecognMeshBuilder::recognize": "takes on the mesh the reference NodesBuilder::build hands to Nodes",
}
# functions that take over a reference of their caller on an argument
CONSUMERS = {
    "ElementaryEdge::ElementaryEdge", "IntersectElement::IntersectElement", "ComposedEdge::pushBack",
    "ComposedEdge::setValueAt", "EdgeArcCircle::BuildFromNodes", "FromVecToVecAutoStealRef", "Nodes::Nodes",
}
# lends to Python an object that does not outlive the call, or that Python drops
LENT = ("___setitem__",)


def base_name(n):
    return short(n).split("<")[0]


def run(P, R, tier):
    E = Engine(P)
    if tier == "thorough":
        refs.CAP = 1500
    X = refs.Refs(P, E)
    if not X.solve():
        raise core.AnalysisBroken("summaries did not converge")
    for n, w in X.skipped.items():
        R.skip(short(n), w)
    if len(X.skipped) > 25:
        raise core.AnalysisBroken("%d functions could not be analysed" % len(X.skipped))
    for n in sorted(X.sum):
        if n in X.skipped:
            continue
        f = P.F[n]
        key = key_of(f)
        rule = "python-wrapper" if f.file.startswith("python/") or "_Swig/" in f.file else "balanced"
        v = X.viol.get(n, {})
        if f.short in HANDED:
            R.skip(f.short, HANDED[f.short])
            v = {}
        if not v:
            R.ob(rule, key, True)
        for (r, k), (ln, msg) in v.items():
            R.ob(rule, key + " " + r + " " + str(k), False, f.loc(ln), "%s: %s" % (f.short, msg))
        for ln, val in X.lent.get(n, {}).items():
            ok = any(f.nm.endswith(s) or s in f.name for s in LENT) or val[1][0] == "p"
            R.ob("kept-alive", key, ok, f.loc(ln), "%s gives Python an object without a reference on it: it may be destroyed "
                 "while Python uses it" % f.short)
    # consumption of an argument: constructors of holders only
    for n, s in sorted(X.sum.items()):
        f = P.F[n]
        if f.lam or "@" in f.name or (f.access in (1, 2) and f.cls and not f.ctor):
            continue        # helpers of one file or class: their callers account for it
        for k, d in s.par.items():
            if d >= 0 or s.cond is not None:
                continue
            ok = f.short.split("<")[0] in CONSUMERS or f.nm.split("<")[0] in CONSUMERS or (f.ctor and "MEDCouplingField" in (f.cls or ""))
            R.ob("consumer", key_of(f) + " #%d" % k, ok, f.loc(), "%s releases, or keeps without taking its own, a reference on "
                 "argument %d its callers keep using" % (f.short, k))
    # all implementations of a virtual method agree
    grp = {}
    for n, f in sorted(P.F.items()):
        d = P.D.get(n)
        if d is None or not d.virt or X.kind(f.rt) != "raw" or X.sum.get(n) is None or X.sum[n].ret not in ("own", "bor"):
            continue
        sig = (d.nm, tuple(t[1] for t in d.params), d.const)
        top = f.cls
        for c in P.all_bases(f.cls or ""):
            if c in P.R and any(has(P.D.get(m), sig) for m in P.R[c].ms) and P.is_a(top, c):
                top = c
        grp.setdefault((top,) + sig, []).append(n)
    for g, fs in sorted(grp.items(), key=str):
        k = [X.sum[n].ret for n in fs]
        ref = max(sorted(set(k)), key=k.count)
        for n in fs:
            o = next((m for m in fs if X.sum[m].ret != X.sum[n].ret), None)
            R.ob("override", key_of(P.F[n]), X.sum[n].ret == ref, P.F[n].loc(), "%s returns an object its caller %s, %s one its "
                 "caller %s" % (short(n), W[X.sum[n].ret], short(o) if o else "", W[ref]))
    # members holding a reference are released by the destructor
    for m in sorted(X.own_members):
        c, _, fld = m.rpartition("::")
        if c.startswith(("MEDCoupling::MCAuto", "MEDCoupling::MCConstAuto")):
            continue
        dt = [f for f in P.F.values() if f.cls == c and f.dtor and f.has_body and not f.impl]
        R.ob("destructor", m, bool(dt), "", "%s holds a reference through %s but has no destructor releasing it" % (c, fld))
    R.count("functions analysed", len(X.sum))
    R.count("hand-overs to Python", len(X.pysites))
    R.count("members holding a reference", len(X.own_members))
    R.floor("balanced", 1800)
    R.floor("python-wrapper", 1500)
    R.floor("destructor", 15)
    R.floor("kept-alive", 4)
    R.floor("override", 100)
    if len(X.pysites) < 700:
        raise core.AnalysisBroken("only %d hand-overs to Python recognised" % len(X.pysites))


W = {"own": "has to release", "bor": "does not own"}


def has(g, sig):
    return g is not None and g.virt and (g.nm, tuple(t[1] for t in g.params), g.const) == sig


def key_of(f):
    return f.short + "(" + ",".join(core.short(t[1]) for t in f.params) + ")"

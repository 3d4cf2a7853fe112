"""P08: const methods and const arguments: nothing reachable from them is changed."""
from sa import core
from sa.core import short, strip
from sa.facts import Engine
from sa.effects import Effects, NONE

PARTS = ["interp", "medcoupling"]
EXPLAIN = ("Interprocedural write-effect analysis: for every function with a body, the set of storage roots it may write "
           "(its object, its parameters, directly or through the arrays, meshes and fields they refer to), callees and "
           "overrides included, computed to a fixpoint over the call graph.  One obligation per const method of the data "
           "model (its object) and per parameter declared const: the root is not in the effect set.")
ASSUME = ["an object made by new, New, a copy or a build method is distinct from the operands, and is not used to change "
          "an array it shares with them",
          "reference counts and modification stamps are not data"]
COUNTERS = ("_cnt", "_time")
# results taken as new objects / effects taken as given
GIVEN = {
    "MEDCouplingUMesh::buildPartOfMySelf": "returns the mesh itself only for a mesh of dimension -1, refused by its users",
    "MEDCouplingUMesh::buildPartOfMySelfSlice": "as buildPartOfMySelf",
    "RefCountObjectOnly::decrRef": "releases the object",
    "RefCountObjectOnly::incrRef": "reference count",
}
# in-out by contract although declared const
INOUT = {
    "MEDCouplingCartesianAMRMeshGen::fillCellFieldOnPatchGhostAdv": "fills the ghost zones of the arrays given",
    "MEDCouplingCartesianAMRMeshGen::fillCellFieldOnPatchOnlyGhostAdv": "fills the ghost zones of the arrays given",
    "DataArrayDoubleCollection::SynchronizeFineEachOther": "fills ghost zones",
    "DataArrayDoubleCollection::SynchronizeGhostZoneOfOneUsingTwo": "fills ghost zones",
    "DataArrayDoubleCollection::synchronizeMyGhostZoneUsing": "fills ghost zones",
    "DataArrayDoubleCollection::synchronizeMyGhostZoneUsingExt": "fills ghost zones",
    "MEDCouplingGridCollection::synchronizeFineEachOther": "fills ghost zones",
    "MEDCouplingGridCollection::synchronizeFineEachOtherExt": "fills ghost zones",
    "MEDCouplingUMesh::orientCorrectly2DCells": "reverses faces of this only, refused for the reference mesh",
}
CAPACITY = ("pack",)     # memory reserved, not values


def deep_const(P, t):
    """which depths a parameter of that type promises to leave alone"""
    t = t.strip()
    if not t.startswith("const ") or not t.endswith(("*", "&")) or t.endswith("*&"):
        return ()
    inner = strip(t)
    if "*" in inner or "MCAuto<" in inner:
        return (0, 1) if "const MEDCoupling::" in inner else (0,)
    if inner in P.R and inner.startswith("MEDCoupling::"):
        return (0, 1)
    if inner.startswith("INTERP_KERNEL::") or inner.startswith("BBTree"):
        return ()        # search trees, matrices: working memory inside
    return (0,)


def run(P, R, tier):
    E = Engine(P)
    X = Effects(P, E, ignore=lambda m: m.rpartition("::")[2] in COUNTERS)
    for n, f in P.F.items():
        if f.short in GIVEN:
            X.fixed[n] = (frozenset(), NONE)
    if not X.solve():
        raise core.AnalysisBroken("effects did not converge")
    nf = 0
    for n, f in sorted(P.F.items()):
        if "/src/MEDCoupling/" not in f.file or f.lam or f.impl or "(anon" in n:
            continue
        c = f.cls
        if c is not None and not c.startswith("MEDCoupling::"):
            continue
        nf += 1
        e = X.eff.get(n, ())

        def why(q):
            w = X.why.get((n, q), (f.line, "?"))
            return f.loc(w[0]), w[1]
        key = f.short + "(" + ",".join(core.short(t[1]) for t in f.params) + ")"
        if f.const and c is not None and P.is_a(c, "MEDCoupling::RefCountObjectOnly"):
            q = [q for q in e if q[0] == "this"]
            ok = not q or f.short in INOUT or f.nm in CAPACITY
            loc, txt = why(q[0]) if q else (f.loc(), "")
            R.ob("const-method", key, ok, loc, "%s is declared const but changes %s (%s)" % (
                f.short, "the object" if q and q[0][1] == 0 else "an array or sub-object of its object", txt))
        for k, (pn, ty, _) in enumerate(f.params):
            dd = deep_const(P, ty)
            if not dd:
                continue
            q = [q for q in e if q[0] == k and q[1] in dd]
            ok = not q or f.short in INOUT
            loc, txt = why(q[0]) if q else (f.loc(), "")
            R.ob("const-argument", key + " #%d" % k, ok, loc, "%s takes argument %s as const but changes %s (%s)" % (
                f.short, pn or k, "it" if q and q[0][1] == 0 else "an array or sub-object of it", txt))
    R.count("functions whose effects were computed", len(X.eff))
    R.count("functions with obligations", nf)
    R.floor("const-method", 800)
    R.floor("const-argument", 1500)

"""P01: two objects that compare equal agree on every attribute."""
from sa import core, facts
from sa.core import short, AnalysisBroken
from sa.facts import Engine, ITER_BEGIN

PARTS = ["interp", "medcoupling"]
EXPLAIN = ("For every class of the data model with an equality comparator (own or inherited, strict and value-only), "
           "must-facts dataflow over the comparator's control-flow graph, callee summaries included, decides that each "
           "data member of the class and its bases has been compared with the same member of the other object on "
           "every path that answers 'equal'.  One obligation per (class, comparator, member).")
ASSUME = ["a loop over the elements of a container is taken to visit each of them when its counter starts at 0 and is "
          "not bounded short of a size", "a comparison of elements is taken to be a comparison of the right tolerance"]

STRICT = ("isEqualIfNotWhy", "isEqual", "isEqualIfNotWhyProtected")
LOOSE = ("isEqualWithoutConsideringStr", "isEqualWithoutConsideringStrProtected")

# members that are no attribute of the value
NOT_VALUE = {
    "MEDCoupling::RefCountObjectOnly::_cnt": "reference counter",
    "MEDCoupling::TimeLabel::_time": "modification stamp",
    "MEDCoupling::MemArray<*>::_nb_of_elem_alloc": "capacity",
    "MEDCoupling::MemArray<*>::_ownership": "storage management",
    "MEDCoupling::MemArray<*>::_dealloc": "storage management",
    "MEDCoupling::MemArray<*>::_param_for_deallocator": "storage management",
    "MEDCoupling::MEDCouplingFieldDiscretization::_precision": "tolerance setting",
    "MEDCoupling::MEDCouplingDefinitionTime::_eps": "tolerance setting",
}
# what the value-only comparator leaves out by contract ("WithoutConsideringStr")
NOT_LOOSE = {
    "MEDCoupling::MEDCouplingFieldT<*>::_quantity_kind": "descriptive label of the field",
    "MEDCoupling::MEDCouplingMesh::_time": "time label of the mesh",
    "MEDCoupling::MEDCouplingMesh::_iteration": "time label of the mesh",
    "MEDCoupling::MEDCouplingMesh::_order": "time label of the mesh",
}


def norm(field):
    i, j = field.find("<"), field.rfind(">")
    if i > 0 and j > i:
        return field[:i] + "<*>" + field[j + 1:]
    return field


def peel(t):
    while t[0] == "[]" or (t[0] == "call" and t[1] in ITER_BEGIN and t[2]):
        t = t[1] if t[0] == "[]" else t[2]
    return t


def covered(fs):
    r = set()
    for x in fs:
        if x[0] != "EQ":
            continue
        a, b = peel(x[1]), peel(x[2])
        if a[0] == b[0] == "f" and a[2] == b[2] and ("this",) in (a[1], b[1]) and a[1] != b[1]:
            r.add(a[2])
    return r


def lookup(P, c, names, depth=0):
    if c not in P.R or depth > 12:
        return None
    for nm in names:
        for m in P.R[c].ms:
            d = P.D.get(m)
            if d is not None and d.nm == nm and m in P.F and d.rt == "bool":
                return P.F[m]
    for b in P.R[c].bases:
        r = lookup(P, b, names, depth + 1)
        if r is not None:
            return r
    return None


def run(P, R, tier):
    eng = {"strict": Engine(P, lambda name, d: comparator(d.nm) and "WithoutConsidering" not in d.nm),
           "values": Engine(P, lambda name, d: comparator(d.nm) and "AndOrder" not in d.nm)}
    ncls = 0
    for c in sorted(P.R):
        if not c.startswith("MEDCoupling::"):
            continue
        for kind, names in (("strict", STRICT), ("values", LOOSE)):
            f = lookup(P, c, names)
            if f is None:
                continue
            if f.cls == "MEDCoupling::MEDCouplingMesh" and f.nm == "isEqual":
                continue
            E = eng[kind]
            E.track_done = False
            s = E.summary(f.name)
            if s[0] is None:
                R.skip(short(c) + " " + f.short, "never answers equal (abstract default)")
                continue
            ncls += 1
            cov = covered(s[0])
            for fld, ty, mut, _, _ in P.fields_of(c):
                nf = norm(fld)
                if nf in NOT_VALUE:
                    continue
                if kind == "values" and (nf in NOT_LOOSE or core.strip(ty).startswith(
                        ("std::basic_string<", "std::vector<std::basic_string<", "std::string")) or
                        core.strip(ty) in ("std::string", "std::vector<std::string>")):
                    continue
                if kind == "values" and strings_only(P, core.strip(ty)):
                    continue
                R.ob("equal-covers-member", "%s:%s:%s" % (short(c), kind, short(fld)), fld in cov, f.loc(),
                     "%s can answer 'equal' on a path that never compares %s" % (f.short, fld))
    R.count("class x comparator", ncls)
    R.floor("equal-covers-member", 100)
    for k, v in list(NOT_VALUE.items()) + list(NOT_LOOSE.items()):
        R.skip(k, v)


def comparator(nm):
    return nm.startswith(("isEqual", "areEqual")) or "AlmostEqual" in nm


def strings_only(P, t):
    return t.startswith("std::") and "string" in t and "," not in t

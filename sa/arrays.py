"""A model of data arrays, fields and meshes for the propagation of values: an array is its sizes and the values it holds."""
import re
from sa import values as V
from sa.values import R, Ptr, Obj, LV, Fun

NT, NC, DATA = ("f", "#nt"), ("f", "#nc"), ("f", "#data")
ARRAY = re.compile(r"^MEDCoupling::(DataArray\w*|PartDefinition)(<.*?>)?::(~?\w+|operator.*)$")
QUIET = {"checkAllocated", "declareAsNew", "updateTime", "copyStringInfoFrom", "copyStringInfoFrom2", "setInfoOnComponent",
         "setInfoOnComponents", "setInfoAndChangeNbOfCompo", "setName", "incrRef", "decrRef", "copyPartOfStringInfoFrom",
         "copyPartOfStringInfoFrom2", "checkNbOfTuples", "checkNbOfComps", "checkNbOfTuplesAndComp", "checkNbOfElems",
         "rearrangeNothing", "incrNothing"}
FIELD = re.compile(r"^MEDCoupling::MEDCouplingField\w*(<.*?>)?::(~?\w+)$")


class Arrays:
    """hook for Interp.meth; one per run of a function"""

    def __init__(self, fields=True):
        self.fields = fields
        self.n = 0
        self.models = {}

    def make(self, I, kind="array"):
        self.n += 1
        return (("o", "%s%d" % (kind, self.n)),)

    def array(self, store, name, nt, nc, vals, size=True):
        """a known array, put in a store before the run"""
        l = (("o", name),)
        store[l + (NT,)] = R.const(nt)
        store[l + (NC,)] = R.const(nc)
        d = l + (DATA,)
        for i, v in enumerate(vals):
            store[d + (("x", R.const(i)),)] = v if isinstance(v, R) else R.const(v)
        if size:
            store[d + (("f", "#size"),)] = R.const(len(vals))
        return l

    def __call__(self, I, name, rl, args):
        q = name.split("(")[0]
        if q == "INTERP_KERNEL::CellModel::GetCellModel":
            return self.cell_model(I, args)
        if q == "MEDCoupling::DataArray::BuildInfoFromVarAndUnit":
            return I.fresh("text")
        m = ARRAY.match(q)
        if m:
            return self.on_array(I, q, m.group(3), rl, args)
        if q.startswith("MEDCoupling::RefCountObject") or q.startswith("MEDCoupling::TimeLabel::"):
            return V.ZERO
        if self.fields:
            m = FIELD.match(q)
            if m:
                return self.on_field(I, m.group(2), rl, args)
        return None

    def cell_model(self, I, args):
        """CellModel::GetCellModel of a known type: the tables its constructor fills"""
        t = self.num(I, args[0])
        if t.c is None:
            return None
        l = (("o", "cell model %d" % t.c),)
        if l not in self.models:
            self.models[l] = None
            ctor = [f for f in I.P.F.values() if f.cls == "INTERP_KERNEL::CellModel" and f.nm == "CellModel" and len(f.params) == 1 and
                    f.params[0][1].endswith("NormalizedCellType")]
            if len(ctor) != 1:
                return None
            I.cls[l] = "INTERP_KERNEL::CellModel"
            I.call(ctor[0], [t], l, 1)
        return LV(l)

    def num(self, I, v):
        v = I.rv(v)
        return v if isinstance(v, R) else V.ZERO

    def on_array(self, I, q, b, rl, args):
        if b == "New":
            return Ptr(self.make(I))
        if rl is None:
            return None
        d = rl + (DATA,)
        st = I.store
        if b in QUIET or b.startswith("~"):
            return V.ZERO
        if b in ("getInfoOnComponent", "getName", "getInfoOnComponents", "getUnitOnComponent", "getVarOnComponent"):
            return I.fresh("text")
        if b == "isAllocated":
            return V.R1 if rl + (NT,) in st else V.ZERO
        if b == "alloc":
            nt = self.num(I, args[0])
            nc = self.num(I, args[1]) if len(args) > 1 else V.R1
            st[rl + (NT,)] = nt
            st[rl + (NC,)] = nc
            n = nt * nc
            st[d + (("f", "#size"),)] = n
            return V.ZERO
        if rl + (NT,) not in st:
            return None
        nt, nc = st[rl + (NT,)], st[rl + (NC,)]
        if b in ("begin", "getConstPointer", "getPointer", "rwBegin"):
            return Ptr(d + (("x", V.ZERO),))
        if b in ("end", "rwEnd"):
            return Ptr(d + (("x", nt * nc),))
        if b == "getNumberOfTuples":
            return nt
        if b == "getNumberOfComponents":
            return nc
        if b in ("getNbOfElems", "size"):
            return nt * nc
        if b in ("fillWithValue", "fillWithZero"):
            v = I.rv(args[0]) if args else V.ZERO
            for i in range(int((nt * nc).c)):
                st[d + (("x", R.const(i)),)] = v
            return V.ZERO
        if b in ("getIJ", "getIJSafe"):
            return I.read(d + (("x", self.num(I, args[0]) * nc + self.num(I, args[1])),))
        if b == "setIJ" or b == "setIJSilent":
            I.write(d + (("x", self.num(I, args[0]) * nc + self.num(I, args[1])),), I.rv(args[2]))
            return V.ZERO
        return None

    def on_field(self, I, b, rl, args):
        if b == "New":
            return Ptr(self.make(I, "field"))
        if rl is None:
            return None
        if b == "setArray":
            I.store[rl + (("f", "#array"),)] = I.rv(args[0])
            return V.ZERO
        if b == "getArray":
            return I.store.get(rl + (("f", "#array"),))
        if b in ("setMesh", "setName", "synchronizeTimeWithMesh", "setNature", "setTime", "setTimeTolerance", "setDescription",
                 "incrRef", "decrRef", "checkConsistencyLight", "setStartTime", "setEndTime", "setTimeUnit"):
            return V.ZERO
        return None


def result(store, v):
    """place of the array a function returned: itself, or the one of the field returned"""
    l = v.loc if isinstance(v, (Ptr, Obj, LV)) else None
    if l is None:
        return None
    if l and l[-1][0] == "x":
        l = l[:-1]
    a = store.get(l + (("f", "#array"),))
    if isinstance(a, Ptr):
        l = a.loc
    return l


def table(store, l):
    nt, nc = store.get(l + (NT,)), store.get(l + (NC,))
    if nt is None or nt.c is None or nc.c is None:
        return None
    return int(nt.c), int(nc.c), [store.get(l + (DATA, ("x", R.const(i)))) for i in range(int(nt.c * nc.c))]


class Real:
    """arrays followed through their own code: only their creation and the counts of references are short-cut"""
    VALUE = {"MEDCoupling::DataArrayDouble": "double", "MEDCoupling::DataArrayInt64": "long", "MEDCoupling::DataArrayInt32": "int"}

    def __init__(self):
        self.cls = {}
        self.n = 0

    def array(self, store, name, nt, nc, vals, cls="MEDCoupling::DataArrayDouble"):
        l = (("o", name),)
        h = (("heap", name),)
        self.fields(store, l, nc, nt * nc, Ptr(h + (("x", V.ZERO),)), self.VALUE.get(cls))
        for i, v in enumerate(vals):
            store[h + (("x", R.const(i)),)] = v if isinstance(v, R) else R.const(v)
        store[h + (("f", "#size"),)] = R.const(nt * nc)
        self.cls[l] = cls
        return l

    def fields(self, store, l, nc, n, p, value=None):
        m = l + (("f", "_mem"),)
        null = Ptr((("null",),))
        store[m + (("f", "_nb_of_elem"),)] = store[m + (("f", "_nb_of_elem_alloc"),)] = R.const(n)
        store[m + (("f", "_ownership"),)] = V.R1 if n else V.ZERO
        store[m + (("f", "_pointer"), ("f", "_internal"))] = p
        for k in ("_param_for_deallocator",):
            store[m + (("f", k),)] = null
        store[m + (("f", "_pointer"), ("f", "_external"))] = null
        store[m + (("f", "_dealloc"),)] = Fun("MEDCoupling::MemArray<%s>::CDeallocator(void *, void *)" % value) if value else null
        store[l + (("f", "_info_on_compo"), ("f", "#size"))] = R.const(nc)

    def __call__(self, I, name, rl, args):
        q = name.split("(")[0]
        if q.startswith("MEDCoupling::RefCountObject") or q.startswith("MEDCoupling::TimeLabel"):
            return V.ZERO
        if q in ("MEDCoupling::DataArrayDouble::New", "MEDCoupling::DataArrayInt64::New", "MEDCoupling::DataArrayInt32::New"):
            self.n += 1
            l = (("o", "new array %d" % self.n),)
            I.cls[l] = q[:-5]
            self.fields(I.store, l, 0, 0, Ptr((("null",),)))
            return Ptr(l)
        if q.startswith("MEDCoupling::MCAuto<") and q.endswith("::operator=") and rl and rl[-1][0] == "x":
            # an element of a vector created with its size holds nothing yet
            I.store.setdefault(rl + (("f", "_ptr"),), Ptr((("null",),)))
        return None

    @staticmethod
    def table(store, l):
        """tuples, components and values of an array; None when not known"""
        m = l + (("f", "_mem"),)
        n, nc = store.get(m + (("f", "_nb_of_elem"),)), store.get(l + (("f", "_info_on_compo"), ("f", "#size")))
        if not (isinstance(n, R) and isinstance(nc, R)) or n.c is None or nc.c is None:
            return None
        n, nc = int(n.c), int(nc.c)
        p = store.get(m + (("f", "_pointer"), ("f", "_internal")))
        if not isinstance(p, Ptr) or p.loc[0][0] == "null":
            p = store.get(m + (("f", "_pointer"), ("f", "_external")))
        if not isinstance(p, Ptr):
            return None
        if p.loc[0][0] == "null":
            return (0, nc, []) if not n else None
        if p.loc[-1][0] != "x" or p.loc[-1][1].c is None:
            p = Ptr(p.loc + (("x", V.ZERO),))
        b, o = p.loc[:-1], p.loc[-1][1]
        return (n // nc if nc else 0), nc, [store.get(b + (("x", o + R.const(i)),)) for i in range(n)]

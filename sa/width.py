"""Which 64-bit integers may be as large as a mesh: numbers of cells, nodes, tuples, elements of arrays of ids, and what is
computed from them, to a fixpoint over the whole program (flow-insensitive)."""
import re
from sa import core

I64 = ("long", "unsigned long", "long long", "unsigned long long")
I32 = ("int", "unsigned int", "short", "unsigned short", "char", "unsigned char", "signed char")
COUNTS = ("getNumberOfCells", "getNumberOfNodes", "getNumberOfTuples", "getNbOfElems", "getNbOfElemAllocated",
          "getNumberOfTuplesExpected", "getNumberOfMeshPlacesExpected", "getNumberOfTuplesExpectedRegardingCode",
          "getNodalConnectivityArrayLen", "getMeshLength", "getNumberOfCellsWithType", "getNumberOfValuesExpected",
          "getNumberOfElements", "getNumberOfCellsRecursiveWithOverlap", "getNumberOfCellsRecursiveWithoutOverlap",
          "getNumberOfCellsAtCurrentLevel", "getLength", "getCellContainingPoint", "getCellIdFromPos", "getNodeIdFromPos",
          "getMaxValueInArray", "getMinValueInArray", "getMaxAbsValueInArray", "getIJ", "getIJSafe", "deduceNumberOfTuple",
          "GetNumberOfItemGivenBES", "DeduceNumberOfGivenStructure", "getNumberOfFaces", "getTotalNumberOfCells")
# position of the destination among the arguments of the algorithms of the standard library
OUTPUT = {"copy": 2, "copy_n": 2, "copy_if": 2, "transform": -2, "partial_sum": 2, "fill": 0, "fill_n": 0, "iota": 0,
          "set_union": 4, "set_intersection": 4, "set_difference": 4, "merge": 4, "adjacent_difference": 2,
          "exclusive_scan": 2, "inclusive_scan": 2, "unique_copy": 2, "reverse_copy": 2, "replace": 0, "swap": 0}
PTRS = ("begin", "end", "getPointer", "getConstPointer", "rwBegin", "rwEnd", "getConstPointerSafe", "writeOnlyPlace")
ELEM = re.compile(r"(operator\[\]|::at|::front|::back|::begin|::end|::data|::rbegin|::rend|::cbegin|::cend|operator\*|::find|"
                  r"::first|::second)(?!\w)")


def base(t):
    t = t.strip()
    while t.endswith(("&", "*")) or t.endswith("*const"):
        t = t[:-6].strip() if t.endswith("*const") else t[:-1].strip()
    if t.startswith("const "):
        t = t[6:]
    return t.strip()


class Width:
    def __init__(self, P):
        self.P = P
        self.var = set()      # (function, variable)
        self.fld = set()
        self.ret = set()
        self.out = set()      # (function, parameter): written through, with such a value
        self.changed = False

    def isnum(self, t):
        return base(t) in I64

    def holder(self, t):
        """variables that can carry a large number: 64-bit integers, pointers to them, containers of them"""
        b = base(t)
        return b in I64 or ("std::" in b and re.search(r"[<, ](unsigned )?long\b", b) is not None) or "normal_iterator" in b

    def call(self, f, e):
        n = f.S[e[1]]
        D = self.P.D.get(n) or self.P.F.get(n)
        nm = n.split("(")[0]
        sn = re.sub(r"<[^<>]*>$", "", nm).rpartition("::")[2]
        rt = D.rt if D is not None else ""
        cls = D.cls if D is not None else None
        if sn in COUNTS and self.isnum(rt):
            if sn in ("getIJ", "getIJSafe", "getMaxValueInArray", "getMinValueInArray"):
                return cls is not None and "<long" in cls or "Int64" in (cls or "")
            return True
        if cls is not None and cls.startswith("MEDCoupling::") and "DataArray" in cls and sn in PTRS and base(rt) in I64:
            return True
        if sn in ("front", "back") and cls is not None and "DataArray" in cls and base(rt) in I64:
            return True
        if nm.startswith("std::") or nm.startswith("__gnu_cxx"):
            if e[3] is not None:
                if sn in ("size", "length", "count", "capacity", "max_size"):
                    return False
                return self.large(f, e[3])
            if sn in ("max", "min", "accumulate", "abs", "max_element", "min_element", "move", "forward", "get", "next",
                      "prev", "find", "lower_bound", "upper_bound") or "operator" in sn:
                if sn.startswith("operator-") and len(e[2]) > 1:
                    return False
                return any(self.large(f, a) for a in e[2])
            return False
        if e[1] is None:
            return False
        if "IdType<" in nm or sn in ("ToIdType", "FromIdType", "conn2C", "ind2C", "indFC", "coo2C"):
            # passes its argument on: by argument, not by what others pass
            return self.isnum(rt) and any(self.large(f, a) for a in e[2])
        for t in self.P.targets(f, e):
            if t in self.ret:
                return True
        return False

    def rt(self, n):
        D = self.P.D.get(n) or self.P.F.get(n)
        return D.rt if D is not None else ""

    def elem(self, f, e):
        e = f.e(e)
        while e is not None and e[0] == "cast":
            e = f.e(e[4])
        return e is not None and (e[0] == "x" or (e[0] == "u" and e[1] == "*") or (
            e[0] == "c" and ELEM.search(f.S[e[1]]) is not None))

    def large(self, f, e):
        e = f.e(e)
        if e is None:
            return False
        t = e[0]
        if t == "v":
            return (f.name, e[1]) in self.var
        if t == "m":
            return f.S[e[2]] in self.fld or (base(f.S[e[2]]) == "" and False) or (
                f.S[e[2]].split("::")[-1] in ("first", "second") and self.large(f, e[1]))
        if t == "c":
            return self.call(f, e)
        if t == "k":
            if e[1] is None or not f.S[e[1]].startswith("std::"):
                return False
            D = self.P.D.get(f.S[e[1]])
            k = 1 if D is not None and D.params and D.params[0][1] in ("unsigned long", "size_type") else 0
            return any(self.large(f, a) for a in e[2][k:])
        if t == "il":
            return any(self.large(f, k) for k in core.kids(e))
        if t == "x":
            return self.large(f, e[1])
        if t == "u":
            return e[1] not in ("!",) and self.large(f, e[2])
        if t == "b":
            op = e[1]
            if op == ",":
                return self.large(f, e[3])
            if op in ("==", "!=", "<", ">", "<=", ">=", "&&", "||"):
                return False
            if op == "%":
                return self.large(f, e[3]) and self.large(f, e[2])
            if op == "-":
                a, b = self.large(f, e[2]), self.large(f, e[3])
                return a and not b
            return self.large(f, e[2]) or self.large(f, e[3])
        if t == "?:":
            return self.large(f, e[2]) or self.large(f, e[3])
        if t == "cast":
            to = f.S[e[3]] if isinstance(e[3], int) else e[3]
            if base(to) in I32 and not to.rstrip().endswith("*"):
                return False
            return self.large(f, e[4])
        return False

    @staticmethod
    def refers(t):
        t = t.rstrip()
        return t.endswith(("&", "*", "*const")) and not t.startswith("const ")

    def add(self, s, k):
        if k not in s:
            s.add(k)
            self.changed = True

    def root(self, f, e):
        """the variable or field written"""
        e = f.e(e)
        while e is not None:
            if e[0] == "cast":
                e = f.e(e[4])
            elif e[0] == "x":
                e = f.e(e[1])
            elif e[0] == "u" and e[1] in ("*", "&", "p++", "++"):
                e = f.e(e[2])
            elif e[0] == "c" and e[3] is not None and ELEM.search(f.S[e[1]]):
                e = f.e(e[3])
            elif e[0] == "c" and e[3] is None and e[2] and "operator" in f.S[e[1]]:
                e = f.e(e[2][0])
            elif e[0] == "b" and e[1] in ("+", "-"):
                e = f.e(e[2])
            else:
                break
        return e

    def mark(self, f, e):
        r = self.root(f, e)
        if r is None:
            return
        if r[0] == "v" and self.holder(f.vtype(r[1])):
            self.add(self.var, (f.name, r[1]))
            if f.vkind(r[1]) == "p" and self.refers(f.vtype(r[1])):
                self.add(self.out, (f.name, r[1]))
        elif r[0] == "m":
            self.add(self.fld, f.S[r[2]])

    def step(self, f):
        P = self.P
        for b, i, ln, x in f.all_nodes():
            t = x[0]
            if t == "decl":
                for v, ini in x[1:]:
                    if ini is not None and self.holder(f.vtype(v)) and (f.name, v) not in self.var and self.large(f, ini):
                        self.add(self.var, (f.name, v))
            elif t == "b" and x[1] in ("=", "+=", "*="):
                if self.large(f, x[3]):
                    self.mark(f, x[2])
            elif t == "ret":
                if x[1] is not None and f.name not in self.ret and self.holder(f.rt) and self.large(f, x[1]):
                    self.add(self.ret, f.name)
            elif t == "finit":
                if x[2] is not None and self.large(f, x[2]):
                    self.add(self.fld, f.S[x[1]])
            elif t in ("c", "k"):
                n = f.S[x[1]]
                if t == "c" and x[3] is not None and re.search(r"::(push_back|insert|assign|emplace_back|operator=)(?!\w)",
                                                               n.split("(")[0]):
                    if any(self.large(f, a) for a in x[2]):
                        self.mark(f, x[3])
                if n.startswith("std::") and t == "c" and x[3] is None and len(x[2]) > 2:
                    k = OUTPUT.get(re.sub(r"<.*", "", n[5:]).split("(")[0])
                    if k is not None:
                        k = k if k >= 0 else len(x[2]) + k
                        if k < len(x[2]) and any(self.large(f, a) for j, a in enumerate(x[2]) if j != k):
                            self.mark(f, x[2][k])
                for g in (P.targets(f, x) if t == "c" else [n]):
                    h = P.F.get(g)
                    if h is None:
                        continue
                    for k, a in enumerate(x[2]):
                        if (h.name, k) in self.out:
                            self.mark(f, a)
                    for k, a in enumerate(x[2]):
                        if k < len(h.params) and self.holder(h.params[k][1]) and (h.name, k) not in self.var:
                            if self.large(f, a):
                                self.add(self.var, (h.name, k))

    def solve(self, fs):
        for f in fs:
            # what the caller of the library gives: any identifier
            if f.cls is not None and f.cls.startswith("MEDCoupling::") and f.access == 0 and not f.lam:
                for k, q in enumerate(f.params):
                    u = q[1].strip()
                    if u in ("long", "const long", "const long *"):
                        self.var.add((f.name, k))
        for n in range(40):
            self.changed = False
            for f in fs:
                self.step(f)
            if not self.changed:
                return True
        return False

"""P14: identifiers, counts and offsets of cells, nodes and tuples keep their 64 bits."""
import re
from sa import core
from sa.core import short
from sa.width import Width, base, I32, I64
from sa.checks.p13 import bare

PARTS = ["interp", "medcoupling", "icoco", "renumber", "shape", "python"]
EXPLAIN = ("Taint of the 64-bit integers that grow with a mesh or an array (numbers of cells, nodes, tuples; elements of "
           "arrays of identifiers; what is computed from them, through variables, containers, members, parameters and "
           "results of every function, to a fixpoint).  One obligation per conversion of a 64-bit integer to a narrower "
           "one, implicit, explicit or by FromIdType, per 32-bit counter compared with a 64-bit bound, and per sum kept "
           "in 32 bits: the value is not one of those.  A difference of two such values "
           "(nodes of one cell, length of one pack) is taken as small.")
ASSUME = ["the difference of two offsets of an index array fits 32 bits (number of nodes of one cell)",
          "mcIdType is 64-bit, as configured"]
# conversions asked for by the caller
ASKED = {
    "Areas::addNode": "areas are numbered in a field of 32-bit integers",
    "convertIntStarOrSliceLikePyObjToCpp": "32-bit instance: numbers of components",
    "convertIntStarOrSliceLikePyObjToCppWithNegIntInterp": "32-bit instance: numbers of components",
    "DataArrayByte": "values looked for in an array of bytes",
    "METISRenumbering::renumber": "the METIS library takes integers of its own width, 32-bit here",
    "copyCast": "conversion to an array of bytes, as asked",
    "DataArrayInt64::convertToInt32Arr": "conversion to 32-bit integers, as asked",
    "GaussCoords::addGaussInfo": "points of one reference cell",
    "DataArrayDiscrete::isRange": "array of 32-bit integers: the range has 32-bit values",
}


def narrowing(f, x):
    """(kind, operand) of a conversion from 64 to 32 bits or fewer"""
    if x[0] == "cast":
        to = f.S[x[3]] if isinstance(x[3], int) else x[3]
        st = f.S[x[5]] if isinstance(x[5], int) else x[5]
        if to.replace("const ", "") in I32 and st.replace("const ", "") in I64:
            y = f.e(x[4])
            while y is not None and y[0] == "cast":
                y = f.e(y[4])
            if y is not None and y[0] in ("i", "sz", "e"):
                return None
            return x[4]
    elif x[0] == "c" and "FromIdType<" in f.S[x[1]] and x[2]:
        t = f.S[x[1]].split("FromIdType<", 1)[1].split(">", 1)[0]
        if t in I32:
            return x[2][0]
    return None


def wide(P, f, e):
    """a 64-bit integer that is not a constant"""
    e = f.e(e)
    while e is not None and e[0] == "cast":
        t = f.S[e[3]] if isinstance(e[3], int) else e[3]
        if t in I32:
            return False
        e = f.e(e[4])
    if e is None:
        return False
    if e[0] == "v":
        return base(f.vtype(e[1])) in I64
    if e[0] == "m":
        return base(next((x[1] for x in P.R[f.S[e[2]].rpartition("::")[0]].fields if x[0] == f.S[e[2]]), "")
                    if f.S[e[2]].rpartition("::")[0] in P.R else "") in I64
    if e[0] == "c":
        D = P.D.get(f.S[e[1]]) or P.F.get(f.S[e[1]])
        return D is not None and base(D.rt) in I64 and not f.S[e[1]].split("(")[0].endswith(("::size", "::length"))
    if e[0] == "x":
        return len(e) > 3 and isinstance(e[3], int) and base(f.S[e[3]]) in I64
    if e[0] in "bu":
        return any(wide(P, f, k) for k in core.kids(e))
    return False


def topargs(s):
    """template arguments of the last name of a qualified name, up to its parameters"""
    out, cur, d = [], "", 0
    for ch in s:
        if ch in "<(":
            d += 1
        if ch in ">)":
            d -= 1
            if d == 0:
                break
        if ch == "," and d == 1:
            out.append(cur)
            cur = ""
        elif d > 1 or (d == 1 and ch not in "<"):
            cur += ch
    return [x.strip() for x in out + [cur]]


def item(t):
    """type of the elements an iterator or a container gives"""
    t = t.replace("const ", "").strip()
    m = re.match(r"__gnu_cxx::__normal_iterator<([a-z ]+?) ?\*", t) or re.match(r"([a-z ]+?) ?\*$", t) \
        or re.match(r"std::(?:vector|list|deque|set|multiset|initializer_list|back_insert_iterator<std::vector|"
                    r"back_insert_iterator<std::list|_Rb_tree(?:_const)?_iterator|_List_iterator|_List_const_iterator|"
                    r"_Rb_tree_const_iterator)<([a-z ]+?)[,>]", t)
    return m.group(1).strip() if m else None


def shrinks(n):
    """(function, whatever the values) for a call of the standard library that turns 64-bit elements into 32-bit ones"""
    h = n[5:].split("(")[0] if "(lambda" not in n else n[5:]
    m = re.match(r"(copy|copy_n|copy_if|transform|partial_sum|accumulate|reduce|inner_product|set_union|set_intersection|"
                 r"set_difference|merge|adjacent_difference|unique_copy|exclusive_scan|inclusive_scan)<", h)
    if m:
        a = topargs(h)
        if m.group(1) in ("accumulate", "reduce", "inner_product"):
            k = 2 if m.group(1) == "inner_product" else 1
            if len(a) > k and a[k] in I32 and any(item(t) in I64 for t in a[:k]):
                return m.group(1), True
            return None
        if m.group(1) == "transform":
            return None     # by what its operation gives
        its = [item(t) for t in a]
        src, dst = its[:1], its[-1:] if m.group(1) != "copy_n" else its[2:]
        if m.group(1) == "copy_if":
            dst = its[1:2]
        if src and dst and src[0] in I64 and dst[0] in I32:
            return m.group(1), False
        return None
    m = re.match(r"(vector|set|list|deque|multiset)<([a-z ]+?),.*::(vector|set|list|deque|multiset|insert|assign)<(.*)>$", h)
    if m and m.group(2).strip() in I32:
        if item(topargs("<" + m.group(4) + ">")[0]) in I64:
            return "%s<%s>::%s" % (m.group(1), m.group(2).strip(), m.group(3)), False
    return None


def describe(f, e):
    e = f.e(e)
    while e is not None and e[0] == "cast":
        e = f.e(e[4])
    if e is None:
        return "?"
    if e[0] == "v":
        return f.vname(e[1])
    if e[0] == "m":
        return short(f.S[e[2]]).split("::")[-1]
    if e[0] == "c":
        return short(f.S[e[1]]).split("::")[-1] + "()"
    if e[0] == "x":
        return describe(f, e[1]) + "[]"
    if e[0] in "bu":
        return e[1] + "".join(" " + describe(f, k) for k in core.kids(e))
    return e[0]


def run(P, R, tier):
    W = Width(P)
    fs = [f for n, f in sorted(P.F.items()) if f.has_body and (f.file.startswith(core.REPO + "/src/") or "python" in f.file)]
    if not W.solve(fs):
        raise core.AnalysisBroken("the taint did not converge")
    ncount = 0
    ftype = {x[0]: x[1] for c in P.R for x in P.R[c].fields}
    for f in fs:
        key = bare(f.short)
        if key.startswith("MEDCoupling_DataArrayByte_") or (f.cls or "").rstrip(">").endswith(("DataArrayDiscrete<int", "DataArrayDiscreteSigned<int")) or key in ASKED or key.split('::')[-1] in ASKED \
                or key.split("::")[-1] in ("FromIdType", "ToIdType", "conn2C", "ind2C", "indFC", "coo2C"):
            continue
        inc = set()
        for b, i, ln, x in f.all_nodes():
            if x[0] == "u" and "++" in x[1]:
                t = f.e(x[2])
                if t is not None and t[0] == "v":
                    inc.add(t[1])
        for b, i, ln, x in f.all_nodes():
            o = narrowing(f, x)
            if o is not None:
                d = describe(f, o)
                R.ob("narrowing", "%s %s" % (key, d), not W.large(f, o), f.loc(ln),
                     "%s converts %s, which grows with the mesh or the array, to 32 bits or fewer: wrong beyond 2^31" % (
                         f.short, d))
            if x[0] == "b" and x[1] in ("+=", "-=", "*="):
                l = f.e(x[2])
                lt = ""
                if l is not None and l[0] == "v":
                    lt = f.vtype(l[1])
                elif l is not None and l[0] == "m":
                    lt = ftype.get(f.S[l[2]], "")
                if base(lt) in I32 and not lt.rstrip().endswith("*"):
                    r = f.e(x[3])
                    R.ob("accumulated", "%s %s" % (key, describe(f, l)), not W.large(f, r) and not wide(P, f, r), f.loc(ln),
                         "%s adds %s up in %s, a %s: wrong beyond 2^31" % (f.short, describe(f, r), describe(f, l), base(lt)))
            if x[0] in "ck" and x[1] is not None and f.S[x[1]].startswith("std::"):
                q = shrinks(f.S[x[1]])
                if q is not None:
                    m, sure = q
                    R.ob("sequence", "%s std::%s" % (key, m),
                         not sure and not any(W.large(f, a) for a in x[2]), f.loc(ln),
                         "%s keeps 64-bit values as 32-bit ones in std::%s%s" % (
                             f.short, m, ", whose result is 32-bit like its initial value" if sure else ""))
            if x[0] == "b" and x[1] in ("<", "<=", "!=", ">", ">="):
                for p, q in ((x[2], x[3]), (x[3], x[2])):
                    c = f.e(p)
                    if c is None or c[0] != "cast":
                        continue
                    to = f.S[c[3]] if isinstance(c[3], int) else c[3]
                    st = f.S[c[5]] if isinstance(c[5], int) else c[5]
                    v = f.e(c[4])
                    if to in I64 and st in I32 and v is not None and v[0] == "v" and v[1] in inc:
                        ncount += 1
                        R.ob("counter", "%s %s" % (key, f.vname(v[1])), not W.large(f, q), f.loc(ln),
                             "%s counts up to %s with %s, a %s: never ends or overflows beyond 2^31" % (
                                 f.short, describe(f, q), f.vname(v[1]), st))
    R.count("variables and parameters that carry such values", len(W.var))
    R.count("members", len(W.fld))
    R.count("functions returning them", len(W.ret))
    for k in sorted(ASKED):
        R.skip(k, ASKED[k])
    R.skip("arguments of the Python interface declared int", "beyond 2^31 they are refused by the conversion, not cut")
    R.skip("arrays of 32-bit integers (DataArrayInt32)", "their values are 32-bit by type")
    R.floor("narrowing", 100)
    R.floor("counter", 60)
    R.floor("accumulated", 8)
    R.floor("sequence", 1)
    if len(W.var) < 2000:
        raise core.AnalysisBroken("only %d variables carry identifiers or counts" % len(W.var))

"""P17: selecting, permuting, gathering and assigning parts of arrays moves each value where announced."""
from itertools import permutations
from sa import values as V
from sa.bench import Bench, Point, Arr, Raw, End, Out, Vec, Pair, grid, sym, ids, THROWS, DBL, I64, I32, MC
from sa.values import R
from sa.checks.p16 import g, rows, tab

PARTS = ["interp", "medcoupling"]
EXPLAIN = ("Each operation which moves values of arrays is followed through its own code on arrays of known sizes whose values are distinct "
           "unknowns, for every shape and kind of selection.  Each place of the result must hold the very unknown announced; "
           "selections leaving the array must be refused; no access may leave an array or touch memory given back, "
           "when an array is its own argument too.  One obligation per operation, shape and selection.")
ASSUME = ["arrays have at most five tuples and four components; ids are given by small lists"]
ZERO = V.ZERO
KINDS = ((DBL, ""), (I64, ", 64-bit integers"))


def t(r):
    return tab(r)


def renumbering(B):
    for cls, cn in KINDS:
        for nc in (1, 2):
            a = g("a", 3, nc, cls)
            rs = rows(a)
            for p in permutations(range(3)):
                q = [0] * 3
                for i, j in enumerate(p):
                    q[j] = i
                n = " by %d %d %d of 3x%d%s" % (p + (nc, cn))
                o2n, n2o = tab([rs[q[i]] for i in range(3)], cls=cls), tab([rs[p[i]] for i in range(3)], cls=cls)
                B.case("renumber", "renumber" + n, cls, "renumber", a, [Raw(p)], o2n)
                B.case("renumber", "renumberR" + n, cls, "renumberR", a, [Raw(p)], n2o)
                B.case("renumber", "renumberInPlace" + n, cls, "renumberInPlace", a, [Raw(p)], None, after=o2n)
                B.case("renumber", "renumberInPlaceR" + n, cls, "renumberInPlaceR", a, [Raw(p)], None, after=n2o)
                B.case("renumber", "renumberAndReduce" + n, cls, "renumberAndReduce", a, [Raw(p), 3], o2n)
            for bad in ((0, 1, 3), (-1, 0, 1), (3, 0, 1), (0, 4, 1)):
                for nm in ("renumberInPlace", "renumberInPlaceR"):
                    B.case("renumber", "%s by %d %d %d of 3x%d%s" % ((nm,) + bad + (nc, cn)), cls, nm, a, [Raw(bad)], THROWS)
            for p, k in (((-1, 0, 1), 2), ((1, -1, 0), 2), ((0, -1, -1), 1), ((1, 0, -1), 2)):
                w = [None] * k
                for i, j in enumerate(p):
                    if j >= 0:
                        w[j] = rs[i]
                B.case("renumber", "renumberAndReduce by %d %d %d to %d of 3x%d%s" % (p + (k, nc, cn)), cls, "renumberAndReduce", a, [Raw(p), k], tab(w, cls=cls))


def selection(B):
    for cls, cn in KINDS:
        for nc in (1, 3):
            a = g("a", 4, nc, cls)
            rs = rows(a)
            n = " of 4x%d%s" % (nc, cn)
            for s in ((), (0,), (3,), (3, 0), (1, 1, 2), (3, 2, 1, 0), (0, 1, 2, 3, 0)):
                w = tab([rs[i] for i in s], nc, cls)
                k = " ".join(map(str, s)) or "nothing"
                for nm in ("selectByTupleId", "selectByTupleIdSafe"):
                    B.case("select", "%s %s%s" % (nm, k, n), cls, nm, a, [Raw(s), End(0)], w)
            for s in ((4,), (-1,), (0, 9), (2, -3, 1), (0, 1, 2, 4)):
                B.case("select", "selectByTupleIdSafe %s%s" % (" ".join(map(str, s)), n), cls, "selectByTupleIdSafe", a, [Raw(s), End(0)], THROWS)
            for b, e, st in ((0, 4, 1), (0, 4, 2), (1, 4, 2), (1, 3, 1), (3, 4, 5), (2, 2, 1), (0, 4, 3), (3, -1, -1), (3, 0, -2), (2, 1, -1), (1, -1, -1)):
                B.case("select", "selectByTupleIdSafeSlice %d:%d:%d%s" % (b, e, st, n), cls, "selectByTupleIdSafeSlice", a, [b, e, st],
                       tab([rs[i] for i in range(b, e, st)], nc, cls))
            for b, e, st in ((0, 5, 1), (3, 8, 2), (-1, 2, 1), (4, 6, 1), (5, -1, -1), (2, -3, -1), (3, 0, 1), (0, 2, 0), (0, 3, -1)):
                B.case("select", "selectByTupleIdSafeSlice %d:%d:%d%s" % (b, e, st, n), cls, "selectByTupleIdSafeSlice", a, [b, e, st], THROWS)
            for b in range(5):
                for e in range(b, 5):
                    B.case("select", "subArray %d %d%s" % (b, e, n), cls, "subArray", a, [b, e], tab(rs[b:e], nc, cls))
                B.case("select", "subArray %d to the end%s" % (b, n), cls, "subArray", a, [b, -1], tab(rs[b:], nc, cls))
            for b, e in ((-1, 2), (0, 5), (5, -1), (5, 5), (3, 1), (1, -2)):
                B.case("select", "subArray %d %d%s" % (b, e, n), cls, "subArray", a, [b, e], THROWS)
            for rg in (((0, 4),), ((0, 2), (1, 3)), ((1, 4), (3, 4)), ((0, 2), (0, 2)), ((0, 1), (3, 4)), ((2, 4), (0, 2)), ((1, 1), (0, 3)), ((1, 3), (2, 4), (0, 1))):
                B.case("select", "selectByTupleRanges %s%s" % (" ".join("%d:%d" % r for r in rg), n), cls, "selectByTupleRanges", a,
                       [Vec([Pair(*r) for r in rg])], tab([rs[i] for x in rg for i in range(*x)], nc, cls))
            for rg in (((0, 5),), ((-1, 2),), ((0, 1), (4, 6)), ((3, 1),)):
                B.case("select", "selectByTupleRanges %s%s" % (" ".join("%d:%d" % r for r in rg), n), cls, "selectByTupleRanges", a,
                       [Vec([Pair(*r) for r in rg])], THROWS)
        a = g("a", 3, 4, cls)
        rs = rows(a)
        for s in ((0,), (3,), (2, 0), (1, 1, 2), (3, 2, 1, 0), (0, 1, 2, 3, 3)):
            k = " ".join(map(str, s))
            B.case("components", "keepSelectedComponents %s of 3x4%s" % (k, cn), cls, "keepSelectedComponents", a, [Vec(list(s))],
                   tab([[r[i] for i in s] for r in rs], cls=cls))
            if len(set(s)) == len(s):
                b = g("b", 3, len(s), cls)
                w = [list(r) for r in rs]
                for r, x in zip(w, rows(b)):
                    for i, v in zip(s, x):
                        r[i] = v
                B.case("components", "setSelectedComponents %s of 3x4%s" % (k, cn), cls, "setSelectedComponents", a, [b, Vec(list(s))], None, after=tab(w, cls=cls))
                for m in (2, 4):
                    # the tuples which both arrays have are assigned
                    b = g("b", m, len(s), cls)
                    w = [list(r) for r in rs]
                    for r, x in zip(w, rows(b)):
                        for i, v in zip(s, x):
                            r[i] = v
                    B.case("components", "setSelectedComponents %s of 3x4, %d tuples%s" % (k, m, cn), cls, "setSelectedComponents", a,
                           [b, Vec(list(s))], None, after=tab(w, cls=cls))
                B.case("components", "setSelectedComponents %s of 3x4, other components%s" % (k, cn), cls, "setSelectedComponents", a,
                       [g("b", 3, len(s) + 1, cls), Vec(list(s))], THROWS)
        for s in ((4,), (0, 5)):
            B.case("components", "keepSelectedComponents %s of 3x4%s" % (" ".join(map(str, s)), cn), cls, "keepSelectedComponents", a, [Vec(list(s))], THROWS)
            B.case("components", "setSelectedComponents %s of 3x4%s" % (" ".join(map(str, s)), cn), cls, "setSelectedComponents", a,
                   [g("b", 3, len(s), cls), Vec(list(s))], THROWS)
        for nc in (1, 2, 4, 6):
            B.case("components", "changeNbOfComponents to %d%s" % (nc, cn), cls, "changeNbOfComponents", a, [nc, sym("d")],
                   tab([(r + [sym("d")] * 6)[:nc] for r in rs], cls=cls))


def shapes(B):
    for cls, cn in KINDS:
        for nt, nc in ((3, 2), (1, 4), (4, 1), (2, 3), (3, 3)):
            a = g("a", nt, nc, cls)
            rs = rows(a)
            n = " of %dx%d%s" % (nt, nc, cn)
            B.case("shape", "transpose" + n, cls, "transpose", a, [], None, after=Arr(nc, nt, a.vals, cls))
            for k in (1, 2, 3, 4, 6, 12):
                ok = nt * nc % k == 0
                B.case("shape", "rearrange to %d%s" % (k, n), cls, "rearrange", a, [k], None if ok else THROWS, after=Arr(nt * nc // k, k, a.vals, cls) if ok else None)
            B.case("shape", "rearrange to 0" + n, cls, "rearrange", a, [0], THROWS)
            B.case("shape", "toNoInterlace" + n, cls, "toNoInterlace", a, [], Arr(nt, nc, [rs[i][j] for j in range(nc) for i in range(nt)], cls))
            B.case("shape", "fromNoInterlace" + n, cls, "fromNoInterlace", a, [], tab([[a.vals[j * nt + i] for j in range(nc)] for i in range(nt)], cls=cls))
            B.case("shape", "explodeComponents" + n, cls, "explodeComponents", a, [], [Arr(nt, 1, [r[j] for r in rs], cls) for j in range(nc)])
            B.case("shape", "deepCopy" + n, cls, "deepCopy", a, [], a)
            B.case("shape", "reversePerTuple" + n, cls, "reversePerTuple", a, [], None, after=tab([r[::-1] for r in rs], cls=cls))
            B.case("shape", "reverse" + n, cls, "reverse", a, [], None, after=tab(rs[::-1], cls=cls))
            for k in list(range(-nt - 1, nt + 2)) + [-2 * nt - 1, -3 * nt, -4 * nt - 2, 2 * nt + 1, 5 * nt - 1]:
                s = k % nt
                B.case("shape", "circularPermutation %d%s" % (k, n), cls, "circularPermutation", a, [k], None, after=tab(rs[s:] + rs[:s], cls=cls))
            for k in list(range(-nc - 1, nc + 2)) + [-2 * nc - 1, -3 * nc, -4 * nc - 2, 2 * nc + 1, 5 * nc - 1]:
                s = k % nc
                B.case("shape", "circularPermutationPerTuple %d%s" % (k, n), cls, "circularPermutationPerTuple", a, [k], None, after=tab([r[s:] + r[:s] for r in rs], cls=cls))
            for k in (1, 2, 3):
                B.case("shape", "duplicateEachTupleNTimes %d%s" % (k, n), cls, "duplicateEachTupleNTimes", a, [k],
                       tab([r for r in rs for _ in range(k)], cls=cls) if nc == 1 else THROWS)
                B.case("shape", "duplicateNTimes %d%s" % (k, n), cls, "duplicateNTimes", a, [k], tab(rs * k, cls=cls))
            B.case("shape", "pack" + n, cls, "pack", a, [], None, after=a)
            B.case("shape", "reserve 100" + n, cls, "reserve", a, [100], None if nc == 1 else THROWS, after=a if nc == 1 else None)
            for k in range(0, nt + 1):
                B.case("shape", "reAlloc to %d%s" % (k, n), cls, "reAlloc", a, [k], None, after=tab(rs[:k], nc, cls))
            if nc == 1:
                B.case("shape", "pushBackSilent" + n, cls, "pushBackSilent", a, [sym("v")], None, after=tab(rs + [[sym("v")]], cls=cls))
                B.case("shape", "popBackSilent" + n, cls, "popBackSilent", a, [], a.vals[-1], after=tab(rs[:-1], 1, cls))


def gathering(B):
    for cls, cn in KINDS:
        for nt, nc, md, me in ((3, 2, 3, 1), (1, 1, 1, 4), (4, 1, 4, 3), (2, 3, 2, 3)):
            a, b = g("a", nt, nc, cls), g("b", md, me, cls)
            ra, rb = rows(a), rows(b)
            n = " of %dx%d and %dx%d%s" % (nt, nc, md, me, cn)
            w = tab([x + y for x, y in zip(ra, rb)], cls=cls)
            B.case("gather", "Meld" + n, cls, "Meld", None, [a, b], w)
            B.case("gather", "Meld of three" + n, cls, "Meld", None, [Vec([a, b, a])], tab([x + y + x for x, y in zip(ra, rb)], cls=cls))
            B.case("gather", "meldWith" + n, cls, "meldWith", a, [b], None, after=w)
            B.case("gather", "meldWith itself" + n, cls, "meldWith", a, ["this"], None, after=tab([x + x for x in ra], cls=cls))
            B.case("gather", "meldWith one more tuple" + n, cls, "meldWith", a, [g("b", md + 1, me, cls)], THROWS)
            B.case("gather", "Meld of three, one more tuple" + n, cls, "Meld", None, [Vec([a, b, g("c", nt + 1, 1, cls)])], THROWS)
            c = g("c", nt + 1, nc, cls)
            rc = rows(c)
            B.case("gather", "aggregate" + n, cls, "aggregate", a, [c], None, after=tab(ra + rc, cls=cls))
            B.case("gather", "aggregate itself" + n, cls, "aggregate", a, ["this"], None, after=tab(ra + ra, cls=cls))
            B.case("gather", "aggregate nothing" + n, cls, "aggregate", a, [Arr(0, nc, [], cls)], None, after=a)
            B.case("gather", "aggregate another number of components" + n, cls, "aggregate", a, [g("c", 2, nc + 1, cls)], THROWS)
            B.case("gather", "Aggregate" + n, cls, "Aggregate", None, [Vec([a, c, a])], tab(ra + rc + ra, cls=cls), types=["vector"])
            B.case("gather", "Aggregate, the same twice" + n, cls, "Aggregate", None, [Vec([a, a])], tab(ra + ra, cls=cls), types=["vector"])
            B.case("gather", "Aggregate of one" + n, cls, "Aggregate", None, [Vec([a])], a, types=["vector"])
            B.case("gather", "Aggregate, one empty" + n, cls, "Aggregate", None, [Vec([Arr(0, nc, [], cls), a])], a, types=["vector"])
            B.case("gather", "Aggregate, another number of components" + n, cls, "Aggregate", None, [Vec([a, g("c", 2, nc + 1, cls)])], THROWS, types=["vector"])
        a, c = g("a", 3, 2, cls), g("c", 2, 2, cls)
        if cls == DBL:
            B.case("gather", "Aggregate of two", cls, "Aggregate", None, [a, c], tab(rows(a) + rows(c), cls=cls))
        else:
            for o in range(3):
                B.case("gather", "Aggregate of two without %d tuples" % o, cls, "Aggregate", None, [a, c, o], tab(rows(a) + rows(c)[o:], cls=cls))


def assigning(B):
    sl = ((0, 3, 1), (0, 3, 2), (1, 3, 1), (2, 3, 1), (1, 2, 5))
    for cls, cn in KINDS:
        a = g("a", 3, 4, cls)
        rs = rows(a)
        tup = {"%d:%d:%d" % s: (list(range(*s)), list(s)) for s in sl}
        com = {"%d:%d:%d" % s: (list(range(*s)), list(s)) for s in ((0, 4, 1), (1, 4, 2), (3, 4, 1), (0, 2, 1))}
        tl = {" ".join(map(str, s)): (list(s), s) for s in ((0,), (2, 0), (1, 2, 0))}
        cl = {" ".join(map(str, s)): (list(s), s) for s in ((3,), (2, 0), (1, 2, 3, 0))}
        k = 0
        for nm, TT, CC in (("1", tup, com), ("2", tl, cl), ("3", tl, com), ("4", tup, cl)):
            for tn, (ti, ta) in TT.items():
                for cname, (ci, ca) in CC.items():
                    args = (lambda off: (list(ta) if TT is tup else [Raw(ta), End(off)]) + (list(ca) if CC is com else [
                        Raw(ca), End(off + (3 if TT is tup else 2))]))(1)
                    n = " tuples %s components %s%s" % (tn, cname, cn)

                    def put(val):
                        w = [list(r) for r in rs]
                        for i, x in enumerate(ti):
                            for j, y in enumerate(ci):
                                w[x][y] = val(i, j)
                        return tab(w, cls=cls)
                    b = g("b", len(ti), len(ci), cls)
                    rb = rows(b)
                    B.case("assign", "setPartOfValues%s%s" % (nm, n), cls, "setPartOfValues" + nm, a, [b] + args + [1], None, after=put(lambda i, j: rb[i][j]))
                    B.case("assign", "setPartOfValuesSimple%s%s" % (nm, n), cls, "setPartOfValuesSimple" + nm, a, [sym("v")] + args, None, after=put(lambda i, j: sym("v")))
                    k += 1
                    if k % 3 == 0:
                        fl = Arr(len(ti) * len(ci), 1, b.vals, cls)
                        B.case("assign", "setPartOfValues%s, flat%s" % (nm, n), cls, "setPartOfValues" + nm, a, [fl] + args + [0], None, after=put(lambda i, j: rb[i][j]))
                        if len(ci) > 1:
                            B.case("assign", "setPartOfValues%s, flat and strict%s" % (nm, n), cls, "setPartOfValues" + nm, a, [fl] + args + [1], THROWS)
                        B.case("assign", "setPartOfValues%s, too many values%s" % (nm, n), cls, "setPartOfValues" + nm, a,
                               [g("b", len(ti) + 1, len(ci), cls)] + args + [0], THROWS)
                    if len(ti) > 1 and k % 2:
                        one = g("b", 1, len(ci), cls)
                        B.case("assign", "setPartOfValues%s, one tuple%s" % (nm, n), cls, "setPartOfValues" + nm, a, [one] + args + [1], None,
                               after=put(lambda i, j: one.vals[j]))
        v = sym("v")
        for nm, args in (("1", [0, 4, 1, 0, 1, 1]), ("1", [0, 1, 1, 0, 5, 1]), ("1", [-1, 2, 1, 0, 1, 1]), ("1", [0, 1, 1, -1, 2, 1]), ("1", [2, 8, 3, 0, 1, 1]),
                         ("2", [Raw((0, 3)), End(1), Raw((0,)), End(3)]), ("2", [Raw((0,)), End(1), Raw((4,)), End(3)]), ("2", [Raw((-1,)), End(1), Raw((0,)), End(3)]),
                         ("2", [Raw((0,)), End(1), Raw((-1,)), End(3)]), ("3", [Raw((3,)), End(1), 0, 1, 1]), ("3", [Raw((-2,)), End(1), 0, 1, 1]),
                         ("3", [Raw((0,)), End(1), 0, 5, 1]), ("4", [0, 4, 1, Raw((0,)), End(4)]), ("4", [0, 1, 1, Raw((4,)), End(4)]), ("4", [0, 1, 1, Raw((-1,)), End(4)])):
            tx = " ".join(str(x.vals[-1].c) if isinstance(x, Raw) else str(x) for x in args if not isinstance(x, End))
            B.case("assign", "setPartOfValuesSimple%s outside, %s%s" % (nm, tx, cn), cls, "setPartOfValuesSimple" + nm, a, [v] + args, THROWS)
            n1 = len(args[0].vals) if isinstance(args[0], Raw) else len(range(*[x for x in args[:3]]))
            k2 = 2 if isinstance(args[0], Raw) else 3
            n2 = len(args[k2].vals) if isinstance(args[k2], Raw) else len(range(*args[k2:k2 + 3]))
            B.case("assign", "setPartOfValues%s outside, %s%s" % (nm, tx, cn), cls, "setPartOfValues" + nm, a, [g("b", n1, n2, cls)] + args + [1], THROWS)
        b = g("b", 4, 4, cls)
        rb = rows(b)
        for s in (((0, 3), (2, 0)), ((1, 1),), ((2, 3), (2, 1))):
            w = list(rs)
            for x, y in s:
                w[x] = rb[y]
            B.case("assign", "setPartOfValuesAdv %s%s" % (s, cn), cls, "setPartOfValuesAdv", a, [b, Arr(len(s), 2, [z for x in s for z in x], I64)], None, after=tab(w, cls=cls))
        for s in (((0, 4),), ((3, 0),), ((-1, 0),), ((0, -1),)):
            B.case("assign", "setPartOfValuesAdv %s%s" % (s, cn), cls, "setPartOfValuesAdv", a, [b, Arr(len(s), 2, [z for x in s for z in x], I64)], THROWS)
        for st in range(-1, 4):
            for s in ((0,), (3, 1), (2, 2, 0), (4,), (-1,), (0, 1, 2, 3)):
                ok = st >= 0 and st + len(s) <= 3 and all(0 <= x < 4 for x in s)
                w = rs[:max(0, st)] + [rb[x] for x in s if 0 <= x < 4] + rs[st + len(s):] if ok else None
                B.case("assign", "setContigPartOfSelectedValues %s at %d%s" % (" ".join(map(str, s)), st, cn), cls, "setContigPartOfSelectedValues", a,
                       [st, b, ids(*s)], None if ok else THROWS, after=tab(w, cls=cls) if ok else None)
            for s in ((0, 2, 1), (0, 4, 2), (1, 4, 2), (3, 4, 1), (0, 5, 2), (-1, 1, 1), (2, 2, 1), (4, 5, 1)):
                x = range(*s)
                ok = st >= 0 and st + len(x) <= 3 and 0 <= s[0] and s[1] <= 4
                w = rs[:max(0, st)] + [rb[i] for i in x] + rs[st + len(x):] if ok else None
                B.case("assign", "setContigPartOfSelectedValuesSlice %d:%d:%d at %d%s" % (s + (st, cn)), cls, "setContigPartOfSelectedValuesSlice", a,
                       [st, b] + list(s), None if ok else THROWS, after=tab(w, cls=cls) if ok else None)


def inverses(B):
    for n in (1, 3):
        for p in permutations(range(n)):
            q = [0] * n
            for i, j in enumerate(p):
                q[j] = i
            k = " ".join(map(str, p))
            for nm in ("invertArrayO2N2N2O", "invertArrayN2O2O2N", "invertArrayO2N2N2OBis"):
                B.case("inverse", "%s of %s" % (nm, k), I64, nm, ids(*p), [n], ids(*q))
    for nm, v, n in (("invertArrayO2N2N2O", (0, 1, 2), 2), ("invertArrayN2O2O2N", (0, 1, 2), 2), ("invertArrayN2O2O2N", (5,), 2)):
        B.case("inverse", "%s of %s in %d" % (nm, " ".join(map(str, v)), n), I64, nm, ids(*v), [n], THROWS)
    B.case("inverse", "invertArrayN2O2O2N of a part", I64, "invertArrayN2O2O2N", ids(3, 1), [5], ids(-1, 1, -1, 0, -1))
    x = grid("t", 1, 4)
    B.case("inverse", "transformWithIndArr", I64, "transformWithIndArr", ids(3, 0, 0, 2), [Raw(x), End(0)], None, after=Arr(4, 1, [x[3], x[0], x[0], x[2]], I64), types=["long"])
    for bad in ((4, 0), (-1, 1)):
        B.case("inverse", "transformWithIndArr outside, %d" % bad[0], I64, "transformWithIndArr", ids(*bad), [Raw(x), End(0)], THROWS, types=["long"])


def run(P, Rp, tier):
    B = Bench(P, Rp)
    for f in (renumbering, selection, shapes, gathering, assigning, inverses):
        f(B)
    for rule, n in (("renumber", 60), ("select", 150), ("components", 30), ("shape", 150), ("gather", 60), ("assign", 200), ("inverse", 15)):
        Rp.floor(rule, n)
    Rp.count("functions of the classes of arrays", len(B.byname))

"""Functions followed on arrays of known sizes and unknown values; what they leave is compared with what is announced."""
import math, random, re
from fractions import Fraction as Fr
from sa import values as V, arrays as A
from sa.values import R, Ptr, LV, Obj

MC = "MEDCoupling::"
DBL, I64, I32 = MC + "DataArrayDouble", MC + "DataArrayInt64", MC + "DataArrayInt32"
EPS = Fr(1, 10 ** 9)
THROWS = "throws"
PLACES = [(("x", R.const(i)),) for i in range(40)]
LOST = R.atom(("?", "written by a function not followed", 1))


def sym(n):
    return R.atom(("p", n))


def grid(name, nt, nc):
    return [sym("%s%d.%d" % (name, i, j)) for i in range(nt) for j in range(nc)]


class Point:
    """signs of values at a point: the atoms named in at have these values, the others are drawn"""

    def __init__(self, seed=1, at=None, lo=0.6, hi=1.9, signed=True):
        self.r = random.Random(seed)
        self.lo, self.hi, self.signed = lo, hi, signed
        self.env = {("p", k): float(v) for k, v in (at or {}).items()}

    def val(self, a):
        v = self.env.get(a)
        if v is None:
            if a[0] == "sqrt":
                v = max(self.num(a[1]), 0.0) ** 0.5
            elif a[0] == "abs":
                v = abs(self.num(a[1]))
            elif a[0] == "limit":
                v = 1e-300 if a[1].endswith("min") else 1e300 if a[1].endswith("max") else -1e300 if a[1].endswith("lowest") else 2e-16
            elif a[0] == "p":
                v = self.r.uniform(self.lo, self.hi) * (1 if not self.signed or self.r.random() < .5 else -1)
            elif a[0] == "cmp":
                x = self.num(a[2]) - self.num(a[3])
                v = float(x < 0 if a[1] == "<" else x == 0)
            elif a[0] == "not":
                v = float(not self.num(a[1]))
            elif a[0] == "trunc":
                v = float(int(self.num(a[1])))
            elif a[0] == "fun":
                try:
                    v = getattr(math, a[1])(*[self.num(x) for x in a[2:]])
                except (ValueError, OverflowError):
                    raise V.TooDeep("sign of %s" % (a,))
            else:
                raise V.TooDeep("sign of %s" % (a,))
            self.env[a] = v
        return v

    def num(self, x):
        def p(q):
            t = 0.0
            for m, k in q.items():
                u = float(k)
                for i, e in m:
                    u *= self.val(V.ATOMS[i]) ** e
                t += u
            return t
        return p(x.num) / (p(x.den) if x.den else 1.0)

    def __call__(self, x):
        v = self.num(x)
        return (v > 0) - (v < 0)

    def decide(self, x):
        return bool(self.num(x))


def same(a, b, sign):
    return V.equal(a, b, sign, EPS)


class Arr:
    """an array given to a function; vals: R or numbers, row after row"""

    def __init__(self, nt, nc, vals, cls=DBL):
        self.nt, self.nc, self.vals, self.cls = nt, nc, [v if isinstance(v, R) else R.const(v) for v in vals], cls


def ids(*v, **k):
    return Arr(len(v), 1, v, k.get("cls", I64))


class Raw:
    """a C array given by its address; out: it is written"""

    def __init__(self, vals, end=False, n=None):
        self.vals = [v if isinstance(v, R) else R.const(v) for v in vals]
        self.n = len(self.vals) if n is None else n


class End:
    """address after the last element of the k-th argument"""

    def __init__(self, k):
        self.k = k


class Out:
    """a variable given by reference to receive an array"""


class Vec:
    """a vector of arrays or numbers"""

    def __init__(self, items):
        self.items = items


class Pair:
    """a pair of numbers, element of a vector"""

    def __init__(self, a, b):
        self.ab = (a, b)


class Wrong(Exception):
    pass


class Bench:
    def __init__(self, P, R_):
        self.P, self.R = P, R_
        self.byname = {}
        for f in P.F.values():
            if f.cls:
                self.byname.setdefault((f.cls, f.nm), []).append(f)

    def find(self, cls, nm, n=None, types=None):
        for c in [cls] + list(self.P.all_bases(cls)):
            l = [f for f in self.byname.get((c, nm), ()) if n is None or len(f.params) == n]
            if types:
                l = [f for f in l if all(re.search(t, p[1]) for t, p in zip(types, f.params))]
            if l:
                return l[0]
        raise RuntimeError("anchor: no method %s of %s" % (nm, cls))

    def place(self, H, st, a, k):
        """value standing for an argument, and where to read it afterwards"""
        if isinstance(a, Arr):
            l = H.array(st, "arg%s" % k, a.nt, a.nc, a.vals, a.cls)
            return Ptr(l)
        if isinstance(a, Raw):
            b = (("raw%s" % k,),)
            for i, v in enumerate(a.vals):
                st[b + (("x", R.const(i)),)] = v
            st[b + (("f", "#size"),)] = R.const(a.n)
            return Ptr(b + (("x", V.ZERO),))
        if isinstance(a, Vec):
            b = (("vec%s" % k,),)
            seen = {}
            for i, v in enumerate(a.items):
                if id(v) in seen and isinstance(v, Arr):
                    st[b + (("x", R.const(i)),)] = seen[id(v)]
                    continue
                if isinstance(v, Pair):
                    for nm, x in zip(("first", "second"), v.ab):
                        st[b + (("x", R.const(i)), ("f", nm))] = x if isinstance(x, R) else R.const(x)
                    continue
                st[b + (("x", R.const(i)),)] = self.place(H, st, v, "%s_%d" % (k, i)) if not isinstance(v, (int, R)) else \
                    v if isinstance(v, R) else R.const(v)
                seen[id(v)] = st[b + (("x", R.const(i)),)]
            st[b + (("f", "#size"),)] = R.const(len(a.items))
            return LV(b)
        if isinstance(a, Out):
            b = (("out%s" % k,),)
            return LV(b)
        if a is None:
            return Ptr((("null",),))
        if isinstance(a, (int, float, Fr)):
            return R.const(a)
        return a

    def run(self, f, this, args, sign, maxpaths=8):
        """(path, place of the object, values of the arguments), or raises TooDeep or Wrong"""
        st = {}
        H = A.Real()
        tl = None
        if this is not None:
            tl = H.array(st, "this", this.nt, this.nc, this.vals, this.cls)
        vals = []
        for k, a in enumerate(args):
            if isinstance(a, End):
                p = vals[a.k]
                vals.append(Ptr(p.loc[:-1] + (("x", R.const(args[a.k].n)),)))
            else:
                vals.append(self.place(H, st, a, k) if a != "this" else Ptr(tl))
        I = V.Interp(self.P, decide=sign.decide, maxpaths=maxpaths)
        I.meth = H
        V.SIGN = sign
        try:
            ps = I.paths(f, vals, this=tl, init=st, cls=H.cls)
        finally:
            V.SIGN = None
        if len(ps) != 1:
            raise V.TooDeep("%d paths" % len(ps))
        for l in I.hv:
            # written by a function not followed: what is there is not known
            if l[-1][0] != "f" and not I.cls.get(l) and l[0][0] != "g":
                for i in PLACES:
                    ps[0].store.setdefault(l + i, LOST)
        if I.outside:
            (place, i, n, w), g = sorted(I.outside.items(), key=str)[0]
            g = getattr(g, "name", str(g)).split("(")[0]
            if n == "given back":
                raise Wrong("memory given back is %s in %s" % ("written" if w else "read", g))
            raise Wrong("an array of %d values is %s at %d in %s" % (n, "written" if w else "read", i, g))
        return ps[0], tl, vals

    def compare(self, what, got, want, sign):
        """'' or what differs; TooDeep when the value rests on something not followed"""
        if got is None:
            raise V.TooDeep("%s is not known" % what)
        if (got[0], got[1]) != (want.nt, want.nc):
            return "%s has %d tuples of %d components instead of %d of %d" % (what, got[0], got[1], want.nt, want.nc)
        for v in got[2]:
            m = V.murky(v) if isinstance(v, R) else None
            if m:
                raise V.TooDeep("%s" % m)
        for i, w in enumerate(want.vals):
            v = got[2][i]
            if not (isinstance(v, R) and same(v, w, sign)):
                return "%s: tuple %d, component %d is not what is announced" % (what, i // max(1, want.nc), i % max(1, want.nc))
        return ""

    def case(self, rule, key, cls, nm, this, args, want=None, sign=None, after=None, outs=None, types=None, n=None, isret=True, intact=True):
        """want: THROWS, an Arr (the array returned), R (the number returned), or None; after: the object afterwards;
        outs: {index of an argument: Arr or list expected there afterwards}"""
        sign = sign or Point(1)
        f = self.find(cls, nm, len(args) if n is None else n, types)
        outs = outs or {}
        why = None
        try:
            p, tl, vals = self.run(f, this, args, sign)
            if p.thrown != (want == THROWS):
                why = "an exception is thrown" if p.thrown else "no exception is thrown"
            if not why and isinstance(want, (Arr, list)):
                ls = [self.result(p.store, p.ret)] if isinstance(want, Arr) else self.results(p.store, p.ret)
                ws = [want] if isinstance(want, Arr) else want
                if ls is None or len(ls) != len(ws):
                    raise V.TooDeep("what is returned is not known")
                for l, w in zip(ls, ws):
                    why = why or self.compare("the array returned", A.Real.table(p.store, l) if l else None, w, sign)
            elif not why and isinstance(want, Vec):
                why = self.series("what is returned", p.store, p.ret.loc if isinstance(p.ret, (Ptr, Obj, LV)) else None, want, sign)
            elif not why and isinstance(want, (R, int)):
                v = p.ret
                if isinstance(v, (LV, Ptr)):
                    v = p.store.get(v.loc)
                if not isinstance(v, R):
                    raise V.TooDeep("the value returned is not known")
                if V.murky(v):
                    raise V.TooDeep(V.murky(v))
                if not same(v, want if isinstance(want, R) else R.const(want), sign):
                    why = "the value returned is not what is announced"
            if not why and this is not None:
                w = after if after is not None else this if intact and (want != THROWS) else None
                if w is not None:
                    why = self.compare("the array", A.Real.table(p.store, tl), w, sign)
            for k, a in enumerate(args):
                if why or want == THROWS:
                    break
                w = outs.get(k, a)
                if isinstance(w, Arr):
                    l = vals[k].loc
                    if isinstance(a, Out):
                        l = self.result(p.store, p.store.get(l))
                    why = self.compare("argument %d" % (k + 1), A.Real.table(p.store, l) if l else None, w, sign)
                elif isinstance(w, Vec) and isinstance(a, Vec) and not any(isinstance(x, Arr) for x in w.items):
                    why = self.series("argument %d" % (k + 1), p.store, vals[k].loc, w, sign)
                elif isinstance(w, (Raw, list)) and isinstance(a, Raw):
                    w = w.vals if isinstance(w, Raw) else [x if isinstance(x, R) else R.const(x) for x in w]
                    b = vals[k].loc[:-1]
                    got = [p.store.get(b + (("x", R.const(i)),)) for i in range(len(w))]
                    why = self.compare("argument %d" % (k + 1), (len(w), 1, got), Arr(len(w), 1, w), sign)
                elif isinstance(w, (R, int)) and isinstance(a, Out):
                    v = p.store.get(vals[k].loc)
                    if not isinstance(v, R) or V.murky(v):
                        raise V.TooDeep("argument %d is not known" % (k + 1))
                    if not same(v, w if isinstance(w, R) else R.const(w), sign):
                        why = "argument %d does not receive what is announced" % (k + 1)
        except Wrong as e:
            why = str(e)
        except V.TooDeep as e:
            self.R.skip("%s %s" % (rule, key), "not followed: %s" % str(e)[:200])
            return
        self.R.ob(rule, key, not why, f.loc(), "%s: %s" % (key, why or "ok"))

    def series(self, what, store, b, want, sign):
        """a vector of numbers or of pairs of numbers"""
        n = store.get(b + (("f", "#size"),)) if b else None
        if not isinstance(n, R) or n.c is None:
            raise V.TooDeep("the size of %s is not known" % what)
        if n.c != len(want.items):
            return "%s has %d values instead of %d" % (what, n.c, len(want.items))
        l = b + (("x", R.const(0)),)
        for i, w in enumerate(want.items):
            l = b + (("x", R.const(i)),)
            for v, x in ([(store.get(l + (("f", nm),)), x) for nm, x in zip(("first", "second"), w.ab)] if isinstance(w, Pair) else
                         [(store.get(l), w)]):
                if not isinstance(v, R) or V.murky(v):
                    raise V.TooDeep("%s: value %d is not known" % (what, i))
                if not same(v, x if isinstance(x, R) else R.const(x), sign):
                    return "%s: value %d is not what is announced" % (what, i)
        return ""

    @staticmethod
    def result(store, v):
        for _ in range(4):
            l = v.loc if isinstance(v, (Ptr, Obj, LV)) else None
            if l is None:
                return None
            if l and l[-1][0] == "x":
                l = l[:-1]
            if l + (("f", "_info_on_compo"), ("f", "#size")) in store:
                return l
            n = store.get(l + (("f", "_ptr"),))
            if n is None:
                n = store.get(l)
            if n is None:
                return None
            v = n
        return None

    def results(self, store, v):
        l = v.loc if isinstance(v, (Ptr, Obj, LV)) else None
        n = store.get(l + (("f", "#size"),)) if l else None
        if not isinstance(n, R) or n.c is None:
            return None
        out = []
        for i in range(int(n.c)):
            b = l + (("x", R.const(i)),)
            out.append(self.result(store, store.get(b + (("f", "_ptr"),)) or store.get(b) or LV(b)))
        return out

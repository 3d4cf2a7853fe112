"""Value propagation: what a function stores and returns, as constants or as rational functions of its inputs.

An abstract interpretation of the control-flow graphs of /repo's functions over the domain
  constants  <  rational functions of named unknowns  <  unknown
Nothing of the program is executed and no solver is asked: an expression is folded to the normal form of a polynomial
fraction whose atoms are the places read before they are written, a branch whose condition folds to a constant keeps one
side, every other branch splits the analysis (the same condition is decided once on a path), a loop whose condition does
not fold is analysed for one arbitrary turn (everything the body assigns is unknown at its start), a call into the
project is analysed in place, and anything else returns an unknown and forgets what it may have written.
"""
import re, time
from fractions import Fraction
from sa.core import strip

ATOMS = []
ATOM_ID = {}


def atom_id(a):
    i = ATOM_ID.get(a)
    if i is None:
        i = ATOM_ID[a] = len(ATOMS)
        ATOMS.append(a)
    return i


class R:
    """a rational function with rational coefficients"""
    __slots__ = ("num", "den", "_h")

    def __init__(self, num, den=None):
        self.num = num
        self.den = den
        self._h = None

    @staticmethod
    def const(c):
        c = Fraction(c)
        return R({(): c} if c else {})

    @staticmethod
    def atom(a):
        return R({((atom_id(a), 1),): Fraction(1)})

    @property
    def c(self):
        """the constant it is, or None"""
        if self.den is not None:
            return None
        if not self.num:
            return Fraction(0)
        if len(self.num) == 1 and () in self.num:
            return self.num[()]
        return None

    @property
    def the_atom(self):
        if self.den is None and len(self.num) == 1:
            (m, k), = self.num.items()
            if k == 1 and len(m) == 1 and m[0][1] == 1:
                return ATOMS[m[0][0]]
        return None

    def key(self):
        if self._h is None:
            self._h = (tuple(sorted(self.num.items())), None if self.den is None else tuple(sorted(self.den.items())))
        return self._h

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, R) and self.key() == o.key()

    def __add__(self, o):
        if self.den is None and o.den is None:
            return R(padd(self.num, o.num))
        if self.den == o.den:
            return mk(padd(self.num, o.num), self.den)
        a, b = self.den or ONE, o.den or ONE
        return mk(padd(pmul(self.num, b), pmul(o.num, a)), pmul(a, b))

    def __neg__(self):
        return R({m: -k for m, k in self.num.items()}, self.den)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        if self.den is None and o.den is None:
            return R(pmul(self.num, o.num) if not ROOTS else reduced(pmul(self.num, o.num)))
        return mk(pmul(self.num, o.num), pmul(self.den or ONE, o.den or ONE))

    def __truediv__(self, o):
        return mk(pmul(self.num, o.den or ONE), pmul(self.den or ONE, o.num))

    def diff(self, a):
        i = atom_id(a)
        if self.den is None:
            return R(pdiff(self.num, i))
        return mk(psub(pmul(pdiff(self.num, i), self.den), pmul(self.num, pdiff(self.den, i))), pmul(self.den, self.den))

    def subs(self, m):
        """replace atoms by R values"""
        ids = {atom_id(a): v for a, v in m.items()}

        def ev(p):
            r = ZERO
            for mono, k in p.items():
                t = R.const(k)
                rest = []
                for i, e in mono:
                    if i in ids:
                        for _ in range(e):
                            t = t * ids[i]
                    else:
                        rest.append((i, e))
                if rest:
                    t = t * R({tuple(rest): Fraction(1)})
                r = r + t
            return r
        n = ev(self.num)
        return n if self.den is None else n / ev(self.den)

    def atoms(self):
        s = set()
        for p in (self.num, self.den or {}):
            for mono in p:
                for i, e in mono:
                    s.add(ATOMS[i])
        return s

    def same(self, o, eps=Fraction(1, 10 ** 9)):
        """equal as functions, coefficients up to eps (they are written as decimals)"""
        d = psub(pmul(self.num, o.den or ONE), pmul(o.num, self.den or ONE))
        return all(abs(k) <= eps for k in d.values())

    def __repr__(self):
        def p(q):
            return " + ".join("%s%s" % (float(k) if k.denominator > 1000 else k,
                                        "".join("*%s^%d" % (short_atom(ATOMS[i]), e) for i, e in m))
                              for m, k in sorted(q.items())) or "0"
        return p(self.num) if self.den is None else "(%s)/(%s)" % (p(self.num), p(self.den))


def short_atom(a):
    s = str(a)
    return s if len(s) < 40 else s[:37] + "..."


# ---- square roots: off unless a check asks for it, SIGN tells the sign of a value under the assumptions of the check
SIGN = None
POSITIVE = set()          # atoms taken as positive
ROOTS = {}                # id of an atom sqrt(P) -> P


def reduced(p):
    """squares of roots replaced by what is under them"""
    while True:
        bad = [m for m in p if any(e > 1 and i in ROOTS for i, e in m)]
        if not bad:
            return p
        q = {m: k for m, k in p.items()}
        for m in bad:
            t = {tuple((i, e % 2 if i in ROOTS else e) for i, e in m if not (i in ROOTS and e % 2 == 0)): q.pop(m)}
            for i, e in m:
                if i in ROOTS:
                    for _ in range(e // 2):
                        t = pmul(t, ROOTS[i])
            q = padd(q, t)
        p = q


def croot(c):
    n, m = isqrt(c.numerator), isqrt(c.denominator)
    if n * n == c.numerator and m * m == c.denominator:
        return Fraction(n, m)
    k = 10 ** 30
    return Fraction(isqrt(c.numerator * k * k // c.denominator), k)


def proot(p):
    """sqrt of a polynomial: content * monomial * sqrt(primitive part)"""
    from math import gcd
    ks = list(p.values())
    n = l = 0
    for k in ks:
        n = gcd(n, k.numerator)
        l = k.denominator if not l else l * k.denominator // gcd(l, k.denominator)
    c = Fraction(n, l)
    mono = None
    for m in p:
        d = {i: e for i, e in m if ATOMS[i] in POSITIVE}
        mono = d if mono is None else {i: min(e, d[i]) for i, e in mono.items() if i in d}
    mono = {i: e - e % 2 for i, e in mono.items() if e > 1}
    out = R({tuple(sorted((i, e // 2) for i, e in mono.items())): croot(c)})
    rest = {tuple((i, e - mono.get(i, 0)) for i, e in m if e > mono.get(i, 0)): k / c for m, k in p.items()}
    if rest == ONE:
        return out
    a = ("sqrt", R(rest))
    ROOTS[atom_id(a)] = rest
    return out * R.atom(a)


def root(a):
    if a.c is not None and a.c >= 0:
        return R.const(croot(a.c))
    if not a.num:
        return ZERO
    n, d = a.num, a.den or ONE
    if SIGN(R(d)) < 0:
        n, d = {m: -k for m, k in n.items()}, {m: -k for m, k in d.items()}
    return proot(n) / proot(d)


def padd(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, k in b.items():
        v = r.get(m)
        if v is None:
            r[m] = k
        else:
            v = v + k
            if v:
                r[m] = v
            else:
                del r[m]
    return r


def psub(a, b):
    return padd(a, {m: -k for m, k in b.items()})


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for i, e in b:
        d[i] = d.get(i, 0) + e
    return tuple(sorted(d.items()))


UNTIL = None                   # when the propagation under way stops
STOP = None                    # when all of them do


def equal(a, b, sign, eps):
    """whether two values are the same expression; too large for a normal form, whether they agree at the point of sign"""
    global UNTIL, SIGN
    UNTIL, SIGN = min(time.time() + 60, STOP or 1e18), sign
    try:
        if not (a - b).num:
            return True
        n = psub(reduced(pmul(a.num, b.den or ONE)), reduced(pmul(b.num, a.den or ONE)))
    except TooDeep:
        x, y = sign.num(a), sign.num(b)
        return abs(x - y) <= 1e-3 * max(abs(x), abs(y))
    finally:
        UNTIL = SIGN = None
    m = max(abs(k) for p in (a.num, b.num) for k in p.values()) if (a.num or b.num) else 1
    return all(abs(k) <= eps * max(1, m) for k in n.values())


def pmul(a, b):
    if UNTIL is not None and len(a) + len(b) > 8 and (time.time() > UNTIL or len(a) * len(b) > 2000000):
        raise TooDeep("expressions too large")
    r = {}
    for m, k in a.items():
        for n, l in b.items():
            x = mmul(m, n)
            v = r.get(x)
            v = k * l if v is None else v + k * l
            if v:
                r[x] = v
            elif x in r:
                del r[x]
    return r


def pdiff(p, i):
    r = {}
    for m, k in p.items():
        for j, e in m:
            if j == i:
                n = tuple((x, y if x != i else y - 1) for x, y in m if not (x == i and y == 1))
                r[n] = r.get(n, 0) + k * e
    return {m: k for m, k in r.items() if k}


def exact_div(a, b):
    """a / b as polynomials when b divides a exactly, else None (lexicographic long division)"""
    if not b:
        return None
    def lead(p):
        return max(p, key=lambda m: tuple(sorted(((-i, e) for i, e in m), reverse=True)))
    # graded by a fixed order on exponent vectors
    ids = sorted({i for p in (a, b) for m in p for i, e in m})

    def vec(m):
        d = dict(m)
        return tuple(d.get(i, 0) for i in ids)
    A = {vec(m): k for m, k in a.items()}
    B = {vec(m): k for m, k in b.items()}
    lb = max(B)
    q = {}
    n = 0
    while A:
        n += 1
        if n > 400:
            return None
        la = max(A)
        d = tuple(x - y for x, y in zip(la, lb))
        if min(d, default=0) < 0:
            return None
        k = A[la] / B[lb]
        q[d] = k
        for m, l in B.items():
            x = tuple(u + v for u, v in zip(m, d))
            v = A.get(x, 0) - k * l
            if v:
                A[x] = v
            else:
                A.pop(x, None)
    return {tuple((i, e) for i, e in zip(ids, m) if e): k for m, k in q.items()}


ONE = {(): Fraction(1)}
ZERO = R({})
R1 = R(ONE)


def mk(num, den):
    if ROOTS:
        num, den = reduced(num), reduced(den)
        if len(den) == 1:
            (m, k), = den.items()
            t = tuple(x for x in m if x[0] in ROOTS)
            if t:
                num, den = reduced(pmul(num, {t: Fraction(1)})), reduced(pmul(den, {t: Fraction(1)}))
    if not num:
        return ZERO
    if len(den) == 1 and () in den:
        k = den[()]
        return R({m: v / k for m, v in num.items()})
    if not den:
        return R.atom(("div0",))
    q = exact_div(num, den)
    if q is not None:
        return R(q)
    k = den[max(den)]
    if k != 1:
        num = {m: v / k for m, v in num.items()}
        den = {m: v / k for m, v in den.items()}
    return R(num, den)


WRAP = 2 ** 64


class Ptr:
    """address of loc (a tuple path); step -1 for a reverse iterator (designates the element before loc)"""
    __slots__ = ("loc", "rev")

    def __init__(self, loc, rev=False):
        self.loc = loc
        self.rev = rev

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.loc == o.loc and self.rev == o.rev

    def __hash__(self):
        return hash((self.loc, self.rev))

    def __repr__(self):
        return "&%s%s" % (self.loc, "r" if self.rev else "")

    def move(self, k):
        if self.loc[-1][0] != "x":
            return Ptr(self.loc + (("+", k),), self.rev) if k.c != 0 else self
        if self.rev:
            k = -k
        k = self.loc[-1][1] + k
        if k.c is not None and abs(k.c) >= WRAP // 4 and k.c.denominator == 1:
            # a negative number mixed with unsigned ones: addresses are computed modulo 2^64
            k = R.const((int(k.c) + WRAP // 2) % WRAP - WRAP // 2)
        return Ptr(self.loc[:-1] + (("x", k),), self.rev)

    def target(self):
        if self.rev:
            return self.loc[:-1] + (("x", self.loc[-1][1] - R1),)
        return self.loc


class LV:
    __slots__ = ("loc",)

    def __init__(self, loc):
        self.loc = loc


class Str:
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __eq__(self, o):
        return isinstance(o, Str) and o.s == self.s

    def __hash__(self):
        return hash(self.s)

    def __repr__(self):
        return repr(self.s)


class Agg:
    """a braced list"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Fun:
    """a function used as a value"""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Fun) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Bound:
    """a function object of the standard library, possibly with arguments bound"""
    __slots__ = ("call",)

    def __init__(self, call):
        self.call = call            # interpreter, values -> value


OPS = {"plus": "+", "minus": "-", "multiplies": "*", "divides": "/"}


class Lam:
    """a lambda: its call operator and the places of what it captures"""
    __slots__ = ("name", "cap")

    def __init__(self, name, cap):
        self.name = name
        self.cap = cap


class Obj:
    """an object of class type, by its place"""
    __slots__ = ("loc",)

    def __init__(self, loc):
        self.loc = loc


class Thrown(Exception):
    pass


class TooDeep(Exception):
    pass


NULL = Ptr((("null",),))
INT = re.compile(r"^(const )?(unsigned |signed )?(int|long|long long|short|char|bool|unsigned|mcIdType|size_t|std::size_t|"
                 r"unsigned int|unsigned long)$")


def is_ref(t):
    return t.rstrip().endswith("&") or "(&" in t


def is_int(t):
    t = t.replace("const ", "").replace("volatile ", "").rstrip("& ")
    return bool(INT.match(t)) or t in ("std::ptrdiff_t", "ptrdiff_t", "long", "unsigned long")


def is_float(t):
    t = t.replace("const ", "").rstrip("& ")
    return t in ("double", "float", "long double")


def arr_len(t):
    m = re.search(r"\[(\d+)\]", t)
    return int(m.group(1)) if m else None


class Frame:
    __slots__ = ("f", "id", "this", "bind", "elv", "ret", "gen")

    def __init__(self, f, i, this):
        self.f = f
        self.id = i
        self.this = this
        self.bind = {}      # variable -> place it is bound to
        self.elv = {}
        self.ret = None
        self.gen = {}       # loop header -> turns analysed


class Path:
    """the state at the end of one path"""

    def __init__(self, store, cls, ret, thrown, conds):
        self.store = store
        self.cls = cls
        self.ret = ret
        self.thrown = thrown
        self.conds = conds


NESTED = re.compile(r"^(const )?(std::)?(vector|list|deque)<(const )?(std::)?(__cxx11::|__debug::)?(set|map|vector|list|deque)<")
TREE = re.compile(r"^(const )?(std::)?(__cxx11::|__debug::)?(set|map)<")


class Interp:
    MAXSTEP = 400000

    def __init__(self, P, opaque=(), decide=None, maxpaths=400):
        self.P = P
        self.opaque = opaque
        self.decide = decide          # callable(atom) -> True / False / None
        self.maxpaths = maxpaths
        self._loops = {}
        self._decls = {}
        self.hooks = {}               # name of a function -> callable(self, args) -> value; of a constructor: (self, args, place) -> done
        self.meth = None              # callable(self, name, place of the object, args) -> value or None, asked before a body is entered
        self.visited = set()
        self.running = None
        self.seconds = 90             # time given to the paths of one call
        self.freed = set()            # places given back by free or delete []
        self.outside = {}             # accesses to elements an array or vector of known size does not have: (place, index, size) -> function

    def inside(self, loc, write):
        for k in range(1, len(loc)):
            st = loc[k]
            if st[0] == "x" and st[1].c is not None:
                n = self.store.get(loc[:k] + (("f", "#size"),))
                if isinstance(n, R) and n.c is not None and not 0 <= st[1].c < n.c:
                    self.outside.setdefault((loc[:k], st[1].c, n.c, write), self.running)
                elif loc[:k] in self.freed:
                    self.outside.setdefault((loc[:k], st[1].c, "given back", write), self.running)

    # ------------------------------------------------------------------ driver
    def paths(self, f, args=(), this=None, init=None, cls=None):
        """every path of f; args: values for the parameters (missing: unknown), this: place of the object"""
        global UNTIL
        UNTIL = min(time.time() + self.seconds, STOP or 1e18)
        try:
            return self.all_paths(f, args, this, init, cls)
        finally:
            UNTIL = None

    def all_paths(self, f, args, this, init, cls):
        out = []
        todo = [[]]
        while todo:
            pre = todo.pop()
            if len(out) > self.maxpaths:
                raise TooDeep("%s: more than %d paths" % (f.name, self.maxpaths))
            self.pre = pre
            self.dec = []
            self.assume = {}
            self.store = dict(init or {})
            self.cls = dict(cls or {})
            self.hv = {}
            self.nfresh = 0
            self.nframe = 0
            self.steps = 0
            self.nobj = 0
            self.arrays = set()
            self.freed = set()
            thrown = False
            ret = None
            try:
                ret = self.call(f, list(args), this, 0)
                ret = self.freeze(ret)
            except Thrown:
                thrown = True
            out.append(Path(self.store, self.cls, ret, thrown, dict(self.assume)))
            for k in range(len(pre), len(self.dec)):
                if self.dec[k] is True:
                    todo.append([x for x in self.dec[:k]] + [False])
        return out

    def freeze(self, v):
        return v

    # ------------------------------------------------------------------ store
    def fresh(self, what):
        self.nfresh += 1
        return R.atom(("?", what, self.nfresh))

    def obj(self, cls=None):
        self.nobj += 1
        l = (("o", self.nobj),)
        if cls:
            self.cls[l] = cls
        return l

    def read(self, loc):
        self.inside(loc, False)
        v = self.store.get(loc)
        if v is not None:
            return v
        r = loc[0]
        if r[0] == "g":
            v = self.glob(loc)
            if v is not None:
                return v
        if loc[-1] == ("f", "#size"):
            v = R.atom(("size", loc[:-1], self.hver(loc)))
        else:
            v = R.atom(("in", loc, self.hver(loc)))
        return v

    def hver(self, loc):
        if not self.hv:
            return 0
        n = 0
        for k in range(1, len(loc) + 1):
            n = max(n, self.hv.get(loc[:k], 0))
        return n

    def glob(self, loc):
        g = self.P.V.get(loc[0][1])
        if g is None:
            return None
        if not g[0].startswith("const ") and "[" not in g[0] and "const" not in g[0]:
            return None
        e = g[1]
        S = g[4] if len(g) > 4 else None
        for st in loc[1:]:
            while e and e[0] == "cast":
                e = e[4]
            if st[0] == "x" and st[1].c is not None and e and e[0] == "il":
                i = int(st[1].c)
                if i >= len(e[1]) or i < 0:
                    n = arr_len(g[0]) if len(loc) == 2 else None
                    if n is not None and not 0 <= i < n:
                        self.outside.setdefault((loc[:1], i, n, False), self.running)
                if i >= len(e[1]):
                    n = arr_len(g[0])
                    return R.const(0) if n is not None and i < n else None
                if i < 0:
                    return None
                e = e[1][i]
            else:
                return None
        return self.const_expr(e, S)

    def const_expr(self, e, S):
        t = e[0] if e else None
        if t in ("i", "e"):
            return R.const(e[1] if t == "i" else e[2])
        if t == "f":
            return R.const(fval(e[1]))
        if t == "s":
            return Str(e[1])
        if t == "null":
            return NULL
        if t == "cast":
            return self.const_expr(e[4], S)
        if t == "u" and e[1] in ("-", "+"):
            v = self.const_expr(e[2], S)
            return None if not isinstance(v, R) else (-v if e[1] == "-" else v)
        if t == "b" and e[1] in "+-*/":
            a, b = self.const_expr(e[2], S), self.const_expr(e[3], S)
            if isinstance(a, R) and isinstance(b, R):
                if e[1] == "/":
                    if b.c in (None, 0):
                        return None
                    q = a / b
                    return q
                return a + b if e[1] == "+" else a - b if e[1] == "-" else a * b
            return None
        if t == "g" and S is not None:
            return self.read((("g", S[e[1]]),))
        return None

    def write(self, loc, v):
        # an index that may be another one already written: forget those
        for k, st in enumerate(loc):
            if st[0] == "x" and st[1].c is None:
                pre = loc[:k]
                for l in [l for l in self.store if len(l) > k and l[:k] == pre and l[k][0] == "x"]:
                    d = (l[k][1] - st[1]).c
                    if d is None:
                        del self.store[l]
                        self.hv[l] = self.tick()
                break
            if st[0] == "x" and any(True for _ in ()):
                pass
        if isinstance(v, Obj):
            self.inside(loc, True)
            self.copy(v.loc, loc)
            return
        if isinstance(v, Agg):
            self.wipe(loc)
            self.store[loc + (("f", "#size"),)] = R.const(len(v.v))
            for i, w in enumerate(v.v):
                self.write(loc + (("x", R.const(i)),), w)
            return
        self.inside(loc, True)
        self.store[loc] = v

    def tick(self):
        self.nfresh += 1
        return self.nfresh

    def wipe(self, loc):
        n = len(loc)
        for l in [l for l in self.store if l[:n] == loc]:
            del self.store[l]

    def havoc(self, loc):
        self.wipe(loc)
        self.hv[loc] = self.tick()

    def copy(self, src, dst):
        if src == dst:
            return
        n = len(src)
        ent = [(l, v) for l, v in self.store.items() if l[:n] == src]
        self.wipe(dst)
        if not ent and src[0][0] in ("g",):
            self.store[dst] = self.read(src)
        if not ent:
            v = R.atom(("in", src, self.hver(src)))
            self.store[dst] = v
        for l, v in ent:
            self.store[dst + l[n:]] = v
        c = self.cls.get(src)
        if c and dst not in self.cls:
            self.cls[dst] = c

    def rv(self, v):
        if isinstance(v, LV):
            r = self.store.get(v.loc)
            if r is None and v.loc[0][0] != "g":
                n = len(v.loc)
                for l in self.store:
                    if len(l) > n and l[:n] == v.loc:
                        return Obj(v.loc)
            return self.read(v.loc)
        return v

    def num(self, v):
        v = self.rv(v)
        if isinstance(v, R):
            return v
        if isinstance(v, Obj):
            return R.atom(("obj", v.loc))
        if isinstance(v, Ptr):
            return R.atom(("ptr", v.loc, v.rev))
        return self.fresh("num")

    def deref(self, v):
        v = self.rv(v)
        if isinstance(v, Ptr):
            return v.target()
        if isinstance(v, Obj):
            return v.loc
        if isinstance(v, R):
            # unknown pointer, possibly moved by an amount
            base = None
            off = ZERO
            for m, k in v.num.items():
                if v.den is None and k == 1 and len(m) == 1 and m[0][1] == 1 and base is None and \
                        ATOMS[m[0][0]][0] in ("in", "?", "p"):
                    base = ATOMS[m[0][0]]
                else:
                    off = off + R({m: k})
            if base is not None and off.c is not None:
                return (("*", base), ("x", off))
            return (("*", ("e", v)), ("x", ZERO))
        return (("*", self.tick()), ("x", ZERO))

    def as_ptr(self, v):
        v = self.rv(v)
        if isinstance(v, Ptr):
            return v
        if isinstance(v, Obj):
            return Ptr(v.loc + (("x", ZERO),))
        return Ptr(self.deref(v))

    # ------------------------------------------------------------------ functions
    def loops(self, f):
        r = self._loops.get(f.name)
        if r is None:
            r = {}
            pos = {b: i for i, b in enumerate(f.rpo)}
            for b in f.rpo:
                for s in f.succs(b):
                    if s in pos and pos[s] <= pos[b] and f.dominates(s, b):
                        body = r.setdefault(s, {s})
                        st = [b]
                        while st:
                            x = st.pop()
                            if x not in body:
                                body.add(x)
                                st.extend(f.pred[x])
            self._loops[f.name] = r
        return r

    def find(self, name):
        f = self.P.F.get(name)
        return f if f is not None and f.has_body else None

    def call(self, f, args, this, depth, cap=None):
        if depth > 14:
            raise TooDeep(f.name)
        self.visited.add(f.name)
        caller, self.running = self.running, f
        try:
            return self.run(f, args, this, depth, cap)
        finally:
            self.running = caller

    def run(self, f, args, this, depth, cap):
        self.nframe += 1
        fr = Frame(f, self.nframe, this)
        pv = [i for i in range(len(f.vars)) if f.vkind(i) == "p"]
        if cap is not None:
            for i in range(len(f.vars)):
                if f.vkind(i) != "p" and f.vname(i) in cap and not self.declares(f, i):
                    fr.bind[i] = cap[f.vname(i)]
        for k, i in enumerate(pv):
            t = f.vtype(i)
            place = (("v", fr.id, i),)
            if cap is not None and k >= len(f.params) and f.vname(i) in cap:
                fr.bind[i] = cap[f.vname(i)]
                continue
            if k < len(args) and args[k] is not None:
                a = args[k]
                if is_ref(t):
                    if isinstance(a, LV):
                        fr.bind[i] = a.loc
                        continue
                    if isinstance(a, Obj):
                        fr.bind[i] = a.loc
                        continue
                a = self.decay(a) if "*" in t else self.rv(a)
                self.write(place, a)
            else:
                if t.endswith("&"):
                    fr.bind[i] = (("*", ("p", f.vname(i))),)
                else:
                    self.store[place] = R.atom(("p", f.vname(i)))
        return self.body(fr, depth)

    def declares(self, f, i):
        d = self._decls.get(f.name)
        if d is None:
            d = self._decls[f.name] = {d[0] for _, e in f.el.values() for n in f.walk(e) if n[0] == "decl" for d in n[1:]}
        return i in d

    def truth(self, v):
        v = self.rv(v)
        if isinstance(v, Ptr):
            return v.loc != NULL.loc
        if isinstance(v, R):
            c = v.c
            if c is not None:
                return c != 0
            a = ("cond", v)
            at = v.the_atom
            if at is not None and at[0] == "not":
                t = self.truth(at[1])
                return None if t is None else not t
            if a in self.assume:
                return self.assume[a]
            return None
        if isinstance(v, (Str, Fun)):
            return True
        return None

    def branch(self, v):
        t = self.truth(v)
        if t is not None:
            return t
        v = self.num(v)
        at = v.the_atom
        neg = False
        while at is not None and at[0] == "not":
            v = at[1]
            neg = not neg
            at = v.the_atom
        d = self.decide(v) if self.decide else None
        if d is None:
            k = len(self.dec)
            d = self.pre[k] if k < len(self.pre) else True
            self.dec.append(d)
        self.assume[("cond", v)] = d
        return d != neg

    def body(self, fr, depth):
        f = fr.f
        loops = self.loops(f)
        b = f.entry
        prev = None
        while True:
            self.steps += 1
            if self.steps > self.MAXSTEP:
                raise TooDeep(f.name + ": steps")
            if b == f.exit:
                return fr.ret
            if b in loops:
                back = prev in loops[b]
                g = fr.gen.get(b)
                if not back:
                    fr.gen[b] = 0
                elif g == 2:
                    # the arbitrary turn is over
                    fr.gen[b] = 3
            bl = f.bl[b]
            self.elements(fr, bl[1], depth)
            if bl[5]:
                raise Thrown()
            nx = bl[3]
            term = bl[2]
            if not [s for s in nx if s is not None]:
                raise Thrown()
            if term is None:
                prev, b = b, nx[0]
                if b is None:
                    raise Thrown()
                continue
            k = term[0]
            if k == "SwitchStmt":
                v = self.num(self.ev(fr, term[1], depth))
                prev, b = b, self.switch(f, b, v)
                if b is None:
                    raise Thrown()
                continue
            if len(nx) < 2 or term[1] is None or k in ("BreakStmt", "ContinueStmt", "GotoStmt", "CXXTryStmt"):
                prev, b = b, nx[0]
                if b is None:
                    raise Thrown()
                continue
            cond = self.ev(fr, term[1], depth)
            if b in loops and self.truth(cond) is None:
                body = loops[b]
                g = fr.gen.get(b, 0)
                ins = [s for s in nx if s in body]
                outs = [s for s in nx if s is not None and s not in body]
                if ins and outs and k in ("ForStmt", "WhileStmt", "CXXForRangeStmt"):
                    if g < 2:
                        fr.gen[b] = 2
                        self.forget(fr, body)
                        self.elements(fr, bl[1], depth)
                        prev, b = b, ins[0]
                        continue
                    prev, b = b, outs[0]
                    continue
            d = self.branch(cond)
            n = nx[0] if d else nx[1]
            if n is None:
                raise Thrown()
            if n in loops and b in loops[n]:
                # bottom-tested loop turning on an unknown condition
                fr.gen[("n", n)] = fr.gen.get(("n", n), 0) + 1
                if fr.gen[("n", n)] > 64:
                    raise TooDeep(f.name + ": loop")
            prev, b = b, n

    def forget(self, fr, body):
        f = fr.f
        for b in body:
            for i in f.bl[b][1]:
                for n in f.walk(f.el[i][1]):
                    tgt = None
                    if n[0] == "b" and n[1].endswith("=") and n[1] not in ("==", "!=", "<=", ">="):
                        tgt = f.e(n[2])
                    elif n[0] == "u" and n[1] in ("++", "--", "p++", "p--"):
                        tgt = f.e(n[2])
                    elif n[0] == "c" and n[3] is not None and f.S[n[1]].split("(")[0].endswith(
                            ("operator++", "operator--", "operator+=", "operator=")):
                        tgt = f.e(n[3])
                    if tgt is not None and tgt[0] == "v":
                        l = fr.bind.get(tgt[1], (("v", fr.id, tgt[1]),))
                        old = self.store.get(l)
                        if isinstance(old, Ptr) and old.loc[-1][0] == "x":
                            self.store[l] = Ptr(old.loc[:-1] + (("x", self.fresh("turn")),), old.rev)
                        else:
                            self.store[l] = self.fresh("turn")

    def switch(self, f, b, v):
        dflt = None
        for s in f.bl[b][3]:
            if s is None:
                continue
            lab = f.bl[s][4]
            if lab is None:
                dflt = dflt if dflt is not None else s
            elif lab[0] == "default":
                dflt = s
        c = v.c
        cases = []
        for s in f.bl[b][3]:
            if s is None:
                continue
            lab = f.bl[s][4]
            if lab is not None and lab[0] == "case" and lab[1] is not None:
                if c is not None and int(lab[1]) <= c <= int(lab[2]):
                    return s
                cases.append((int(lab[1]), int(lab[2]), s))
        if c is not None:
            return dflt
        for lo, hi, s in cases:
            a = R.atom(("cmp", "==", v, R.const(lo)))
            if self.branch(a):
                return s
        return dflt

    def elements(self, fr, els, depth):
        f = fr.f
        for i in els:
            e = f.el[i][1]
            fr.elv[i] = self.ev(fr, e, depth)

    # ------------------------------------------------------------------ expressions
    def ty(self, fr, i):
        return fr.f.S[i] if isinstance(i, int) else ""

    def ev(self, fr, e, depth):
        if e is None:
            return ZERO
        t = e[0]
        if t == "r":
            v = fr.elv.get(e[1])
            if v is None:
                return self.ev(fr, fr.f.el[e[1]][1], depth)
            return v
        m = getattr(self, "e_" + EV.get(t, t), None) if t.isidentifier() or t in EV else None
        if m is None:
            return self.fresh(t)
        return m(fr, e, depth)

    def e_i(self, fr, e, d):
        return R.const(e[1])

    def e_f(self, fr, e, d):
        return R.const(fval(e[1]))

    def e_e(self, fr, e, d):
        return R.const(e[2])

    def e_s(self, fr, e, d):
        return Str(e[1])

    def e_null(self, fr, e, d):
        return NULL

    def e_sz(self, fr, e, d):
        t = self.ty(fr, e[1])
        n = arr_len(t) or 1
        b = re.sub(r"\[\d+\]", "", t).replace("const ", "").strip()
        s = SIZES.get(b)
        if s is None:
            return R.atom(("sizeof", b)) * R.const(n)
        return R.const(n * s)

    def e_this(self, fr, e, d):
        if fr.this is None:
            fr.this = (("this",),)
        return Ptr(fr.this)

    def e_v(self, fr, e, d):
        b = fr.bind.get(e[1])
        if b is not None:
            return LV(b)
        if fr.f.vkind(e[1]) == "s":
            return LV((("sv", fr.f.name, e[1]),))
        return LV((("v", fr.id, e[1]),))

    def e_g(self, fr, e, d):
        return LV((("g", fr.f.S[e[1]]),))

    def e_m(self, fr, e, d):
        b = self.ev(fr, e[1], d)
        if e[3]:
            base = self.deref(b)
        elif isinstance(b, LV):
            base = b.loc
        elif isinstance(b, Obj):
            base = b.loc
        else:
            base = self.deref(b)
        return LV(base + (("f", fr.f.S[e[2]].rsplit("::", 1)[-1]),))

    def e_x(self, fr, e, d):
        b = self.ev(fr, e[1], d)
        i = self.num(self.ev(fr, e[2], d))
        return LV(self.elem(b, i))

    def elem(self, b, i):
        if isinstance(b, LV):
            v = self.store.get(b.loc)
            if isinstance(v, Ptr):
                return v.move(i).target()
            if v is None:
                g = self.P.V.get(b.loc[0][1]) if b.loc[0][0] == "g" else None
                if g is not None or self.is_array(b.loc):
                    return b.loc + (("x", i),)
                v = self.read(b.loc)
                if isinstance(v, R) and v.the_atom and v.the_atom[0] == "in":
                    # an array member or a pointer member: both designate a sequence of its own
                    return b.loc + (("x", i),)
            b = v
        b = self.rv(b)
        if isinstance(b, Ptr):
            return b.move(i).target()
        if isinstance(b, Obj):
            return b.loc + (("x", i),)
        l = self.deref(b)
        return l[:-1] + (("x", l[-1][1] + i),)

    def is_array(self, loc):
        if loc in self.arrays:
            return True
        n = len(loc)
        return any(len(l) > n and l[:n] == loc and l[n][0] == "x" for l in self.store)

    def decay(self, v):
        """value of an expression used as a pointer: an array gives the address of its first element"""
        if isinstance(v, LV):
            s = self.store.get(v.loc)
            if isinstance(s, (Ptr, R)):
                return s
            if v.loc[0][0] in ("v", "sv", "o", "g") and (self.is_array(v.loc) or v.loc[0][0] == "g"):
                return Ptr(v.loc + (("x", ZERO),))
            if s is None and v.loc[-1][0] in ("f", "x"):
                # a member read as a pointer: its own sequence
                return Ptr(v.loc + (("x", ZERO),))
            return self.rv(v)
        return v

    def e_u(self, fr, e, d):
        op = e[1]
        a = self.ev(fr, e[2], d)
        if op == "&":
            if isinstance(a, LV):
                return Ptr(a.loc)
            if isinstance(a, Obj):
                return Ptr(a.loc)
            if isinstance(a, Fun):
                return a
            return self.fresh("&")
        if op == "*":
            a = self.decay(a)
            if isinstance(a, Fun):
                return a
            return LV(self.deref(a))
        if op in ("++", "--", "p++", "p--"):
            old = self.rv(a)
            k = R.const(1 if "+" in op else -1)
            new = old.move(k) if isinstance(old, Ptr) else self.num(old) + k
            if isinstance(a, LV):
                self.write(a.loc, new)
            return old if op[0] == "p" else (a if isinstance(a, LV) else new)
        if op == "!":
            t = self.truth(a)
            if t is not None:
                return R.const(0 if t else 1)
            return R.atom(("not", self.num(a)))
        if op == "-":
            return -self.num(a)
        if op == "+":
            return self.num(a)
        if op == "~":
            c = self.num(a).c
            return R.const(~int(c)) if c is not None else self.fresh("~")
        return self.fresh("u" + op)

    def e_cast(self, fr, e, d):
        kind = e[2]
        a = self.ev(fr, e[4], d)
        if kind == "BitCast" and isinstance(a, Ptr):
            n = self.store.get(a.loc + (("f", "#bytes"),))
            w = SIZES.get(self.ty(fr, e[3]).replace("const ", "").rstrip("* ")) if isinstance(n, R) else None
            if w:
                self.store[a.loc + (("f", "#size"),)] = n / R.const(w)
                return Ptr(a.loc + (("x", ZERO),))
        if kind in ("DerivedToBase", "BaseToDerived", "UncheckedDerivedToBase", "NoOp", "BitCast", "Dynamic",
                    "LValueBitCast", "ToVoid"):
            return a
        if kind in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean"):
            t = self.truth(self.decay(a) if kind[0] == "P" else a)
            return R.const(1 if t else 0) if t is not None else self.num(a)
        if kind == "FloatingToIntegral":
            n = self.num(a)
            c = n.c
            if c is not None:
                return R.const(int(c))
            return R.atom(("trunc", n))
        if kind == "IntegralCast":
            n = self.rv(a)
            if isinstance(n, R) and n.c is not None and n.c < 0:
                t = self.ty(fr, e[3])
                if t.startswith("unsigned") or "size_t" in t:
                    w = 64 if "long" in t or "size_t" in t else 32 if "int" in t else 8 if "char" in t else 16
                    return R.const(int(n.c) % (1 << w))
            return n
        if kind in ("IntegralToFloating", "FloatingCast", "ConstructorConversion", "UserDefinedConversion",
                    "IntegralToPointer", "PointerToIntegral", "ArrayToPointerDecay", "LValueToRValue", "DerivedToBase"):
            return self.decay(a) if kind == "ArrayToPointerDecay" else self.rv(a)
        return self.rv(a)

    def e_cond(self, fr, e, d):
        c = self.ev(fr, e[1], d)
        t = self.truth(c)
        if t is None:
            t = self.branch(c)
        return self.ev(fr, e[2] if t else e[3], d)

    def e_il(self, fr, e, d):
        return Agg([self.rvc(self.ev(fr, x, d)) for x in e[1]])

    def rvc(self, v):
        if isinstance(v, (LV, Obj)):
            v2 = self.rv(v)
            return v2
        return v

    def e_decl(self, fr, e, d):
        f = fr.f
        for v, ini in e[1:]:
            t = f.vtype(v)
            place = (("sv", f.name, v),) if f.vkind(v) == "s" else (("v", fr.id, v),)
            if is_ref(t) and ini is not None:
                a = self.ev(fr, ini, d)
                if isinstance(a, (LV, Obj)):
                    fr.bind[v] = a.loc
                    continue
                fr.bind.pop(v, None)
                self.write(place, self.rv(a))
                continue
            self.wipe(place)
            self.hv.pop(place, None)
            self.cls.pop(place, None)
            if t.endswith("]"):
                self.arrays.add(place)
            if ini is None:
                self.hv[place] = self.tick()
                n = arr_len(t) if t.endswith("]") else None
                if n is not None:
                    self.store[place + (("f", "#size"),)] = R.const(n)
                continue
            a = self.ev(fr, ini, d)
            if isinstance(a, Agg):
                n = arr_len(t)
                self.write(place, a)
                if n is not None:
                    for i in range(len(a.v), n):
                        self.store[place + (("x", R.const(i)),)] = ZERO
                    self.store[place + (("f", "#size"),)] = R.const(n)
                continue
            if "*" in t:
                a = self.decay(a)
            a = self.rv(a)
            if isinstance(a, Obj):
                self.copy(a.loc, place)
            elif a is not None:
                self.write(place, a)
        return ZERO

    def e_ret(self, fr, e, d):
        if e[1] is None:
            fr.ret = ZERO
            return ZERO
        v = self.ev(fr, e[1], d)
        rt = fr.f.rt
        if rt.rstrip().endswith("&"):
            fr.ret = v
        else:
            if "*" in rt:
                v = self.decay(v)
            v = self.rv(v)
            if isinstance(v, Obj):
                l = self.obj()
                self.copy(v.loc, l)
                v = Obj(l)
            elif isinstance(v, Agg):
                l = self.obj()
                self.write(l, v)
                v = Obj(l)
            fr.ret = v
        return ZERO

    def e_thr(self, fr, e, d):
        raise Thrown()

    def e_finit(self, fr, e, d):
        if fr.this is None:
            fr.this = (("this",),)
        l = fr.this + (("f", fr.f.S[e[1]].rsplit("::", 1)[-1]),)
        if e[2] is not None:
            v = self.rv(self.ev(fr, e[2], d))
            self.write(l, v)
        return ZERO

    def e_binit(self, fr, e, d):
        n = fr.f.e(e[2])
        if n is not None and n[0] == "k":
            if e[2][0] == "r":
                # already evaluated as an element of its own: into a temporary; evaluate into this
                pass
            self.construct(fr, n, d, fr.this)
        return ZERO

    def e_b(self, fr, e, d):
        op = e[1]
        if op in ("&&", "||"):
            a = self.truth(self.ev(fr, e[2], d))
            if a is None:
                a = self.branch(self.ev(fr, e[2], d))
            if (op == "&&") != a:
                return R.const(1 if a else 0)
            b = self.ev(fr, e[3], d)
            t = self.truth(b)
            return R.const(1 if t else 0) if t is not None else self.num(b)
        if op == ",":
            self.ev(fr, e[2], d)
            return self.ev(fr, e[3], d)
        if op == "=":
            r = self.ev(fr, e[3], d)
            l = self.ev(fr, e[2], d)
            if "*" in self.ty(fr, e[4]):
                r = self.decay(r)
            v = self.rv(r)
            if isinstance(l, LV):
                self.write(l.loc, v)
                return l
            return v
        if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
            l = self.ev(fr, e[2], d)
            r = self.ev(fr, e[3], d)
            v = self.arith(op[:-1], self.rv(l), self.rv(r), self.ty(fr, e[4]))
            if isinstance(l, LV):
                self.write(l.loc, v)
                return l
            return v
        a = self.decay2(self.ev(fr, e[2], d))
        b = self.decay2(self.ev(fr, e[3], d))
        return self.arith(op, a, b, self.ty(fr, e[4]))

    def decay2(self, v):
        if isinstance(v, LV):
            if v.loc[0][0] == "g" and v.loc not in self.store:
                g = self.P.V.get(v.loc[0][1])
                if g is not None and "[" in g[0] and len(v.loc) == 1:
                    return Ptr(v.loc + (("x", ZERO),))
            s = self.store.get(v.loc)
            if s is None and self.is_array(v.loc):
                return Ptr(v.loc + (("x", ZERO),))
        return self.rv(v)

    def arith(self, op, a, b, t):
        if isinstance(a, (Obj,)) or isinstance(b, (Obj,)):
            a, b = self.as_ptr(a) if isinstance(a, Obj) else a, self.as_ptr(b) if isinstance(b, Obj) else b
        if isinstance(a, Str) or isinstance(b, Str):
            if isinstance(a, Str) and isinstance(b, Str) and op in ("==", "!="):
                return R.const(int((a.s == b.s) == (op == "==")))
            return self.fresh("str")
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == "+":
                return a.move(self.num(b)) if isinstance(a, Ptr) else b.move(self.num(a))
            if op == "-" and not isinstance(b, Ptr):
                return a.move(-self.num(b))
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.loc[:-1] == b.loc[:-1] and a.loc[-1][0] == "x" == b.loc[-1][0]:
                    df = a.loc[-1][1] - b.loc[-1][1]
                    if a.rev:
                        df = -df
                    if op == "-":
                        return df
                    return self.compare(op, df, ZERO)
                if op in ("==", "!="):
                    if a == b:
                        return R.const(1 if op == "==" else 0)
                    if NULL in (a, b) or a.loc[0] != b.loc[0]:
                        return R.const(0 if op == "==" else 1)
            if op in ("==", "!="):
                p, q = (a, b) if isinstance(a, Ptr) else (b, a)
                if isinstance(q, R) and q.c == 0:
                    return R.const(int((p.loc == NULL.loc) == (op == "==")))
            return self.fresh("ptr" + op)
        a, b = self.num(a), self.num(b)
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op in ("/", "%"):
            if is_float(t):
                if b.c == 0:
                    return R.atom(("div0",))
                return a / b
            x, y = a.c, b.c
            if x is not None and y:
                q = abs(int(x)) // abs(int(y))
                if (x < 0) != (y < 0):
                    q = -q
                return R.const(q if op == "/" else int(x) - q * int(y))
            if op == "/" and b.num:
                q = (a / b).c
                if q is not None and q.denominator == 1:
                    return R.const(q)
            return R.atom((op, a, b))
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return self.compare(op, a, b)
        x, y = a.c, b.c
        if x is not None and y is not None and x.denominator == 1 and y.denominator == 1:
            x, y = int(x), int(y)
            if op == "<<":
                return R.const(x << y)
            if op == ">>":
                return R.const(x >> y)
            if op == "&":
                return R.const(x & y)
            if op == "|":
                return R.const(x | y)
            if op == "^":
                return R.const(x ^ y)
        return self.fresh("b" + op)

    def compare(self, op, a, b):
        df = a - b
        c = df.c
        if c is not None:
            r = {"==": c == 0, "!=": c != 0, "<": c < 0, ">": c > 0, "<=": c <= 0, ">=": c >= 0}[op]
            return R.const(1 if r else 0)
        # canonical: == and < only
        if op == "!=":
            return R.atom(("not", self.compare("==", a, b)))
        if op == ">":
            return self.compare("<", b, a)
        if op == ">=":
            return R.atom(("not", self.compare("<", a, b)))
        if op == "<=":
            return R.atom(("not", self.compare("<", b, a)))
        if op == "==":
            k = max(df.num)
            df = R({m: v / df.num[k] for m, v in df.num.items()}, df.den)
            return R.atom(("cmp", "==", df, ZERO))
        return R.atom(("cmp", "<", df, ZERO))

    # ------------------------------------------------------------------ calls
    def e_new(self, fr, e, d):
        t = self.ty(fr, e[1])
        l = self.obj(strip(t))
        if e[2]:
            n = self.rv(self.ev(fr, e[4], d)) if len(e) > 4 and e[4] is not None else None
            if isinstance(n, R) and n.c is not None:
                self.store[l + (("f", "#size"),)] = n
            return Ptr(l + (("x", ZERO),))
        n = fr.f.e(e[3]) if e[3] is not None else None
        if n is not None and n[0] == "k":
            self.construct(fr, n, d, l)
        return Ptr(l)

    def e_lam(self, fr, e, d):
        cap = {}
        for c in e[2] or ():
            if c and c[0] == "cap" and isinstance(c[1], int) and c[1] >= 0:
                v = self.e_v(fr, ["v", c[1]], d)
                cap[fr.f.vname(c[1])] = v.loc
        return Lam(fr.f.S[e[1]], (cap, fr.this))

    def call_lam(self, l, args, d):
        g = self.find(l.name)
        if g is None:
            return None
        n = len(g.params)
        r = self.call(g, list(args) + [None] * n, l.cap[1], d + 1, cap=l.cap[0])
        return ZERO if r is None else r

    def invoke(self, g, args, d):
        return g.call(self, args) if isinstance(g, Bound) else self.call_lam(g, args, d)

    def e_fn(self, fr, e, d):
        return Fun(fr.f.S[e[1]])

    def e_cp(self, fr, e, d):
        g = self.rv(self.ev(fr, e[1], d))
        args = [self.ev(fr, a, d) for a in e[2]]
        if isinstance(g, Fun):
            f = self.find(g.name)
            if any(o in g.name for o in self.opaque):
                return R.atom(("call", g.name.split("(")[0], self.tick()))
            if f is not None:
                r = self.call(f, args, None, d + 1)
                return ZERO if r is None else r
            return self.unknown(g.name, self.P.D.get(g.name), None, args)
        return self.unknown("?", None, None, args)

    def e_del(self, fr, e, d):
        if e[1]:
            self.give_back(self.rv(self.ev(fr, e[2], d)))
        return ZERO

    def give_back(self, p):
        """free or delete [] of p"""
        if isinstance(p, Ptr) and p.loc[-1][0] == "x" and p.loc[-1][1].c == 0:
            p = Ptr(p.loc[:-1])
        if isinstance(p, Ptr) and (p.loc + (("f", "#size"),) in self.store or p.loc + (("f", "#bytes"),) in self.store):
            self.freed.add(p.loc)

    def e_k(self, fr, e, d):
        l = self.obj(strip(self.ty(fr, e[3])))
        r = self.construct(fr, e, d, l)
        return r if r is not None else Obj(l)

    def construct(self, fr, e, d, l):
        name = fr.f.S[e[1]]
        f = self.find(name)
        args = [self.ev(fr, a, d) for a in e[2]]
        D = self.P.D.get(name)
        t = strip(self.ty(fr, e[3]))
        h = self.hooks.get(name.split("(")[0])
        if h is not None and h(self, args, l):
            return None
        if not t.startswith(("std::", "__gnu_cxx::")):
            if f is not None and not any(o in name for o in self.opaque):
                self.call(f, args, l, d + 1)
                return None
            if len(args) == 1 and isinstance(args[0], (LV, Obj)) and D is not None and (D.cctor or D.impl):
                self.copy(args[0].loc, l)
                return None
            if not args:
                return None
            self.havoc(l)
            return None
        m = re.match(r"(std::.*)\[(\d+)\]$", t)
        if m and not args:
            for i in range(int(m.group(2))):
                self.std_ctor(m.group(1), args, l + (("x", R.const(i)),))
            return None
        return self.std_ctor(t, args, l)

    def std_ctor(self, t, args, l):
        m = re.match(r"(?:const )?std::(plus|minus|multiplies|divides|negate)<(.*)>$", t)
        if m and not args:
            if m.group(1) == "negate":
                return Bound(lambda I, V: -I.num(V[0]))
            ty = "double" if m.group(2) in ("void", "") else m.group(2)
            return Bound(lambda I, V: I.arith(OPS[m.group(1)], I.num(V[0]), I.num(V[1]), ty))
        m = re.match(r"(?:const )?std::(less|greater|less_equal|greater_equal|equal_to|not_equal_to)<(.*)>$", t)
        if m and not args and re.match(r"(|void|double|float|int|long|unsigned \w+|(std::)?size_t|mcIdType)$", m.group(2)):
            op = {"less": "<", "greater": ">", "less_equal": "<=", "greater_equal": ">=", "equal_to": "==", "not_equal_to": "!="}[m.group(1)]
            return Bound(lambda I, V: I.compare(op, I.num(V[0]), I.num(V[1])))
        if t.startswith("std::function<") and len(args) == 1 and isinstance(self.rv(args[0]), (Lam, Fun)):
            return self.rv(args[0])
        if ("vector<" in t or re.match(r"(const )?(std::(__cxx11::)?)?(list|deque)<", t)) and not t.endswith(("iterator", ">::const_iterator")) and "__normal_iterator" not in t and \
                "reverse_iterator" not in t[:30]:
            real = [a for a in args if not (isinstance(a, Obj) and "allocator" in self.cls.get(a.loc, ""))]
            size = ("f", "#size")
            if not real:
                self.store[l + (size,)] = ZERO
                return None
            a0 = self.rv(real[0])
            if isinstance(a0, Agg):
                self.write(l, a0)
                return None
            if len(real) == 1 and (isinstance(real[0], (Obj,)) or (isinstance(real[0], LV) and isinstance(a0, Obj))):
                self.copy(real[0].loc, l)
                return None
            if len(real) >= 2 and (isinstance(self.decay2(real[0]), Ptr)):
                a, b = self.decay2(real[0]), self.decay2(real[1])
                n = self.dist(a, b)
                if n is not None:
                    for i in range(n):
                        self.store[l + (("x", R.const(i)),)] = self.read(a.move(R.const(i)).target())
                    self.store[l + (size,)] = R.const(n)
                    return None
                self.havoc(l)
                return None
            if isinstance(a0, R):
                if a0.the_atom and a0.the_atom[0] == "in" and isinstance(real[0], LV) and len(real) == 1 and \
                        False:
                    self.copy(real[0].loc, l)
                    return None
                self.store[l + (size,)] = a0
                if a0.c is not None and a0.c < 4096:
                    v = self.rv(real[1]) if len(real) > 1 else ZERO
                    for i in range(int(a0.c)):
                        if len(real) == 1 and NESTED.match(t):
                            self.store[l + (("x", R.const(i)), size)] = ZERO
                            continue
                        self.write(l + (("x", R.const(i)),), v)
                return None
            self.havoc(l)
            return None
        if TREE.match(t) and "iterator" not in t:
            real = [a for a in args if not (isinstance(a, Obj) and ("allocator" in self.cls.get(a.loc, "") or "less" in self.cls.get(a.loc, "")))]
            if not real:
                self.store[l + (("f", "#size"),)] = ZERO
                return None
            if len(real) == 1 and isinstance(real[0], (Obj, LV)) and real[0].loc + (("f", "#size"),) in self.store:
                self.copy(real[0].loc, l)
                return None
            if len(real) >= 2:
                a, b = self.decay2(real[0]), self.decay2(real[1])
                if self.dist(a, b) is not None:
                    self.store[l + (("f", "#size"),)] = ZERO
                    if self.tree("insert", t, l, real[:2]) is not None:
                        return None
            self.havoc(l)
            return None
        if "iterator" in t and args:
            a = self.rv(args[0])
            if isinstance(a, Ptr):
                return Ptr(a.loc, a.rev or t.startswith("std::reverse_iterator") and not a.rev)
            return a
        if "initializer_list" in t and args:
            return self.rv(args[0])
        if "pair<" in t and len(args) == 2:
            self.write(l + (("f", "first"),), self.rv(args[0]))
            self.write(l + (("f", "second"),), self.rv(args[1]))
            return None
        if len(args) == 1 and isinstance(self.rv(args[0]), Str):
            return self.rv(args[0])
        if len(args) == 1 and isinstance(args[0], (Obj, LV)):
            v = self.rv(args[0])
            if isinstance(v, Obj):
                self.copy(v.loc, l)
                return None
            return v
        self.havoc(l)
        return None

    def dist(self, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.loc[:-1] == b.loc[:-1] and a.loc[-1][0] == "x" == b.loc[-1][0]:
            c = (b.loc[-1][1] - a.loc[-1][1]).c
            if c is not None:
                c = int(-c if a.rev else c)
                return c if 0 <= c < 4096 else None
        return None

    def resolve(self, fr, n, recv):
        """the body a virtual call reaches when the class of the object is known"""
        name = fr.f.S[n[1]]
        D = self.P.D.get(name)
        if D is not None and D.virt and not n[4] and recv is not None:
            c = self.cls.get(recv)
            if c:
                key = (D.nm, [p[1] for p in D.params])
                for k in [c] + list(self.P.all_bases(c)):
                    for g in self.methods(k):
                        if g.nm == key[0] and [p[1] for p in g.params] == key[1] and g.const == D.const:
                            return g.name
        return name

    def methods(self, c):
        a = self.P.__dict__.setdefault("_meths", None)
        if a is None:
            a = {}
            for f in self.P.F.values():
                if f.cls:
                    a.setdefault(f.cls, []).append(f)
            self.P._meths = a
        return a.get(c, [])

    def e_c(self, fr, e, d):
        f = fr.f
        name = f.S[e[1]]
        recv = None
        rl = None
        if e[3] is not None:
            recv = self.ev(fr, e[3], d)
            if isinstance(recv, LV):
                v = self.store.get(recv.loc)
                rl = recv.loc
                if isinstance(v, Ptr):
                    D = self.P.D.get(name)
                    if D is None or not (D.cls or "").startswith(("std::", "__gnu")) or True:
                        st = f.S[e[5]] if e[5] is not None else ""
                        if not st.startswith(("std::", "__gnu")) or "vector" in st and "iterator" not in st:
                            rl = v.target()
                elif isinstance(v, R) and v.c is None:
                    at = v.the_atom
                    if at is not None and at[0] in ("in", "p") and recv.loc[0][0] == "v":
                        rl = (("*", at),)
            elif isinstance(recv, (Ptr, Obj)):
                rl = recv.target() if isinstance(recv, Ptr) else recv.loc
            else:
                rl = self.deref(recv)[:-1]
        args = [self.ev(fr, a, d) for a in e[2]]
        if name.startswith(("std::", "__gnu_cxx::")) or name.split("(")[0] in LIBC:
            return self.std(fr, e, name, recv, rl, args, d)
        real = self.resolve(fr, e, rl)
        if self.meth is not None:
            r = self.meth(self, real, rl, args)
            if r is not None:
                return r
        h = self.hooks.get(real.split("(")[0])
        if h is not None:
            r = h(self, args)
            if r is not None:
                return r
        if any(o in real for o in self.opaque):
            return R.atom(("call", real.split("(")[0], self.tick()))
        g = self.find(real)
        base = name.split("(")[0].rsplit("::", 1)[-1]
        if g is not None:
            lam = self.rv(recv) if isinstance(recv, (LV, Lam)) else None
            if isinstance(lam, Lam) and lam.name == real:
                return self.call_lam(lam, args, d)
            r = self.call(g, args, rl, d + 1)
            if r is None:
                r = ZERO
            return r
        D = self.P.D.get(name)
        if base == "operator=" and rl is not None and len(args) == 1 and isinstance(args[0], (LV, Obj)):
            self.copy(args[0].loc, rl)
            return LV(rl)
        return self.unknown(name, D, rl, args)

    def unknown(self, name, D, rl, args):
        ps = [p[1] for p in D.params] if D is not None else signature(name) if name.startswith("std::") else []
        for k, a in enumerate(args):
            t = ps[k] if k < len(ps) else "?"
            if "iterator<" in t and "const_iterator" not in t and D is None and isinstance(self.rv(a), Ptr) and "<const" not in t and " const*" not in t:
                self.havoc(self.rv(a).loc[:-1])
                continue
            if D is None and t.endswith("&&"):
                continue
            if t.endswith("&") and not t.startswith("const ") or "*" in t and not t.startswith("const "):
                if isinstance(a, LV):
                    v = self.store.get(a.loc)
                    if isinstance(v, Ptr) and not t.endswith("&"):
                        self.havoc(v.loc[:-1] if v.loc[-1][0] == "x" else v.loc)
                    else:
                        self.havoc(a.loc)
                elif isinstance(a, Ptr):
                    self.havoc(a.loc[:-1] if a.loc[-1][0] == "x" else a.loc)
        if rl is not None and D is not None and not D.const and not D.static:
            self.havoc(rl)
        return R.atom(("call", name, self.tick()))

    def std(self, fr, e, name, recv, rl, args, d):
        head = plain(name.split("(")[0])
        if "(lambda" in name and re.match(r"std::\w+<", name):
            head = name.split("<")[0]
        base = head.rsplit("::", 1)[-1]
        if name.startswith("std::_Bit_reference::") and rl is not None:
            if "operator=" in name:
                v = self.num(args[0])
                self.write(rl, v if v.c is None else R.const(int(v.c != 0)))
                return LV(rl)
            if "operator bool" in name:
                return self.num(self.read(rl))
            if "::flip" in name:
                self.write(rl, self.compare("==", self.num(self.read(rl)), ZERO))
                return ZERO
        if "operator" in name and "(lambda" not in name:
            m = re.search(r"(operator\s*(?:\[\]|\(\)|->|<<|>>|[^\w\s(]+|\w+))(?:<.*>)?\(", name)
            if m:
                base = m.group(1)
        st = fr.f.S[e[5]] if e[3] is not None and e[5] is not None else ""
        iterish = "iterator" in st
        A = args
        if e[3] is None and base in ("begin", "cbegin", "end", "cend", "size") and len(A) == 1:
            m = re.search(r"\(&\)\s*\[(\d+)\]", name)
            l = A[0].loc if isinstance(A[0], (LV, Obj)) else None
            if l is not None:
                n = R.const(int(m.group(1))) if m else self.read(l + (("f", "#size"),))
                if base == "size":
                    return n
                return Ptr(l + (("x", n if base.endswith("end") else ZERO),))
        if e[3] is None and base.startswith("operator") and A:
            # free operator on iterators
            if base in ("operator!=", "operator==", "operator-", "operator+", "operator<", "operator<=", "operator>"):
                if len(A) == 2:
                    return self.arith(base[8:], self.rv(A[0]), self.rv(A[1]), "long")
            return self.fresh(base)
        if iterish:
            p = self.rv(recv)
            if base in ("operator*", "operator->"):
                if isinstance(p, Ptr):
                    return LV(p.target()) if base == "operator*" else Ptr(p.target())
                return LV(self.deref(p))
            if base in ("operator++", "operator--"):
                k = R.const(1 if base.endswith("++") else -1)
                new = p.move(k) if isinstance(p, Ptr) else self.fresh("it")
                if isinstance(recv, LV):
                    self.store[recv.loc] = new
                return p if A else (recv if isinstance(recv, LV) else new)
            if base in ("operator+", "operator-") and len(A) == 1:
                b = self.rv(A[0])
                return self.arith(base[-1], p, b, "long")
            if base in ("operator+=", "operator-="):
                new = self.arith(base[8], p, self.rv(A[0]), "long")
                if isinstance(recv, LV):
                    self.store[recv.loc] = new
                return recv
            if base == "operator=":
                if isinstance(recv, LV):
                    self.store[recv.loc] = self.rv(A[0])
                return recv
            if base == "operator[]":
                if isinstance(p, Ptr):
                    return LV(p.move(self.num(A[0])).target())
            if base == "base":
                if isinstance(p, Ptr):
                    return Ptr(p.loc)
            return self.fresh(base)
        SIZE = ("f", "#size")
        if e[3] is not None and ("vector<" in st or "array<" in st or "initializer_list" in st or
                                 re.match(r"(const )?(std::(__cxx11::)?)?(list|deque)<", st)):
            if base in ("operator[]", "at"):
                return LV(rl + (("x", self.num(A[0])),))
            if base in ("data", "begin", "cbegin"):
                return Ptr(rl + (("x", ZERO),))
            if base in ("end", "cend"):
                return Ptr(rl + (("x", self.read(rl + (SIZE,))),))
            if base in ("rbegin", "crbegin"):
                return Ptr(rl + (("x", self.read(rl + (SIZE,))),), True)
            if base in ("rend", "crend"):
                return Ptr(rl + (("x", ZERO),), True)
            if base == "size":
                return self.read(rl + (SIZE,))
            if base == "empty":
                return self.compare("==", self.read(rl + (SIZE,)), ZERO)
            if base == "front":
                return LV(rl + (("x", ZERO),))
            if base == "back":
                return LV(rl + (("x", self.read(rl + (SIZE,)) - R1),))
            if base in ("push_back", "emplace_back"):
                n = self.read(rl + (SIZE,))
                v = self.rv(A[0])
                self.store[rl + (SIZE,)] = n + R1
                self.write(rl + (("x", n),), v)
                return ZERO
            if base == "resize":
                n = self.num(A[0])
                old = self.store.get(rl + (SIZE,))
                self.store[rl + (SIZE,)] = n
                if old is not None and old.c is not None and n.c is not None and n.c < 4096:
                    for i in range(int(old.c), int(n.c)):
                        if len(A) == 1 and NESTED.match(st):
                            self.store[rl + (("x", R.const(i)), SIZE)] = ZERO
                            continue
                        self.write(rl + (("x", R.const(i)),), self.rv(A[1]) if len(A) > 1 else ZERO)
                return ZERO
            if base == "reserve":
                return ZERO
            if base == "clear":
                self.wipe(rl)
                self.store[rl + (SIZE,)] = ZERO
                return ZERO
            if base == "operator=":
                if isinstance(A[0], (LV, Obj)):
                    self.copy(A[0].loc, rl)
                else:
                    v = self.rv(A[0])
                    if isinstance(v, Agg):
                        self.write(rl, v)
                    else:
                        self.havoc(rl)
                return LV(rl)
            if base == "insert" and len(A) == 3:
                at, a, b = (self.decay2(x) for x in A)
                n = self.dist(a, b)
                size = self.read(rl + (SIZE,))
                if n is not None and isinstance(at, Ptr) and at.loc == rl + (("x", size),):
                    vals = [self.read(a.move(R.const(i)).target()) for i in range(n)]
                    self.store[rl + (SIZE,)] = size + R.const(n)
                    for i, v in enumerate(vals):
                        self.write(rl + (("x", size + R.const(i)),), v)
                else:
                    self.havoc(rl)
                return at
            if base == "assign" and len(A) == 2:
                a, b = self.decay2(A[0]), self.decay2(A[1])
                n = self.dist(a, b)
                if n is not None:
                    vals = [self.read(a.move(R.const(i)).target()) for i in range(n)]
                    self.write(rl, Agg(vals))
                else:
                    self.havoc(rl)
                return ZERO
        if e[3] is not None and rl is not None and TREE.match(st):
            r = self.tree(base, st, rl, A)
            if r is not None:
                return r
        if base in ("move", "forward", "as_const") and len(A) == 1:
            return A[0]
        if base == "malloc" or base == "calloc":
            l = self.obj("")
            self.store[l + (("f", "#bytes"),)] = self.num(A[0]) if base == "malloc" else self.num(A[0]) * self.num(A[1])
            return Ptr(l)
        if base == "free":
            self.give_back(self.rv(A[0]))
            return ZERO
        if base in ("min", "max") and len(A) == 2 and e[3] is None:
            a, b = self.num(A[0]), self.num(A[1])
            c = (a - b).c
            if c is not None:
                return a if (c <= 0) == (base == "min") else b
            if SIGN is not None:
                return a if (SIGN(a - b) <= 0) == (base == "min") else b
            return R.atom((base, min(a, b, key=R.key), max(a, b, key=R.key)))
        if base in ("max", "min", "epsilon", "lowest") and not A:
            return R.atom(("limit", name.split("(")[0]))
        if base in ("fabs", "abs") and len(A) == 1:
            a = self.num(A[0])
            if a.c is not None:
                return R.const(abs(a.c))
            if SIGN is not None:
                return a if SIGN(a) >= 0 else -a
            return R.atom(("abs", a if sorted(a.num.items())[-1][1] > 0 else -a))
        if base == "sqrt":
            a = self.num(A[0])
            c = a.c
            if SIGN is not None:
                return root(a)
            if c is not None and c >= 0:
                n, m = isqrt(c.numerator), isqrt(c.denominator)
                if n * n == c.numerator and m * m == c.denominator:
                    return R.const(Fraction(n, m))
                return R.const(Fraction(float(c) ** 0.5))
            return R.atom(("sqrt", a))
        if base in PURE and e[3] is None:
            v = [self.num(a) for a in A]
            if base in ("atan2",) or v[0].c != 0:
                return R.atom(("fun", base) + tuple(v))
            return R.const({"cos": 1, "cosh": 1, "exp": 1}.get(base, 0)) if base not in ("acos", "log", "log10") else R.atom(("fun", base) + tuple(v))
        if base == "pow" and len(A) == 2:
            a, b = self.num(A[0]), self.num(A[1])
            if b.c is not None and b.c.denominator == 1 and 0 <= b.c <= 16:
                r = R1
                for _ in range(int(b.c)):
                    r = r * a
                return r
            return R.atom(("pow", a, b))
        if base == "swap" and len(A) == 2 and e[3] is None:
            a, b = A
            if isinstance(a, LV) and isinstance(b, LV):
                x, y = self.rv(a), self.rv(b)
                if not isinstance(x, Obj) and not isinstance(y, Obj):
                    self.write(a.loc, y)
                    self.write(b.loc, x)
                    return ZERO
        if base == "iter_swap" and len(A) == 2:
            p, q = self.decay2(A[0]), self.decay2(A[1])
            if isinstance(p, Ptr) and isinstance(q, Ptr):
                x, y = self.read(p.target()), self.read(q.target())
                self.write(p.target(), y)
                self.write(q.target(), x)
                return ZERO
        if base in ("reverse", "copy", "copy_n", "fill", "fill_n", "find", "distance", "rotate", "swap_ranges",
                    "reverse_copy", "copy_backward", "count", "next", "prev", "advance", "transform", "iota", "accumulate",
                    "inner_product", "partial_sum", "adjacent_difference") and A:
            r = self.algo(base, A)
            if r is not None:
                return r
        if base in COMPARING and len(A) >= 2:
            r = self.comparing(base, A, d)
            if r is not None:
                return r
        if base in ("find_if", "find_if_not", "any_of", "all_of", "none_of", "for_each") and len(A) == 3 and isinstance(A[2], (Lam, Bound)):
            V = [self.decay2(a) for a in A[:2]]
            n = self.dist(V[0], V[1])
            if n is not None and n < 64:
                for i in range(n):
                    q = V[0].move(R.const(i))
                    r = self.invoke(A[2], [LV(q.target())], d)
                    if r is None:
                        return self.fresh(base)
                    if base == "for_each":
                        continue
                    t = self.branch(r)
                    if base in ("find_if", "find_if_not"):
                        if t == (base == "find_if"):
                            return q
                    elif t == (base != "all_of"):
                        return R.const(1 if base == "any_of" else 0)
                return V[1] if base.startswith("find") else R.const(0 if base == "any_of" else 1)
        if base == "bind" and A:
            g = self.rv(A[0])
            if isinstance(g, (Lam, Bound)):
                bound = []
                for a in A[1:]:
                    q = re.match(r"std::placeholders::_(\d)$", a.loc[0][1]) if isinstance(a, LV) and a.loc[0][0] == "g" else None
                    bound.append(int(q.group(1)) - 1 if q else (self.rv(a),))
                return Bound(lambda I, V: I.invoke(g, [V[b] if isinstance(b, int) else b[0] for b in bound], d))
        if base == "transform" and isinstance(self.rv(A[-1]), (Lam, Bound)) and len(A) in (4, 5):
            g = self.rv(A[-1])
            V = [self.decay2(a) for a in A[:-1]]
            n = self.dist(V[0], V[1])
            if n is not None and isinstance(V[-1], Ptr) and all(isinstance(v, Ptr) for v in V[2:]):
                for i in range(n):
                    k = R.const(i)
                    r = self.invoke(g, [LV(v.move(k).target()) for v in [V[0]] + V[2:-1]], d)
                    if r is None:
                        return self.fresh(base)
                    self.write(V[-1].move(k).target(), self.rv(r))
                return V[-1].move(R.const(n))
        if base == "make_pair" and len(A) == 2:
            l = self.obj("std::pair")
            self.write(l + (("f", "first"),), self.rv(A[0]))
            self.write(l + (("f", "second"),), self.rv(A[1]))
            return Obj(l)
        if base == "operator()" and isinstance(recv, (LV, Lam)) and isinstance(self.rv(recv), Lam):
            r = self.call_lam(self.rv(recv), args, d)
            if r is not None:
                return r
        D = self.P.D.get(name)
        return self.unknown(name, D, rl if recv is not None else None, args)

    def tree(self, base, st, rl, A):
        """sets and maps: their elements in increasing order of keys, which have to be known numbers"""
        SIZE = rl + (("f", "#size"),)
        ismap = "map<" in st[:20]
        n = self.store.get(SIZE)
        if n is None or n.c is None:
            return None
        n = int(n.c)
        at = lambda i: rl + (("x", R.const(i)),)
        key = lambda i: self.read(at(i) + (("f", "first"),) if ismap else at(i)).c

        def place(k):
            """index of the first key not below k; whether it is k"""
            if k is None:
                raise TooDeep("unknown key in %s" % st[:40])
            ks = [key(i) for i in range(n)]
            if None in ks:
                raise TooDeep("unknown key in %s" % st[:40])
            i = sum(x < k for x in ks)
            return i, i < n and ks[i] == k

        def move(lo, by):
            m = len(rl)
            new = {}
            for l in [l for l in self.store if len(l) > m and l[:m] == rl and l[m][0] == "x" and l[m][1].c is not None]:
                i = int(l[m][1].c)
                if i >= lo:
                    new[at(i + by) + l[m + 1:]] = self.store.pop(l)
            self.store.update(new)

        def add(k):
            i, there = place(k)
            if not there:
                move(i, 1)
                self.store[SIZE] = R.const(n + 1)
                self.store[at(i) + (("f", "first"),) if ismap else at(i)] = R.const(k)
            return i, not there

        if base in ("begin", "cbegin"):
            return Ptr(at(0))
        if base in ("end", "cend"):
            return Ptr(at(n))
        if base in ("rbegin", "crbegin"):
            return Ptr(at(n), True)
        if base in ("rend", "crend"):
            return Ptr(at(0), True)
        if base == "size":
            return R.const(n)
        if base == "empty":
            return R.const(int(n == 0))
        if base == "clear":
            self.wipe(rl)
            self.store[SIZE] = ZERO
            return ZERO
        if base == "operator=" and isinstance(A[0], (LV, Obj)):
            self.copy(A[0].loc, rl)
            return LV(rl)
        if base in ("find", "count", "lower_bound", "upper_bound"):
            i, there = place(self.num(A[0]).c)
            if base == "count":
                return R.const(int(there))
            if base == "find":
                return Ptr(at(i if there else n))
            return Ptr(at(i + (base == "upper_bound" and there)))
        if base in ("operator[]", "at") and ismap:
            k = self.num(A[0]).c
            i, there = place(k)
            if not there:
                if base == "at":
                    raise Thrown()
                add(k)
                v = at(i) + (("f", "second"),)
                t = st[st.index("<") + 1:]
                d = 0
                for j, c in enumerate(t):
                    d += (c in "<(") - (c in ">)")
                    if c == "," and d == 0:
                        t = t[j + 1:].strip()
                        break
                if t.startswith(("double", "float", "int", "long", "unsigned", "bool", "std::size_t", "char")) or "*" in t.split(",")[0]:
                    self.store[v] = ZERO
                elif TREE.match(t) or t.startswith(("std::vector", "vector")):
                    self.store[v + (("f", "#size"),)] = ZERO
            return LV(at(i) + (("f", "second"),))
        if base == "insert" and len(A) == 1:
            if ismap:
                l = A[0].loc if isinstance(A[0], (LV, Obj)) else None
                if l is None:
                    return None
                k = self.read(l + (("f", "first"),)).c
                i, new = add(k)
                if new:
                    self.copy(l + (("f", "second"),), at(i) + (("f", "second"),))
            else:
                i, new = add(self.num(A[0]).c)
            q = self.obj("std::pair")
            self.store[q + (("f", "first"),)] = Ptr(at(i))
            self.store[q + (("f", "second"),)] = R.const(int(new))
            return Obj(q)
        if base == "insert" and len(A) == 2 and not ismap:
            a, b = self.decay2(A[0]), self.decay2(A[1])
            k = self.dist(a, b)
            if k is None:
                return None
            for v in [self.read(a.move(R.const(j)).target()) for j in range(k)]:
                n = int(self.store[SIZE].c)
                add(self.num(v).c)
            return ZERO
        if base == "erase" and len(A) == 1:
            v = self.rv(A[0])
            if isinstance(v, Ptr):
                i, there = int(v.loc[-1][1].c), True
            else:
                i, there = place(self.num(v).c)
            if there:
                self.wipe(at(i))
                move(i + 1, -1)
                self.store[SIZE] = R.const(n - 1)
            return R.const(int(there))
        return None

    def fields(self, loc):
        """members of an object, all known numbers"""
        n = len(loc)
        out = {}
        for l, v in self.store.items():
            if len(l) > n and l[:n] == loc:
                if not isinstance(v, R) or v.c is None:
                    return None
                out[l[n:]] = v.c
        return out

    def comparing(self, base, A, d):
        """algorithms which compare values or test them"""
        V = [self.decay2(a) for a in A]
        for k, v in enumerate(V):
            if isinstance(v, R) and v.the_atom and v.the_atom[0] == "in":
                V[k] = self.decay(A[k])
        n = self.dist(V[0], V[1])
        if n is None or n > 64 or not isinstance(V[0], Ptr):
            return None
        a = V[0]
        at = [a.move(R.const(i)).target() for i in range(n)]
        fun = self.rv(A[-1])
        fun = fun if isinstance(fun, (Lam, Bound)) else None
        if len(A) > 2 and fun is None and base in ("sort", "stable_sort", "max_element", "min_element", "is_sorted", "unique", "count_if",
                                                   "remove_if", "copy_if", "adjacent_find"):
            if base == "copy_if" or len(A) > 3:
                return None
            g = A[2]
            c = self.cls.get(g.loc, "") if isinstance(g, (Obj, LV)) else ""
            if not re.match(r"std::(less|greater)<", c):
                return None
            fun = Bound(lambda I, X, up=c[5] == "l": I.arith("<" if up else ">", I.num(X[0]), I.num(X[1]), "double"))
        plain = fun is None

        def val(x):
            return self.num(x) if plain else x

        def less(x, y):
            return self.branch(self.arith("<", val(x), val(y), "double") if plain else self.invoke(fun, [x, y], d))

        def equal(x, y):
            return self.branch(self.arith("==", val(x), val(y), "double") if plain else self.invoke(fun, [x, y], d))
        at = [LV(l) for l in at]
        if base in ("max_element", "min_element"):
            b = 0
            for i in range(1, n):
                if less(at[b], at[i]) if base[1] == "a" else less(at[i], at[b]):
                    b = i
            return a.move(R.const(b))
        if base == "is_sorted":
            return R.const(0 if any(less(at[i], at[i - 1]) for i in range(1, n)) else 1)
        if base in ("lower_bound", "upper_bound") and isinstance(V[2], R):
            i = 0
            while i < n and (less(at[i], V[2]) if base[0] == "l" else not less(V[2], at[i])):
                i += 1
            return a.move(R.const(i))
        if base == "count_if" and fun:
            return R.const(sum(1 for x in at if self.branch(self.invoke(fun, [x], d))))
        if base == "adjacent_find":
            for i in range(1, n):
                if equal(at[i - 1], at[i]):
                    return a.move(R.const(i - 1))
            return V[1]
        if base == "equal" and isinstance(V[2], Ptr) and len(A) == 3:
            b = [LV(V[2].move(R.const(i)).target()) for i in range(n)]
            return R.const(1 if all(equal(x, y) for x, y in zip(at, b)) else 0)
        vals = [self.rv(x) for x in at]
        if any(not isinstance(v, (R, Ptr)) for v in vals):
            return None
        if base in ("sort", "stable_sort"):
            out = []
            for v in vals:
                i = len(out)
                while i > 0 and less(v, out[i - 1]):
                    i -= 1
                out.insert(i, v)
            for x, v in zip(at, out):
                self.write(x.loc, v)
            return ZERO
        if base == "unique":
            out = vals[:1]
            for v in vals[1:]:
                if not equal(out[-1], v):
                    out.append(v)
        elif base == "remove" and isinstance(V[2], R):
            out = [v for v in vals if not equal(v, V[2])]
        elif base == "remove_if" and fun:
            out = [v for v, x in zip(vals, at) if not self.branch(self.invoke(fun, [x], d))]
        elif base == "copy_if" and fun and isinstance(V[2], Ptr):
            out = [v for v, x in zip(vals, at) if self.branch(self.invoke(fun, [x], d))]
            for i, v in enumerate(out):
                self.write(V[2].move(R.const(i)).target(), v)
            return V[2].move(R.const(len(out)))
        elif base == "replace" and len(V) == 4 and isinstance(V[2], R):
            for x, v in zip(at, vals):
                if equal(v, V[2]):
                    self.write(x.loc, V[3])
            return ZERO
        else:
            return None
        for x, v in zip(at, out):
            self.write(x.loc, v)
        return a.move(R.const(len(out)))

    def algo(self, base, A):
        V = [self.decay2(a) for a in A]
        for k, v in enumerate(V):
            if isinstance(v, R) and v.the_atom and v.the_atom[0] == "in":
                V[k] = self.decay(A[k])
        if base in ("next", "prev"):
            if isinstance(V[0], Ptr):
                k = self.num(V[1]) if len(V) > 1 else R1
                return V[0].move(k if base == "next" else -k)
            return None
        if base == "distance":
            return self.arith("-", V[1], V[0], "long")
        if base == "advance":
            if isinstance(V[0], Ptr) and isinstance(A[0], LV):
                self.store[A[0].loc] = V[0].move(self.num(V[1]))
                return ZERO
            return None
        if base in ("copy_n", "fill_n"):
            n = self.num(V[1]).c
            if n is None or not isinstance(V[0], Ptr):
                return None
            if base == "fill_n":
                for i in range(int(n)):
                    self.write(V[0].move(R.const(i)).target(), V[2])
                return V[0].move(R.const(n))
            V = [V[0], V[0].move(R.const(n)), V[2]]
            base = "copy"
        n = self.dist(V[0], V[1]) if len(V) > 1 else None
        if n is None:
            for v in V:
                if isinstance(v, Ptr) and base not in ("find",):
                    pass
            return None
        a = V[0]
        at = [a.move(R.const(i)).target() for i in range(n)]
        vals = [self.read(l) for l in at]
        if base in ("accumulate", "inner_product"):
            two = base == "inner_product"
            ops = [self.rv(x) for x in A[3 + two:]]
            if not all(isinstance(o, (Lam, Bound)) for o in ops) or two and not isinstance(V[2], Ptr):
                return None
            acc = self.rv(A[2 + two])
            if not isinstance(acc, R):
                return None
            for i, l in enumerate(at):
                x = LV(l)
                if two:
                    b = LV(V[2].move(R.const(i)).target())
                    x = self.invoke(ops[1], [x, b], 1) if len(ops) > 1 else self.num(x) * self.num(b)
                acc = self.rv(self.invoke(ops[0], [acc, x], 1)) if ops else acc + self.num(x)
                if not isinstance(acc, R):
                    return None
            return acc
        if base in ("partial_sum", "adjacent_difference") and len(A) == 3 and isinstance(V[2], Ptr):
            t = None
            nums = [self.num(v) for v in vals]
            for i, v in enumerate(nums):
                t = v if t is None else (t + v if base == "partial_sum" else v - nums[i - 1])
                self.write(V[2].move(R.const(i)).target(), t)
            return V[2].move(R.const(n))
        if base == "reverse":
            for l, v in zip(at, reversed(vals)):
                self.write(l, v)
            return ZERO
        if base == "rotate" and isinstance(V[2], Ptr):
            # V: beginning, new first, end
            m = self.dist(a, V[1])
            n = self.dist(a, V[2])
            if m is None or n is None or not 0 <= m <= n <= 64:
                return None
            at = [a.move(R.const(i)).target() for i in range(n)]
            vals = [self.read(l) for l in at]
            for l, v in zip(at, vals[m:] + vals[:m]):
                self.write(l, v)
            return a.move(R.const(n - m))
        if base == "swap_ranges" and isinstance(V[2], Ptr):
            for i, v in enumerate(vals):
                l = V[2].move(R.const(i)).target()
                w = self.read(l)
                self.write(l, v)
                self.write(at[i], w)
            return V[2].move(R.const(n))
        if base == "copy_backward" and isinstance(V[2], Ptr):
            for i in range(n - 1, -1, -1):
                self.write(V[2].move(R.const(i - n)).target(), vals[i])
            return V[2].move(R.const(-n))
        if base == "fill":
            for l in at:
                self.write(l, V[2])
            return ZERO
        if base == "iota":
            for i, l in enumerate(at):
                self.write(l, self.num(V[2]) + R.const(i))
            return ZERO
        if base in ("copy", "reverse_copy") and isinstance(V[2], Ptr):
            for i, v in enumerate(vals if base == "copy" else list(reversed(vals))):
                self.write(V[2].move(R.const(i)).target(), v)
            return V[2].move(R.const(n))
        if base == "count":
            x = self.num(V[2])
            cs = [(self.num(v) - x).c for v in vals]
            if None in cs and SIGN is not None:
                cs = [0 if self.branch(self.arith("==", self.num(v), x, "double")) else 1 for v in vals]
            return None if None in cs else R.const(cs.count(0))
        if base == "find" and isinstance(A[2], (LV, Obj)) and isinstance(self.rv(A[2]), Obj):
            x = self.fields(A[2].loc)
            for i, l in enumerate(at):
                y = self.fields(l)
                if x is None or y is None or set(x) != set(y):
                    return None
                if x == y:
                    return a.move(R.const(i))
            return V[1]
        if base == "find":
            x = self.num(V[2])
            for i, v in enumerate(vals):
                c = (self.num(v) - x).c
                if c is None and SIGN is not None:
                    c = 0 if self.branch(self.arith("==", self.num(v), x, "double")) else 1
                if c is None:
                    return None
                if c == 0:
                    return a.move(R.const(i))
            return V[1]
        return None


def signature(name):
    """types of the parameters in the name of a function"""
    name = re.sub(r"\s*const$", "", name)
    if not name.endswith(")"):
        return []
    out, deep, cur = [], 0, ""
    for c in reversed(name[:-1]):
        if c == "(" and not deep:
            out.append(cur[::-1].strip())
            return out[::-1]
        if c == "," and not deep:
            out.append(cur[::-1].strip())
            cur = ""
            continue
        deep += (c in ")>") - (c in "(<")
        cur += c
    return []


def murky(x):
    """what the value rests on that was not followed: a library function without a model, a call left out, memory written by one"""
    def at(a):
        if a[0] in ("?", "call") or a[0] in ("in", "size") and len(a) > 2 and isinstance(a[2], int) and a[2] > 0:
            return str(a[1])[:80]
        for y in a[1:]:
            r = murky(y)
            if r:
                return r
        return None
    if isinstance(x, R):
        for q in (x.num, x.den or {}):
            for m in q:
                for i, e in m:
                    r = at(ATOMS[i])
                    if r:
                        return r
    elif isinstance(x, tuple):
        for y in x:
            r = murky(y)
            if r:
                return r
    return None


def isqrt(n):
    import math
    return math.isqrt(n)


def fval(s):
    """a literal as written: decimals are kept exact to what the text says"""
    x = float(s)
    f = Fraction(x).limit_denominator(10 ** 6)
    return f if float(f) == x else Fraction(x)


def plain(n):
    """a name without its template arguments"""
    if "operator" in n:
        return re.sub(r"<.*>", "", n)
    o, d = [], 0
    for c in n:
        if c == "<":
            d += 1
        elif c == ">":
            d -= 1
        elif not d:
            o.append(c)
    return "".join(o)


EV = {"?:": "cond"}
SIZES = {"double": 8, "float": 4, "int": 4, "unsigned int": 4, "long": 8, "unsigned long": 8, "char": 1, "bool": 1,
         "unsigned char": 1, "signed char": 1, "short": 2}
COMPARING = {"max_element", "min_element", "is_sorted", "lower_bound", "upper_bound", "count_if", "adjacent_find", "equal", "sort", "stable_sort",
             "unique", "remove", "remove_if", "copy_if", "replace"}
PURE = {"cos", "sin", "tan", "acos", "asin", "atan", "atan2", "exp", "log", "log10", "sinh", "cosh", "tanh"}
LIBC = PURE | {"malloc", "calloc", "free", "fabs", "sqrt", "pow", "abs", "floor", "ceil", "memcpy", "memset", "cos", "sin", "exp", "log"}

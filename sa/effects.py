"""What a call changes: interprocedural write effects, by where the written storage comes from.

A root is (who, depth): who is "this", a parameter index or a global's name; depth 0 is the storage designated directly
(the object itself, the pointee of a pointer), 1 anything reached from it through further pointers or handles.  An
origin is a pair (D, C) of root sets: of the storage designated, of what is reached from it.  A function's effect is the
set of roots it may write; its result is an origin.  Effects and results are computed to a fixpoint over the call graph,
virtual calls taking every override."""
from sa import core, facts
from sa.core import strip, auto_of

NONE = (frozenset(), frozenset())
OUT_STD = {"copy": [2], "copy_if": [2], "copy_backward": [2], "move": [2], "copy_n": [2], "partial_sum": [2],
           "adjacent_difference": [2], "replace_copy": [2], "unique_copy": [2], "reverse_copy": [2], "rotate_copy": [3],
           "transform": [-2], "set_difference": [4], "set_intersection": [4], "set_union": [4], "merge": [4],
           "fill": [0], "fill_n": [0], "reverse": [0], "sort": [0], "iota": [0], "rotate": [0], "generate": [0],
           "replace": [0], "replace_if": [0], "memcpy": [0], "memmove": [0], "memset": [0], "stable_sort": [0],
           "unique": [0], "remove": [0], "remove_if": [0], "random_shuffle": [0], "shuffle": [0], "partial_sort": [0],
           "nth_element": [0], "swap_ranges": [0, 2], "uninitialized_copy": [2], "swap": [0, 1], "iter_swap": [0, 1],
           "free": [0], "strcpy": [0], "strncpy": [0]}
PURE_STD = ("begin", "end", "rbegin", "rend", "cbegin", "cend", "operator[]", "at", "front", "back", "data", "find",
            "lower_bound", "upper_bound", "equal_range", "operator*", "operator->", "c_str", "get", "size", "empty",
            "operator+", "operator-", "base", "str", "operator bool", "operator==", "operator!=", "operator<", "top")
ELEM = ("begin", "end", "rbegin", "rend", "cbegin", "cend", "operator[]", "at", "front", "back", "data", "find",
        "lower_bound", "upper_bound", "insert", "emplace_back", "emplace", "c_str", "top")
PUT = ("push_back", "insert", "emplace_back", "emplace", "push_front", "assign", "resize", "push", "operator=", "swap",
       "operator[]", "at", "front", "back", "begin", "end")


def join(*os):
    D, C = set(), set()
    for d, c in os:
        D |= d
        C |= c
    return (frozenset(D), frozenset(C))


def handle(t):
    """a value of the type refers to storage elsewhere"""
    t = t.strip()
    if t.endswith(("*", "*const")):
        return True
    s = strip(t) if not t.endswith("*") else t
    return auto_of(s) is not None or "iterator" in s.split("<")[0] or "Iterator" in s.split("<")[0] or \
        s.startswith(("MEDCoupling::MEDCouplingPointer", "std::shared_ptr<", "std::unique_ptr<", "std::reverse_iterator"))


class Effects:
    def __init__(self, P, E, ignore=lambda m: False, hook=None):
        """ignore(field): writes of that field do not count"""
        self.P, self.E, self.ignore = P, E, ignore
        self.eff = {}     # function -> frozenset of roots
        self.res = {}     # function -> origin
        self.why = {}     # (function, root) -> (line, text)
        self._vt = {}
        self.fixed = {}   # function -> (effect, origin of the result) taken as given

    # ------------------------------------------------------------------ origins
    def var(self, f, v, node=None, depth=0):
        """(is the variable itself the designated storage?, origin) of a local or parameter"""
        ty = f.vtype(v)
        k = f.vkind(v)
        if self.scalar(ty):
            return "obj", NONE
        if k == "p":
            i = self.pidx(f, v)
            o = (frozenset([(i, 0)]), frozenset([(i, 1)]))
            if ty.rstrip().endswith(("&", "&&")):
                return "ref", o
            if handle(ty):
                # the parameter may be reassigned
                ds = [d for d in facts.defs_of(f).get(v, []) if d[0] == "asg"]
                if ds and depth < 14:
                    o = join(o, *[self.val(f, d[1], depth + 1) for d in ds if d[1] is not None])
                return "ptr", o
            return "obj", (frozenset(), frozenset([(i, 1)]))
        if k not in ("l",):
            return "obj", NONE
        if ty.rstrip().endswith(("&", "&&")):
            ds = [d for d in facts.defs_of(f).get(v, []) if d[0] == "init" and d[1] is not None]
            if not ds or depth > 14:
                return "ref", self.range_src(f, v, depth)
            return "ref", join(*[self.lv(f, d[1], depth + 1) for d in ds])
        key = (f.name, v)
        if handle(ty):
            d = facts.reaching(f).get(id(node)) if node is not None else None
            ex = list(d.values()) if d else [x[1] for x in facts.defs_of(f).get(v, []) if x[0] in ("init", "asg")]
            ex = [x for x in ex if x is not None]
            if key in self._vt or depth > 14:
                return "ptr", NONE
            self._vt[key] = 1
            try:
                o = join(NONE, *[self.val(f, x, depth + 1) for x in ex])
                C = set(o[1])
                for x in self.puts(f).get(v, []):
                    a = self.val(f, x, depth + 1)
                    C |= a[0] | a[1]
                return "ptr", (o[0], frozenset(C))
            finally:
                del self._vt[key]
        if key in self._vt or depth > 14:
            return "obj", NONE
        self._vt[key] = 1
        try:
            C = set()
            for x in [x[1] for x in facts.defs_of(f).get(v, []) if x[0] in ("init", "asg") and x[1] is not None] + \
                    self.puts(f).get(v, []):
                d, c = self.val(f, x, depth + 1)
                C |= d | c
            return "obj", (frozenset(), frozenset(C))
        finally:
            del self._vt[key]

    def scalar(self, ty):
        ty = ty.strip()
        if ty.startswith("const "):
            ty = ty[6:]
        return ty in facts_scalars or ty in self.P.E

    def range_src(self, f, v, depth):
        return NONE

    def puts(self, f):
        """local -> expressions whose value is stored in it by member calls or element assignment"""
        r = f._aux.get("eff_puts")
        if r is not None:
            return r
        r = f._aux["eff_puts"] = {}

        def base(e):
            e = f.e(e)
            while e is not None:
                if e[0] == "v":
                    return e[1] if f.vkind(e[1]) == "l" and not f.vtype(e[1]).rstrip().endswith(("&",)) else None
                if e[0] == "cast":
                    e = f.e(e[4])
                elif e[0] == "x":
                    e = f.e(e[1])
                elif e[0] == "m" and not e[3]:
                    e = f.e(e[1])
                elif e[0] == "c" and e[3] is not None and f.S[e[1]] in f.P.D and f.P.D[f.S[e[1]]].nm in \
                        ("operator[]", "at", "front", "back"):
                    e = f.e(e[3])
                else:
                    return None
            return None
        for b, i, ln, n in f.all_nodes():
            if n[0] == "b" and n[1] == "=":
                l = f.e(n[2])
                if l[0] != "v" and not self.scalar(f.S[n[4]]) and self.holds(f, n[3]):
                    v = base(l)
                    if v is not None:
                        r.setdefault(v, []).append(n[3])
            elif n[0] == "c" and n[3] is not None and n[2]:
                d = f.P.D.get(f.S[n[1]])
                if d is None or d.nm not in ("push_back", "insert", "emplace_back", "emplace", "push_front", "assign",
                                             "push", "operator=", "takeRef", "resize", "swap"):
                    continue
                v = base(n[3])
                if v is not None and d.nm == "operator=" and f.e(n[3])[0] == "v" and handle(f.vtype(v)):
                    continue
                if v is not None:
                    for a in n[2]:
                        if self.holds(f, a):
                            r.setdefault(v, []).append(a)
            elif n[0] == "c" and n[3] is None and n[2]:
                d = f.P.D.get(f.S[n[1]])
                if d is not None and d.name.startswith("std::") and d.nm in ("copy", "transform", "back_inserter"):
                    k = 2 if d.nm == "copy" else len(n[2]) - 2
                    if d.nm != "back_inserter" and 0 <= k < len(n[2]):
                        v = base(self.peel_it(f, n[2][k]))
                        if v is not None:
                            r.setdefault(v, []).append(n[2][0])
        return r

    def peel_it(self, f, e):
        e = f.e(e)
        while e is not None:
            if e[0] == "cast":
                e = f.e(e[4])
            elif e[0] == "c" and e[3] is not None and f.S[e[1]] in f.P.D and f.P.D[f.S[e[1]]].nm in ("begin",):
                e = f.e(e[3])
            elif e[0] == "k" and len(e[2]) == 1:
                e = f.e(e[2][0])
            elif e[0] == "b" and e[1] == "+":
                e = f.e(e[2])
            else:
                break
        return e

    def holds(self, f, e):
        """the value stored is a handle or an object (not a number)"""
        e = f.e(e)
        if e is None or e[0] in ("i", "f", "s", "null", "e", "sz"):
            return False
        if e[0] == "cast":
            t = f.S[e[3]]
            return not (t in facts_scalars)
        return True

    def pidx(self, f, v):
        m = f._aux.get("pidx")
        if m is None:
            m = f._aux["pidx"] = {}
            for k in range(len(f.o.get("vars", []))):
                if f.vkind(k) == "p":
                    m[k] = len(m)
        return m.get(v, v)

    def lv(self, f, e, depth=0):
        """origin of the storage an lvalue designates"""
        e = f.e(e)
        if e is None or depth > 24:
            return NONE
        t = e[0]
        if t == "v":
            k, o = self.var(f, e[1], e, depth + 1)
            if k == "ref":
                return o
            if k == "ptr":
                return (frozenset(), o[0] | o[1])
            return o
        if t == "m":
            return self.val(f, e[1], depth + 1) if e[3] else self.lv(f, e[1], depth + 1)
        if t == "this":
            return self.val(f, e, depth)
        if t == "u":
            if e[1] == "*":
                return self.val(f, e[2], depth + 1)
            return self.lv(f, e[2], depth + 1)
        if t == "x":
            return self.val(f, e[1], depth + 1)
        if t == "cast":
            return self.lv(f, e[4], depth + 1)
        if t == "?:":
            return join(self.lv(f, e[2], depth + 1), self.lv(f, e[3], depth + 1))
        if t == "b":
            return self.lv(f, e[3] if e[1] == "," else e[2], depth + 1)
        if t == "g":
            g = f.S[e[1]]
            return (frozenset([(g, 0)]), frozenset([(g, 1)]))
        if t == "c":
            d = self.P.D.get(f.S[e[1]])
            if d is None:
                return NONE
            if d.rt.rstrip().endswith("&"):
                return self.call(f, e, d, depth + 1)
            # a temporary object
            o = self.call(f, e, d, depth + 1)
            return (frozenset(), o[0] | o[1]) if handle(d.rt) else (frozenset(), o[1])
        if t == "k":
            o = self.val(f, e, depth + 1)
            return (frozenset(), o[0] | o[1])
        return NONE

    def val(self, f, e, depth=0):
        """origin of what a pointer, handle or object value refers to"""
        e = f.e(e)
        if e is None or depth > 24:
            return NONE
        t = e[0]
        if t == "this":
            if f.lam:
                return NONE
            return (frozenset([("this", 0)]), frozenset([("this", 1)]))
        if t == "cast":
            ck = e[2]
            if self.scalar(f.S[e[3]]):
                return NONE
            if ck == "LValueToRValue":
                s = f.e(e[4])
                while s[0] == "cast":
                    s = f.e(s[4])
                if s[0] == "v":
                    k, o = self.var(f, s[1], s, depth + 1)
                    if k == "ptr":
                        return o
                    return (o[1], o[1])
                d, c = self.lv(f, s, depth + 1)
                return (c, c)
            if ck == "ArrayToPointerDecay":
                return self.lv(f, e[4], depth + 1)
            return self.val(f, e[4], depth + 1)
        if t == "v":
            k, o = self.var(f, e[1], e, depth + 1)
            if k == "ptr":
                return o
            if k == "ref" and handle(f.vtype(e[1]).rstrip().rstrip("&").rstrip()):
                return (o[1], o[1])
            return o
        if t == "m":
            d, c = self.lv(f, e, depth + 1)
            return (c, c) if self.mtype_handle(f, e) else (d, c)
        if t == "u":
            if e[1] == "&":
                return self.lv(f, e[2], depth + 1)
            if e[1] == "*":
                o = self.val(f, e[2], depth + 1)
                return o
            return self.val(f, e[2], depth + 1)
        if t == "x":
            return self.val(f, e[1], depth + 1)
        if t == "b":
            if e[1] == "=":
                return self.val(f, e[3], depth + 1)
            if e[1] in ("+", "-", "+=", "-="):
                if e[1] == "+" and self.scalar(self.atype(f, e[2])):
                    return self.val(f, e[3], depth + 1)
                return self.val(f, e[2], depth + 1)
            if e[1] == ",":
                return self.val(f, e[3], depth + 1)
            return NONE
        if t == "?:":
            return join(self.val(f, e[2], depth + 1), self.val(f, e[3], depth + 1))
        if t == "g":
            g = f.S[e[1]]
            return (frozenset([(g, 0)]), frozenset([(g, 1)]))
        if t == "k":
            ty = f.S[e[3]]
            if handle(ty):
                return join(NONE, *[self.val(f, a, depth + 1) for a in e[2][:1]])
            if ty.startswith("std::"):
                C = set()
                for a in e[2]:
                    d, c = self.val(f, a, depth + 1)
                    C |= c if not handle(self.atype(f, a)) else (d | c)
                return (frozenset(), frozenset(C))
            if not self.P.is_a(strip(ty), "MEDCoupling::RefCountObjectOnly"):
                # a small object keeps what it is built on
                C = set()
                g = self.P.D.get(f.S[e[1]])
                for k, a in enumerate(e[2]):
                    ty = strip(g.params[k][1]) if g is not None and k < len(g.params) else ""
                    if ty.startswith("std::") and "*" not in ty or self.scalar(ty):
                        continue          # copied
                    d, c = self.val(f, a, depth + 1)
                    C |= d | c
                return (frozenset(), frozenset(C))
            return NONE
        if t == "il":
            C = set()
            for a in e[1]:
                d, c = self.val(f, a, depth + 1)
                C |= d | c
            return (frozenset(), frozenset(C))
        if t == "c":
            d = self.P.D.get(f.S[e[1]])
            if d is None:
                return NONE
            o = self.call(f, e, d, depth + 1)
            if d.rt.rstrip().endswith("&") and handle(d.rt.rstrip().rstrip("&").rstrip()):
                return (o[1], o[1])
            return o
        return NONE

    def mtype_handle(self, f, e):
        nm = f.S[e[2]]
        c, _, m = nm.rpartition("::")
        r = self.P.R.get(c)
        if r is None:
            return False
        for x in r.fields:
            if x[0] == m or x[0] == nm:
                return handle(x[1])
        return False

    def atype(self, f, a):
        a = f.e(a)
        if a is None:
            return ""
        if a[0] == "cast":
            return f.S[a[3]]
        if a[0] == "v":
            return f.vtype(a[1])
        if a[0] == "x":
            return f.S[a[3]]
        if a[0] == "b":
            return f.S[a[4]]
        if a[0] == "i":
            return "int"
        if a[0] == "u" and a[1] in ("++", "--", "p++", "p--", "-", "+"):
            return self.atype(f, a[2])
        if a[0] == "k":
            return f.S[a[3]]
        if a[0] == "c":
            d = self.P.D.get(f.S[a[1]])
            return d.rt if d is not None else ""
        return ""

    def call(self, f, n, d, depth):
        """origin of a call's result (storage for a reference, pointee for a pointer or handle)"""
        nm, cls = d.nm, d.cls or ""
        if n[3] is not None and (cls.startswith("std::") or auto_of(cls) or "iterator" in cls):
            if auto_of(cls) or cls.startswith(("std::shared_ptr", "std::unique_ptr")) or "iterator" in cls.split("<")[0]:
                # operator->, operator*, retn, arithmetic of iterators: what the handle refers to
                if nm == "operator=" and n[2]:
                    return self.val(f, n[2][0], depth + 1)
                return self.hval(f, n[3], depth + 1)
            if nm in ELEM:
                return self.lv(f, n[3], depth + 1)
            return (frozenset(), self.lv(f, n[3], depth + 1)[1])
        if d.name.startswith("std::") and n[3] is None:
            if nm in OUT_STD and OUT_STD[nm] and nm not in ("unique", "remove", "remove_if"):
                k = OUT_STD[nm][0]
                k = k if k >= 0 else len(n[2]) + k
                if k < len(n[2]):
                    return self.hv(f, n[2][k])
            if nm in ("malloc", "calloc", "realloc"):
                return NONE
            if handle(d.rt) or d.rt.endswith("&"):
                return join(NONE, *[self.val(f, a, depth + 1) for a in n[2][:1]])
            return NONE
        if n[3] is None and cls == "" and "iterator" in d.rt:
            return join(NONE, *[self.hval(f, a, depth + 1) for a in n[2][:1]])
        D, C = set(), set()
        for y in self.tg(f, n):
            r = self.res.get(y)
            if r is None:
                continue
            a = self.mapped(f, n, y, r[0], depth)
            b = self.mapped(f, n, y, r[1], depth)
            D |= a
            C |= b
        return (frozenset(D), frozenset(C))

    def hval(self, f, e, depth):
        """what the handle object expression refers to"""
        e = f.e(e)
        while e is not None and e[0] == "cast":
            e = f.e(e[4])
        if e is None:
            return NONE
        if e[0] == "v":
            k, o = self.var(f, e[1], e, depth + 1)
            if k == "ptr":
                return o
            return (o[1], o[1])
        if e[0] in ("k", "c"):
            return self.val(f, e, depth + 1)
        d, c = self.lv(f, e, depth + 1)
        return (c, c)

    def tg(self, f, n):
        d = self.P.D.get(f.S[n[1]])
        if n[0] == "k" or d is None or not d.virt or n[4]:
            return [f.S[n[1]]]
        return self.P.targets(f, n)

    def mapped(self, f, n, y, roots, depth=0):
        """roots of callee y in terms of the caller's"""
        r = set()
        for who, k in roots:
            if isinstance(who, int):
                g = self.P.D.get(y)
                if who < len(n[2]):
                    ty = g.params[who][1] if g is not None and who < len(g.params) else ""
                    a = n[2][who]
                    if ty.rstrip().endswith("&"):
                        o = self.lv(f, a, depth + 1)
                    else:
                        o = self.val(f, a, depth + 1)
                    r |= o[k]
            elif who == "this":
                if n[0] == "k":
                    continue
                if n[3] is not None:
                    o = self.obj(f, n[3], depth + 1)
                    r |= o[k]
            else:
                r.add((who, k))
        return r

    def obj(self, f, e, depth=0):
        """origin of the object a method is called on (a pointer with ->, an lvalue with .)"""
        x = f.e(e)
        if x is None:
            return NONE
        if x[0] == "this":
            return self.val(f, x, depth)
        if x[0] == "cast" and x[2] == "LValueToRValue":
            return self.val(f, x, depth)
        y = x
        while y[0] == "cast":
            if y[2] == "LValueToRValue":
                return self.val(f, x, depth)
            y = f.e(y[4])
        if y[0] == "this":
            return self.val(f, y, depth)
        if y[0] == "c":
            d = self.P.D.get(f.S[y[1]])
            if d is not None:
                if d.rt.rstrip().endswith("*") or d.rt.rstrip().rstrip("&").rstrip().endswith(("*", "*const")):
                    return self.val(f, y, depth)
                return self.lv(f, y, depth)
        if y[0] in ("new",):
            return NONE
        if y[0] == "u" and y[1] == "&":
            return self.lv(f, y[2], depth)
        return self.lv(f, y, depth)

    # ------------------------------------------------------------------ effects
    def writes(self, f, n, ln):
        """[(root, text)] the node writes by itself or by its callee"""
        P = self.P
        t = n[0]
        r = []
        if t == "b" and n[1].endswith("=") and n[1] not in ("==", "!=", "<=", ">="):
            x = f.e(n[2])
            if not self.ign(f, x):
                for q in self.lv(f, x)[0]:
                    r.append((q, "assignment"))
        elif t == "u" and n[1] in ("++", "--", "p++", "p--"):
            x = f.e(n[2])
            if not self.ign(f, x):
                for q in self.lv(f, x)[0]:
                    r.append((q, "assignment"))
        elif t == "del":
            for q in self.freed(f, n[2]):
                r.append((q, "delete"))
        elif t in ("c", "k"):
            d = P.D.get(f.S[n[1]])
            if d is None:
                return r
            nm, cls = d.nm, d.cls or ""
            if t == "c" and n[3] is not None and not d.static and (cls.startswith("std::") or auto_of(cls)):
                if d.const or nm in PURE_STD:
                    return r
                if "iterator" in cls.split("<")[0] and nm in ("operator++", "operator--", "operator+=", "operator-=",
                                                              "operator="):
                    pass
                if auto_of(cls) and nm not in ("operator=", "takeRef", "nullify"):
                    return r
                x = f.e(n[3])
                if not self.ign(f, x):
                    for q in self.lv(f, x)[0]:
                        r.append((q, "%s on %s" % (nm, "a container" if cls.startswith("std::") else "a handle")))
                return r
            if t == "c" and n[3] is None and (d.name.startswith("std::") or nm in OUT_STD) and d.name not in P.F:
                for k in OUT_STD.get(nm, []):
                    k = k if k >= 0 else len(n[2]) + k
                    if k < len(n[2]):
                        o = self.lv(f, n[2][k]) if nm == "swap" else self.hv(f, n[2][k])
                        if nm == "free":
                            o = (self.freed(f, n[2][k]), ())
                        for q in o[0]:
                            r.append((q, "std::" + nm))
                return r
            for y in self.tg(f, n):
                e = self.eff.get(y)
                if e:
                    for q in e:
                        for z in self.mapped(f, n, y, [q]):
                            r.append((z, "calls " + core.short(y)))
        return r

    def freed(self, f, e):
        """storage given back: a variable that some path sets to a new block is taken as holding that block"""
        x = f.e(e)
        while x is not None and x[0] == "cast":
            x = f.e(x[4])
        if x is not None and x[0] == "v":
            ds = [d for d in facts.defs_of(f).get(x[1], []) if d[0] in ("init", "asg") and d[1] is not None]
            if any(not self.val(f, d[1])[0] and f.e(d[1])[0] not in ("null", "i") for d in ds):
                return frozenset()
        return self.val(f, e)[0]

    def hv(self, f, a):
        x = f.e(a)
        if x is not None and x[0] == "cast" and x[2] != "LValueToRValue":
            return self.val(f, x)
        t = self.atype(f, a)
        if "iterator" in t and not t.endswith("*"):
            return self.hval(f, a, 0)
        return self.val(f, a)

    def ign(self, f, x):
        while x is not None and x[0] in ("cast", "x"):
            x = f.e(x[4] if x[0] == "cast" else x[1])
        return x is not None and x[0] == "m" and self.ignore(f.S[x[2]])

    def one(self, f):
        eff = set()
        D, C = set(), set()
        tmp = f.ctor
        isptr = handle(f.rt) or f.rt.rstrip().endswith("&") or not f.rt in facts_scalars
        for b, i, ln, n in f.all_nodes():
            if n[0] == "ret" and n[1] is not None and isptr:
                if f.rt.rstrip().endswith("&"):
                    o = self.lv(f, n[1])
                else:
                    o = self.val(f, n[1])
                    if not handle(f.rt):
                        o = (frozenset(), o[1])
                D |= o[0]
                C |= o[1]
                continue
            for q, txt in self.writes(f, n, ln):
                if tmp and q[0] == "this" and q[1] == 0:
                    continue
                if q not in eff:
                    eff.add(q)
                    self.why.setdefault((f.name, q), (ln, txt))
        return frozenset(eff), (frozenset(D), frozenset(C))

    def solve(self, rounds=12):
        P = self.P
        fs = [f for f in P.F.values() if f.has_body and "nocfg" not in f.o]
        callers = {}
        for f in fs:
            for b, i, ln, n, cal in f.calls():
                for y in self.tg(f, n):
                    callers.setdefault(y, set()).add(f.name)
        # callees first
        order = self.postorder(fs)
        work = order
        for _ in range(rounds):
            nxt = set()
            for nme in work:
                f = P.F[nme]
                a = self.fixed.get(nme) or self.one(f)
                if a != (self.eff.get(nme), self.res.get(nme)):
                    self.eff[nme] = a[0]
                    self.res[nme] = a[1]
                    nxt |= callers.get(nme, set())
            if not nxt:
                return True
            work = [x for x in order if x in nxt]
        return False

    def postorder(self, fs):
        P = self.P
        seen, out = set(), []
        names = {f.name for f in fs}
        for f0 in fs:
            if f0.name in seen:
                continue
            st = [(f0.name, None)]
            seen.add(f0.name)
            stack = [(f0.name, iter([y for b, i, ln, n, c in f0.calls() for y in self.tg(f0, n)]))]
            while stack:
                x, it = stack[-1]
                for y in it:
                    if y in names and y not in seen:
                        seen.add(y)
                        g = P.F[y]
                        stack.append((y, iter([z for b, i, ln, n, c in g.calls() for z in self.tg(g, n)])))
                        break
                else:
                    out.append(x)
                    stack.pop()
        return out


facts_scalars = {"int", "long", "double", "float", "bool", "char", "unsigned int", "unsigned long", "short", "void",
                 "unsigned char", "long long", "unsigned long long", "signed char", "unsigned short"}

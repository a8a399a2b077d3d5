"""Hash-consed abstract values and the finite-set / interval fact domain."""

_tab = {}
_cnt = [0]


class V:
    """An interned value-graph node. Equality is identity."""
    __slots__ = ("k", "a", "id", "_names", "_s", "_hv")

    def __repr__(self):
        return show(self)


def mk(k, *a):
    t = (k, a)
    v = _tab.get(t)
    if v is None:
        v = V()
        v.k = k
        v.a = a
        _cnt[0] += 1
        v.id = _cnt[0]
        v._names = None
        v._s = None
        v._hv = None
        _tab[t] = v
    return v


def K(c):
    if c is True:
        c = 1
    elif c is False:
        c = 0
    return mk("k", c)


def sym(n):
    return mk("sym", n)


def isk(v):
    return v.k == "k"


TRUE = K(1)
FALSE = K(0)
UNINIT = mk("uninit")
UNIT = mk("agg", "tuple", None, None, (), ())


def agg(kind, name, variant, fields, vals):
    return mk("agg", kind, name, variant, tuple(fields), tuple(vals))


def tup(*vals):
    return agg("tuple", None, None,
               tuple("." + str(i) for i in range(len(vals))), vals)


OPT = "std::option::Option"
RES = "std::result::Result"


def some(v):
    return agg("adt", OPT, "Some", (".0",), (v,))


NONE = agg("adt", OPT, "None", (), ())


def ok(v):
    return agg("adt", RES, "Ok", (".0",), (v,))


def err(v):
    return agg("adt", RES, "Err", (".0",), (v,))


def kids(v):
    """Direct V children."""
    for x in v.a:
        if isinstance(x, V):
            yield x
        elif type(x) is tuple:
            for y in x:
                if isinstance(y, V):
                    yield y
                elif type(y) is tuple:
                    for z in y:
                        if isinstance(z, V):
                            yield z
                        elif type(z) is tuple:
                            for w in z:
                                if isinstance(w, V):
                                    yield w


def subterms(v):
    seen = set()
    st = [v]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(kids(x))


def mentions_hv(v, pred):
    for x in subterms(v):
        if x.k == "hv" and pred(x):
            return True
    return False


def names(v):
    """Identifiers (field names, callee names) a value mentions."""
    if v._names is None:
        s = set()
        if v.k == "sym":
            s.add(v.a[0])
        elif v.k == "proj":
            e = v.a[1]
            if type(e) is str and e[0] == "." and not e[1:].isdigit():
                s.add(e[1:])
            else:
                s |= names(v.a[0])
                if isinstance(e, tuple) and len(e) > 1 and isinstance(e[1], V):
                    s |= names(e[1])
        else:
            if v.k == "call":
                s.add(v.a[0].rsplit("::", 1)[-1])
            for x in kids(v):
                s |= names(x)
        v._names = frozenset(s)
    return v._names


def short(p):
    return "::".join(p.split("::")[-2:])


def rootstr(r):
    if r[0] == "L":
        return "_%d.%d" % (r[1], r[2])
    if r[0] in ("X", "C"):
        return show(r[1])
    return str(r[0]) + str(r[1:])


def pathstr(base, path):
    s = base
    for e in path:
        s = elemstr(s, e)
    return s


def elemstr(s, e):
    if e == "*":
        return s
    if type(e) is str:
        return s + e
    if e[0] == "i":
        return s + "[" + (show(e[1]) if isinstance(e[1], V) else str(e[1])) + "]"
    return s + "[" + ",".join(show(x) if isinstance(x, V) else str(x)
                              for x in e) + "]"


def show(v):
    if v._s is not None:
        return v._s
    k = v.k
    a = v.a
    if k == "k":
        s = ('"%s"' % a[0]) if type(a[0]) is str else str(a[0])
    elif k == "sym":
        s = a[0]
    elif k == "proj":
        s = elemstr(show(a[0]), a[1])
    elif k == "op":
        s = a[0] + "(" + ",".join(map(show, a[1])) + ")"
    elif k == "call":
        s = short(a[0]) + "(" + ",".join(map(show, a[1])) + ")"
        if len(a) > 2 and a[2] is not None:
            s += "#" + str(a[2])
    elif k == "discr":
        s = "discr(" + show(a[0]) + ")"
    elif k == "ref":
        s = "&" + pathstr(rootstr(a[0]), a[1])
    elif k == "agg":
        if a[0] == "adt":
            s = short(a[1]) + (("::" + a[2]) if a[2] else "")
        else:
            s = a[0]
        if a[4]:
            s += "{" + ",".join("%s:%s" % (f, show(x))
                                for f, x in zip(a[3], a[4])) + "}"
    elif k == "hv":
        s = "?" + "/".join(str(x).rsplit("::", 1)[-1] for x in a)
    elif k == "st":
        s = show(a[0]) + "{" + ",".join(
            "%s=%s" % (elemstr("", e), show(x)) for e, x in a[1]) + "}"
    elif k == "fn":
        s = "fn:" + a[1]
    elif k == "cast":
        s = "cast:%s(%s)" % (a[0], show(a[1]))
    else:
        s = k + "(" + ",".join(show(x) if isinstance(x, V) else str(x)
                               for x in a) + ")"
    v._s = s
    return s


def strip(v):
    """Strip casts."""
    while v.k == "cast":
        v = v.a[1]
    return v


def path(v):
    return show(strip(v))


# ---------------------------------------------------------------- projections
def proj(v, e):
    k = v.k
    if k == "agg":
        if type(e) is str:
            if v.a[0] == "array" and e in ("*", ".0", ".pointer"):
                return v
            if e[0] == "@":
                if v.a[2] == e[1:]:
                    return v
                return mk("bad", v, e)
            try:
                return v.a[4][v.a[3].index(e)]
            except ValueError:
                return mk("proj", v, e)
        if e[0] == "i":
            ix = e[1]
            if v.a[0] == "array" and isk(ix):
                n = ix.a[0]
                if 0 <= n < len(v.a[4]):
                    return v.a[4][n]
            return mk("proj", v, e)
        if e[0] == "c" and v.a[0] == "array":
            n = e[1] if not e[3] else len(v.a[4]) - e[1]
            if 0 <= n < len(v.a[4]):
                return v.a[4][n]
    elif k == "st":
        for ee, x in v.a[1]:
            if ee == e:
                return x
        if type(e) is tuple and e[0] == "i":
            for ee, x in v.a[1]:
                if type(ee) is tuple and ee[0] == "i":
                    if not (isk(ee[1]) and isk(e[1])):
                        return mk("proj", v, e)
        return proj(v.a[0], e)
    elif k == "rep":
        if type(e) is tuple and e[0] in ("i", "c"):
            return v.a[0]
    elif k == "arc" and e == "*":
        return v.a[0]
    elif k == "k" and type(v.a[0]) is str:
        pass
    if type(e) is tuple and e[0] == "c" and not e[3]:
        e = ("i", K(e[1]))
        return proj(v, e) if k in ("agg", "st") else mk("proj", v, e)
    return mk("proj", v, e)


def upd(v, p, val):
    """Value v with sub-path p replaced by val."""
    if not p:
        return val
    e = p[0]
    if v.k == "agg":
        if type(e) is str and e[0] == "@":
            if v.a[2] == e[1:]:
                return upd(v, p[1:], val)
        elif type(e) is str and e in v.a[3]:
            i = v.a[3].index(e)
            vals = list(v.a[4])
            vals[i] = upd(vals[i], p[1:], val)
            return mk("agg", v.a[0], v.a[1], v.a[2], v.a[3], tuple(vals))
        elif type(e) is tuple and e[0] == "i" and isk(e[1]) \
                and v.a[0] == "array" and 0 <= e[1].a[0] < len(v.a[4]):
            i = e[1].a[0]
            vals = list(v.a[4])
            vals[i] = upd(vals[i], p[1:], val)
            return mk("agg", v.a[0], v.a[1], v.a[2], v.a[3], tuple(vals))
    sub = upd(proj(v, e), p[1:], val)
    if v.k == "st":
        base, ov = v.a
        if type(e) is tuple and e[0] == "i" and not isk(e[1]):
            # unknown index: other element overlays may be overwritten
            ov = tuple((ee, x) for ee, x in ov
                       if not (type(ee) is tuple and ee[0] == "i"))
            base = mk("proj", base, ("havoc-elems",)) if len(ov) != len(v.a[1]) else base
        items = [(ee, x) for ee, x in ov if ee != e] + [(e, sub)]
        items.sort(key=lambda t: str(t[0]))
        return mk("st", base, tuple(items))
    if mk("proj", v, e) is sub:
        return v
    return mk("st", v, ((e, sub),))


# ---------------------------------------------------------------- operations
COMM = {"Add", "Mul", "BitAnd", "BitOr", "BitXor", "Eq", "Ne", "min", "max"}


# --------------------------------------------------- linear / congruence terms
# Values a1*x1 + .. + an*xn + b over the naturals registered in LIN
# (symbol -> lower bound).  Division, remainder, shifts and masks are exact when
# the divisor divides every coefficient.  Off unless a check registers symbols.
LIN = {}


def lin_of(v):
    if v.k == "k":
        return ({}, v.a[0]) if type(v.a[0]) is int else None
    if v.k == "lin":
        return dict(v.a[0]), v.a[1]
    if v in LIN:
        return {v: 1}, 0
    return None


def lin_make(d, b):
    d = {x: a for x, a in d.items() if a}
    if not d:
        return K(b)
    if b == 0 and len(d) == 1 and list(d.values()) == [1]:
        return list(d)[0]
    return mk("lin", tuple(sorted(d.items(), key=lambda t: t[0].id)), b)


def lin_lo(d, b):
    """Lower bound, None if unbounded."""
    for x, a in d.items():
        if a < 0:
            return None
        b += a * LIN[x]
    return b


def _linop(name, args):
    ls = [lin_of(x) for x in args]
    if any(l is None for l in ls):
        return None
    (d, b), rest = ls[0], ls[1:]
    e, f = rest[0] if rest else (None, None)
    if name in ("Add", "Sub"):
        s = 1 if name == "Add" else -1
        r = dict(d)
        for x, a in e.items():
            r[x] = r.get(x, 0) + s * a
        return lin_make(r, b + s * f)
    if name == "Mul":
        if d and e:
            return None
        if d == {}:
            d, b, f = e, f, b
        return lin_make({x: a * f for x, a in d.items()}, b * f)
    if name in ("Shl", "Shr", "Div", "Rem", "BitAnd", "BitOr"):
        if e:
            return None
        if name in ("Shl", "Shr"):
            f, name = 1 << f, "Mul" if name == "Shl" else "Div"
            if name == "Mul":
                return _linop("Mul", (args[0], K(f)))
        if name == "BitAnd":
            if f & (f + 1):
                return None
            f, name = f + 1, "Rem"
        if name == "BitOr":
            m = 1 << f.bit_length()
            if any(a % m for a in d.values()):
                return None
            return lin_make(d, (b // m) * m + (b % m | f))
        if f <= 0:
            return None
        lo = lin_lo(d, b)
        if lo is None or lo < 0:
            return None
        if any(a % f for a in d.values()):
            return None
        if name == "Rem":
            return K(b % f)
        return lin_make({x: a // f for x, a in d.items()}, b // f)
    if name in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "min", "max"):
        r = dict(d)
        for x, a in e.items():
            r[x] = r.get(x, 0) - a
        r = {x: a for x, a in r.items() if a}
        lo = lin_lo(r, b - f)
        hi = lin_lo({x: -a for x, a in r.items()}, f - b)
        hi = None if hi is None else -hi
        if name in ("min", "max"):
            if lo is not None and lo >= 0:
                return args[0] if name == "max" else args[1]
            if hi is not None and hi <= 0:
                return args[1] if name == "max" else args[0]
            return None
        if name in ("Eq", "Ne"):
            if lo is not None and lo == hi == 0:
                return K(int(name == "Eq"))
            if lo is not None and lo > 0 or hi is not None and hi < 0:
                return K(int(name == "Ne"))
            return None
        if name in ("Gt", "Le"):
            if lo is not None and lo > 0:
                return K(int(name == "Gt"))
            if hi is not None and hi <= 0:
                return K(int(name == "Le"))
            return None
        if lo is not None and lo >= 0:
            return K(int(name == "Ge"))
        if hi is not None and hi < 0:
            return K(int(name == "Lt"))
    return None


def lin_tz(v):
    """trailing_zeros of a linear term, None if unknown."""
    l = lin_of(v)
    if l is None or not l[0]:
        return None
    m = 1
    while all(a % (2 * m) == 0 for a in l[0].values()):
        m *= 2
    r = l[1] % m
    return (r & -r).bit_length() - 1 if r else None


def op(name, *args):
    if LIN and any(x.k == "lin" or x in LIN for x in args):
        r = _linop(name[:-9] if name.endswith("Unchecked") else name, args)
        if r is not None:
            return r
    if name in ("AddUnchecked", "SubUnchecked", "MulUnchecked", "ShlUnchecked",
                "ShrUnchecked"):
        name = name[:-9]
    if all(isk(x) and type(x.a[0]) is int for x in args):
        n = [x.a[0] for x in args]
        try:
            r = _fold(name, n)
        except Exception:
            r = None
        if r is not None:
            return K(r)
    if name == "Not":
        x = args[0]
        if x.k == "op":
            inv = {"Eq": "Ne", "Ne": "Eq", "Lt": "Ge", "Ge": "Lt", "Gt": "Le",
                   "Le": "Gt"}
            if x.a[0] == "Not":
                return x.a[1][0]
            if x.a[0] in inv:
                return op(inv[x.a[0]], *x.a[1])
    elif name in ("Eq", "Ne", "Le", "Ge", "Lt", "Gt") and args[0] is args[1] \
            and args[0].k != "uninit":
        if not (args[0].k == "k" and type(args[0].a[0]) is tuple):
            return K(1 if name in ("Eq", "Le", "Ge") else 0)
    if name in ("Eq", "Ne") and isk(args[0]) and isk(args[1]):
        return K((args[0].a[0] == args[1].a[0]) == (name == "Eq"))
    if name == "Sub" and isk(args[1]) and type(args[1].a[0]) is int:
        return op("Add", args[0], K(-args[1].a[0]))
    if name == "Add":
        x, y = args
        if isk(x):
            x, y = y, x
        if isk(y) and type(y.a[0]) is int:
            if y.a[0] == 0:
                return x
            if x.k == "op" and x.a[0] == "Add" and isk(x.a[1][1]) \
                    and type(x.a[1][1].a[0]) is int:
                return op("Add", x.a[1][0], K(x.a[1][1].a[0] + y.a[0]))
            return mk("op", "Add", (x, y))
    if name == "Mul":
        x, y = args
        if isk(x):
            x, y = y, x
        if isk(y) and y.a[0] == 1:
            return x
        args = (x, y)
    if name in ("Gt", "Le") and not isk(args[1]):
        # canonical: a>b == b<a ; a<=b == b>=a
        return op("Lt" if name == "Gt" else "Ge", args[1], args[0])
    if name in ("Lt", "Le", "Gt", "Ge") and isk(args[0]) and not isk(args[1]):
        sw = {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}
        return op(sw[name], args[1], args[0])
    if isk(args[-1]) and type(args[-1].a[0]) is int:
        # canonical integer comparisons with a constant: use Le / Ge
        if name == "Lt" and len(args) == 2:
            return mk("op", "Le", (args[0], K(args[1].a[0] - 1)))
        if name == "Gt" and len(args) == 2:
            return mk("op", "Ge", (args[0], K(args[1].a[0] + 1)))
    if name in COMM and len(args) == 2:
        x, y = args
        if isk(x) and not isk(y):
            x, y = y, x
        elif isk(x) == isk(y) and show(x) > show(y):
            x, y = y, x
        args = (x, y)
    return mk("op", name, tuple(args))


def _fold(name, n):
    if name == "Add":
        return n[0] + n[1]
    if name == "Sub":
        return n[0] - n[1]
    if name == "Mul":
        return n[0] * n[1]
    if name == "Div":
        if n[1] == 0:
            return None
        q = abs(n[0]) // abs(n[1])
        return q if (n[0] < 0) == (n[1] < 0) else -q
    if name == "Rem":
        if n[1] == 0:
            return None
        r = abs(n[0]) % abs(n[1])
        return -r if n[0] < 0 else r
    if name == "BitAnd":
        return n[0] & n[1]
    if name == "BitOr":
        return n[0] | n[1]
    if name == "BitXor":
        return n[0] ^ n[1]
    if name == "Shl":
        return n[0] << n[1] if 0 <= n[1] < 128 else None
    if name == "Shr":
        return n[0] >> n[1] if 0 <= n[1] < 128 else None
    if name == "Eq":
        return n[0] == n[1]
    if name == "Ne":
        return n[0] != n[1]
    if name == "Lt":
        return n[0] < n[1]
    if name == "Le":
        return n[0] <= n[1]
    if name == "Gt":
        return n[0] > n[1]
    if name == "Ge":
        return n[0] >= n[1]
    if name == "Neg":
        return -n[0]
    if name == "Not":
        if n[0] in (0, 1):
            return 1 - n[0]
        return None
    if name == "min":
        return min(n)
    if name == "max":
        return max(n)
    return None


# ---------------------------------------------------------------- facts
# ("s", frozenset)  |  ("i", lo|None, hi|None, frozenset excluded)
TOP = ("i", None, None, frozenset())


def f_set(*xs):
    return ("s", frozenset(xs))


def f_ge(c):
    return ("i", c, None, frozenset())


def f_le(c):
    return ("i", None, c, frozenset())


def f_ne(c):
    return ("i", None, None, frozenset((c,)))


def f_has(f, c):
    if f[0] == "s":
        return c in f[1]
    if c in f[3]:
        return False
    if type(c) is not int:
        return True
    return (f[1] is None or c >= f[1]) and (f[2] is None or c <= f[2])


def f_norm(f):
    if f[0] == "s":
        return f if f[1] else None
    _, lo, hi, ne = f
    ne = set(ne)
    while lo is not None and lo in ne:
        ne.discard(lo)
        lo += 1
    while hi is not None and hi in ne:
        ne.discard(hi)
        hi -= 1
    if lo is not None and hi is not None:
        if lo > hi:
            return None
        if hi - lo <= 64:
            s = frozenset(x for x in range(lo, hi + 1) if x not in ne)
            return ("s", s) if s else None
    ne = frozenset(x for x in ne if type(x) is not int or
                   ((lo is None or x > lo) and (hi is None or x < hi)))
    return ("i", lo, hi, ne)


def f_meet(a, b):
    if a[0] == "s":
        return f_norm(("s", frozenset(x for x in a[1] if f_has(b, x))))
    if b[0] == "s":
        return f_meet(b, a)
    lo = a[1] if b[1] is None else (b[1] if a[1] is None else max(a[1], b[1]))
    hi = a[2] if b[2] is None else (b[2] if a[2] is None else min(a[2], b[2]))
    return f_norm(("i", lo, hi, a[3] | b[3]))


def f_hull(a, b):
    """Join (over-approximation)."""
    if a[0] == "s" and b[0] == "s":
        return ("s", a[1] | b[1])
    alo, ahi = f_lohi(a)
    blo, bhi = f_lohi(b)
    lo = None if alo is None or blo is None else min(alo, blo)
    hi = None if ahi is None or bhi is None else max(ahi, bhi)
    ne = frozenset(x for x in (a[3] if a[0] == "i" else ()) if not f_has(b, x)) \
        | frozenset(x for x in (b[3] if b[0] == "i" else ()) if not f_has(a, x))
    return f_norm(("i", lo, hi, ne)) or TOP


def f_lohi(f):
    if f[0] == "s":
        xs = [x for x in f[1]]
        if any(type(x) is not int for x in xs):
            return None, None
        return min(xs), max(xs)
    return f[1], f[2]


def f_sub(a, b):
    """a subset of b?"""
    if a[0] == "s":
        return all(f_has(b, x) for x in a[1])
    if b[0] == "s":
        return False
    if b[1] is not None and (a[1] is None or a[1] < b[1]):
        return False
    if b[2] is not None and (a[2] is None or a[2] > b[2]):
        return False
    return all(not f_has(a, x) for x in b[3])


def f_single(f):
    if f is not None and f[0] == "s" and len(f[1]) == 1:
        return next(iter(f[1]))
    return None


def f_str(f):
    if f[0] == "s":
        return "{%s}" % ",".join(map(str, sorted(f[1], key=str)))
    s = "[%s,%s]" % ("-" if f[1] is None else f[1], "-" if f[2] is None else f[2])
    if f[3]:
        s += "\\{%s}" % ",".join(map(str, sorted(f[3], key=str)))
    return s

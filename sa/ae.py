"""Path-sensitive abstract interpreter over dumped MIR (property simulation).

Domain: a value-graph (value numbering) store, plus facts that bound symbolic
values by finite sets / intervals.  Branches whose condition is decided by the
facts follow one edge; others fork and record the fact.  Equal states at a
program point are merged; loops are widened by difference against the state at
the loop head until a fixpoint.  A policy object observes calls and writes and
drives a specification automaton kept in `State.auto`.
"""
from .val import *
from .prog import norm

CONVERT = ("std::convert::Into::into", "std::convert::From::from")
MAXDEPTH = 40


class Budget(Exception):
    pass


def karr(v):
    return v.k == "agg" and v.a[0] == "array" and all(map(isk, v.a[4]))


class Frame:
    __slots__ = ("fn", "dest", "target", "subst", "site", "caller_line")

    def __init__(self, fn, dest, target, subst, site, line):
        self.fn = fn
        self.dest = dest      # lvalue (root, path) receiving the result
        self.target = target  # block to continue at in the caller
        self.subst = subst
        self.site = site
        self.caller_line = line


class State:
    __slots__ = ("store", "facts", "frames", "block", "auto", "loops", "trace",
                 "evs")

    def __init__(self):
        self.store = {}
        self.facts = {}
        self.frames = ()
        self.block = 0
        self.auto = None
        self.loops = ()
        self.trace = ()
        self.evs = ()

    def copy(self):
        s = State.__new__(State)
        s.store = dict(self.store)
        s.facts = dict(self.facts)
        s.frames = self.frames
        s.block = self.block
        s.auto = self.auto
        s.loops = self.loops
        s.trace = self.trace
        s.evs = self.evs
        return s

    @property
    def depth(self):
        return len(self.frames)

    # --------------------------------------------------------- facts
    def rng(self, v):
        k = v.k
        if k == "k":
            return ("s", frozenset((v.a[0],)))
        f = self.facts.get(v)
        d = self._derived(v)
        if d is not None:
            f = d if f is None else (f_meet(f, d) or f)
        return f or TOP

    def _derived(self, v):
        k = v.k
        if k == "op":
            o, args = v.a
            if o == "Add" and isk(args[1]) and type(args[1].a[0]) is int:
                f = self.rng(args[0])
                c = args[1].a[0]
                if f[0] == "s":
                    if all(type(x) is int for x in f[1]):
                        return ("s", frozenset(x + c for x in f[1]))
                    return None
                return ("i", None if f[1] is None else f[1] + c,
                        None if f[2] is None else f[2] + c,
                        frozenset(x + c for x in f[3] if type(x) is int))
            if o in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "And", "Or"):
                r = self.decide(v)
                return f_set(0, 1) if r is None else f_set(int(r))
            if o == "BitAnd" and isk(args[1]) and type(args[1].a[0]) is int \
                    and args[1].a[0] >= 0:
                return ("i", 0, args[1].a[0], frozenset())
            if o in ("min", "max"):
                a, b = f_lohi(self.rng(args[0])), f_lohi(self.rng(args[1]))
                if o == "min":
                    his = [x for x in (a[1], b[1]) if x is not None]
                    lo = None if None in (a[0], b[0]) else min(a[0], b[0])
                    return ("i", lo, min(his) if his else None, frozenset())
                los = [x for x in (a[0], b[0]) if x is not None]
                hi = None if None in (a[1], b[1]) else max(a[1], b[1])
                return ("i", max(los) if los else None, hi, frozenset())
        elif k == "discr" and v.a[1]:
            return ("s", v.a[1])
        elif k == "proj" and v.a[1] == ".1" and v.a[0].k == "op":
            return f_set(0, 1)
        elif k == "cast":
            to = v.a[0]
            if to in UBITS:
                return ("i", 0, (1 << UBITS[to]) - 1, frozenset())
        return None

    def restrict(self, v, f):
        """Meet the fact of v with f, in place; False if contradictory."""
        if v.k == "k":
            return f_has(f, v.a[0])
        if v.k == "op" and v.a[0] == "Add" and isk(v.a[1][1]) \
                and type(v.a[1][1].a[0]) is int:
            c = v.a[1][1].a[0]
            if f[0] == "s":
                if all(type(x) is int for x in f[1]):
                    return self.restrict(v.a[1][0], (
                        "s", frozenset(x - c for x in f[1])))
            else:
                return self.restrict(v.a[1][0], (
                    "i", None if f[1] is None else f[1] - c,
                    None if f[2] is None else f[2] - c,
                    frozenset(x - c for x in f[3] if type(x) is int)))
        r = f_meet(self.rng(v), f)
        if r is None:
            return False
        if r != TOP:
            self.facts[v] = r
        return True

    def decide(self, v):
        k = v.k
        if k == "k":
            return bool(v.a[0])
        if k == "op":
            o, args = v.a
            if o == "Not":
                r = self.decide(args[0])
                return None if r is None else not r
            if o == "And":
                a, b = self.decide(args[0]), self.decide(args[1])
                if a is False or b is False:
                    return False
                return True if a and b else None
            if o == "Or":
                a, b = self.decide(args[0]), self.decide(args[1])
                if a or b:
                    return True
                return False if a is False and b is False else None
            if o in ("Eq", "Ne"):
                a, b = args
                r = None
                if isk(b):
                    if a.k == "op" and b.a[0] in (0, 1) and \
                            a.a[0] in BOOLOPS:
                        d = self.decide(a)
                        if d is not None:
                            r = d == bool(b.a[0])
                    if r is None:
                        f = self.rng(a)
                        if not f_has(f, b.a[0]):
                            r = False
                        elif f_single(f) is not None:
                            r = True
                    if r is None and a.k == "agg" and b.k == "agg":
                        pass
                else:
                    f = self.facts.get(op("Eq", a, b))
                    s = f_single(f) if f else None
                    if s is not None:
                        r = bool(s)
                    else:
                        fa, fb = self.rng(a), self.rng(b)
                        sa, sb = f_single(fa), f_single(fb)
                        if sa is not None and sb is not None:
                            r = sa == sb
                        elif fa[0] == "s" and fb[0] == "s" and \
                                not (fa[1] & fb[1]):
                            r = False
                        elif a.k == "agg" and b.k == "agg" and \
                                a.a[0] == b.a[0] == "adt" and a.a[2] != b.a[2]:
                            r = False
                        elif a.k == "agg" and b.k == "agg" and \
                                a.a[:4] == b.a[:4]:
                            rs = [self.decide(op("Eq", x, y))
                                  for x, y in zip(a.a[4], b.a[4])]
                            if any(x is False for x in rs):
                                r = False
                            elif all(rs):
                                r = True
                if r is None:
                    return None
                return r if o == "Eq" else not r
            if o in ("Lt", "Ge", "Le", "Gt"):
                a, b = args
                la, ha = f_lohi(self.rng(a))
                lb, hb = f_lohi(self.rng(b))
                if o in ("Lt", "Ge"):
                    r = None
                    if ha is not None and lb is not None and ha < lb:
                        r = True
                    elif la is not None and hb is not None and la >= hb:
                        r = False
                    elif not isk(b):
                        f = self.facts.get(mk("op", "Lt", (a, b)))
                        s = f_single(f) if f else None
                        if s is not None:
                            r = bool(s)
                        else:
                            f = self.facts.get(mk("op", "Lt", (b, a)))
                            if f and f_single(f) == 1:
                                r = False
                    return None if r is None else (r if o == "Lt" else not r)
                r = None
                if ha is not None and lb is not None and ha <= lb:
                    r = True
                elif la is not None and hb is not None and la > hb:
                    r = False
                return None if r is None else (r if o == "Le" else not r)
        f = self.facts.get(v)
        if f is not None:
            if not f_has(f, 0):
                return True
            if f_single(f) == 0:
                return False
        return None

    def assume(self, v, t):
        """Yield states in which boolean v has truth value t."""
        d = self.decide(v)
        if d is not None:
            if d == t:
                yield self
            return
        if v.k == "op":
            o, args = v.a
            if o == "Not":
                yield from self.assume(args[0], not t)
                return
            if o in ("And", "Or"):
                a, b = args
                if (o == "And") == t:
                    for s in self.copy().assume(a, t):
                        yield from s.assume(b, t)
                else:
                    for s in self.copy().assume(a, t):
                        yield s
                    for s in self.copy().assume(a, not t):
                        yield from s.assume(b, t)
                return
            if o == "Ne":
                yield from self.assume(op("Eq", *args), not t)
                return
            if o == "Eq":
                a, b = args
                if isk(b):
                    c = b.a[0]
                    if a.k == "op" and c in (0, 1) and a.a[0] in BOOLOPS:
                        yield from self.assume(a, bool(c) == t)
                        return
                    s = self.copy()
                    if s.restrict(a, f_set(c) if t else f_ne(c)):
                        yield s
                    return
                s = self.copy()
                s.facts[v] = f_set(int(t))
                if t:
                    # propagate a known singleton
                    fa, fb = s.rng(a), s.rng(b)
                    if not s.restrict(a, fb) or not s.restrict(b, fa):
                        return
                yield s
                return
            if o in ("Le", "Ge", "Lt", "Gt") and isk(args[1]) and \
                    type(args[1].a[0]) is int:
                c = args[1].a[0]
                if o == "Lt":
                    f = f_le(c - 1) if t else f_ge(c)
                elif o == "Le":
                    f = f_le(c) if t else f_ge(c + 1)
                elif o == "Ge":
                    f = f_ge(c) if t else f_le(c - 1)
                else:
                    f = f_ge(c + 1) if t else f_le(c)
                s = self.copy()
                if s.restrict(args[0], f):
                    yield s
                return
            if o == "Ge":
                yield from self.assume(mk("op", "Lt", args), not t)
                return
            if o == "Lt":
                s = self.copy()
                a, b = args
                s.facts[v] = f_set(int(t))
                la, ha = f_lohi(s.rng(a))
                lb, hb = f_lohi(s.rng(b))
                okk = True
                if t:
                    if hb is not None:
                        okk &= s.restrict(a, f_le(hb - 1))
                    if la is not None:
                        okk &= s.restrict(b, f_ge(la + 1))
                else:
                    if lb is not None:
                        okk &= s.restrict(a, f_ge(lb))
                    if ha is not None:
                        okk &= s.restrict(b, f_le(ha))
                if okk:
                    yield s
                return
        s = self.copy()
        if s.restrict(v, f_set(1) if t else f_set(0)):
            yield s

    # --------------------------------------------------------- memory
    def root(self, r):
        v = self.store.get(r)
        if v is None:
            if r[0] == "X":
                return proj(r[1], "*")
            if r[0] == "C":
                return r[1]
            return UNINIT
        return v

    def load(self, lv):
        r, p = lv
        v = self.root(r)
        for e in p:
            v = proj(v, e)
        return v

    def put(self, lv, val):
        r, p = lv
        if not p:
            self.store[r] = val
        else:
            self.store[r] = upd(self.root(r), p, val)

    def deref(self, v):
        """lvalue a pointer value designates."""
        while v.k == "cast" and v.a[0] == "ptr":
            v = v.a[1]
        if v.k == "ref":
            return (v.a[0], v.a[1])
        return (("X", v), ())


UBITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64}
BOOLOPS = {"Eq", "Ne", "Lt", "Le", "Gt", "Ge", "And", "Or", "Not"}


class Outcome:
    def __init__(self, kind, st, ret=None, info=None):
        self.kind = kind
        self.st = st
        self.ret = ret
        self.info = info


class Policy:
    """Override the hooks needed by a property."""
    max_steps = 400000
    max_unroll = 300
    recurse = 0             # re-entries of a function on the stack
    collect_panics = False
    prune = False           # drop facts that can no longer matter
    relevant = None         # keep only facts over these names at joins
    merge_on = True
    base_facts = {}
    hold = False
    blur = None             # (ae, st, fn, stmt, value) -> coarser value

    def inline(self, ae, st, fn):
        return True

    def call(self, ae, st, name, rname, rec, args, site, line):
        """None for default handling, or a list of (state, value)."""
        return None

    def write(self, ae, st, lv, val, fn, line):
        pass

    def drop(self, ae, st, lv, tid, fn, line):
        pass

    def ret(self, ae, st, val):
        pass

    def auto_names(self, auto):
        return frozenset()

    def fact_keep(self, v, an):
        return bool(names(v) & an)


class AE:
    def __init__(self, crate, policy=None):
        self.c = crate
        self.pol = policy or Policy()
        self.steps = 0
        self._sub = []
        self.blocks_seen = set()
        self.fns_seen = set()
        self.calls_opaque = {}
        self.reflen = {}
        self._cv = {}
        self._rn = {}
        self._vd = {}
        self.forks = 0
        self.states = 0

    # ------------------------------------------------------------ constants
    def _static(self, name):
        """Value of a small immutable static."""
        k = ("static", name)
        if k not in self._cv:
            v = None
            d = self.c.statics.get(name)
            if d is not None and not d["mut"] and d.get("freeze") and \
                    isinstance(d.get("val"), list) and \
                    len(d["val"]) <= getattr(self.pol, "static_max", 64):
                v = self.const_val(d["val"])
            elif d is not None and getattr(self.pol, "static_refs", False) \
                    and not d["mut"] and isinstance(d.get("val"), dict) and \
                    set(d["val"]) == {"ref"}:
                v = self.const_val(d["val"])
            self._cv[k] = v
        return self._cv[k]

    def const_val(self, x):
        """JSON constant -> V."""
        if x is None:
            return None
        if isinstance(x, bool):
            return K(int(x))
        if isinstance(x, int):
            return K(x)
        if isinstance(x, list):
            vs = [self.const_val(y) for y in x]
            if any(v is None for v in vs):
                return None
            return agg("array", None, None, (), vs)
        if isinstance(x, dict):
            if "str" in x:
                return K(x["str"])
            if "ch" in x:
                return K(x["ch"])
            if "ref" in x:
                v = self.const_val(x["ref"])
                if v is None:
                    return None
                if isk(v) and type(v.a[0]) is str:
                    return mk("ref", ("C", v), (), 0)
                return mk("ref", ("C", v), (), 0)
            if "tup" in x:
                vs = [self.const_val(y) for y in x["tup"]]
                if any(v is None for v in vs):
                    return None
                return tup(*vs)
            if "adt" in x:
                fs = x["f"]
                vs = [self.const_val(y) for y in fs.values()]
                if any(v is None for v in vs):
                    return None
                return agg("adt", x["adt"], x.get("v"),
                           tuple("." + k for k in fs), vs)
            if "fn" in x:
                return mk("fn", x.get("key"), norm(x["fn"]), x.get("link"))
            if "f" in x:
                return K(("f", x["f"]))
            if "static" in x:
                cv = self._static(x["static"])
                if cv is not None:
                    return mk("ref", ("C", cv), (), 0)
                return mk("ref", ("C", sym("static:" + norm(x["static"]))), (), 0)
            if "union" in x:
                return sym("union:" + x["union"])
            if "vtable" in x:
                return sym("vtable:" + x["vtable"])
        return None

    def konst(self, o):
        k = id(o)
        r = self._cv.get(k)
        if r is not None:
            return r[1]
        t = o[0]
        v = None
        if t == "fn":
            rec = o[1]
            v = mk("fn", rec.get("rkey") or rec["key"], norm(rec["p"]), id(rec))
            self._vd[v] = rec
        elif t == "k":
            v = self.const_val(o[2])
        elif t == "kd":
            v = self.const_val(o[2])
            d = self.c.consts.get(o[3]) if v is None else None
            if d is not None:
                v = self.const_val(d.get("val"))
            if v is None:
                v = sym("const:" + norm(o[3]))
        elif t == "pr":
            v = self.const_val(o[2])
            if v is None and len(o) > 4 and o[4]:
                v = self.promoted(o[4])
            if v is None and o[3] and len(o[3]) == 1:
                d = self.c.consts.get(o[3][0])
                t1 = self.c.types[o[1]]
                if d is not None and t1["k"] == "ref" and t1["e"] == d["ty"]:
                    cv = self.const_val(d.get("val"))
                    if cv is not None:
                        v = mk("ref", ("C", cv), (), 0)
            if v is None:
                v = mk("ref", ("C", sym("const:" + "+".join(
                    norm(x) for x in o[3]) if o[3] else "promoted:%d" % id(o))),
                    (), 0)
        elif t == "ku":
            n = getattr(self.pol, "cparam", {}).get(str(o[2]))
            v = sym("cst:" + str(o[2])) if n is None else K(n)
        elif t == "rc":
            v = K(0)
        if v is None:
            ts = self.c.tystr(o[1]) if len(o) > 1 else "?"
            if ts == "()":
                v = UNIT
            else:
                v = sym("konst:%s:%d" % (ts, id(o)))
        if v.k == "k" and v.a[0] == 0 and len(o) > 1 and type(o[1]) is int and \
                t != "rc":
            ty = self.c.types[o[1]]
            if ty["k"] == "adt" and ty["p"] == "std::option::Option":
                v = NONE
        self._cv[k] = (o, v)
        return v

    def promoted(self, body):
        """Value of a promoted constant of a generic function."""
        st = State()
        st.frames = (None,)
        for pl, rv in body:
            v = self.rvalue(st, None, rv, None)
            if len(pl) == 1:
                st.store[("L", 1, pl[0])] = v
            else:
                st.put(self.lval(st, pl), v)

        def res(v, n=0):
            if v.k == "ref" and v.a[0][0] == "L" and n < 6:
                return mk("ref", ("C", res(st.load((v.a[0], v.a[1])), n + 1)),
                          (), 0)
            if v.k == "agg" and n < 6:
                return mk("agg", *v.a[:4],
                          tuple(res(x, n + 1) for x in v.a[4]))
            return v
        r = st.store.get(("L", 1, 0))
        return res(r) if r is not None else None

    # ------------------------------------------------------------ places
    def lval(self, st, pl):
        d = len(st.frames)
        r = ("L", d, pl[0])
        p = ()
        for e in pl[1:]:
            if e == "*":
                v = st.load((r, p))
                r, p = st.deref(v)
            elif type(e) is list:
                if e[0] == "i":
                    p = index(p, st.root(("L", d, e[1])))
                else:
                    p = p + (tuple(e),)
            else:
                p = p + (e,)
        return r, p

    def operand(self, st, o):
        t = o[0]
        if t == "p" or t == "m":
            pl = o[1]
            if len(pl) == 1:
                return st.root(("L", len(st.frames), pl[0]))
            return st.load(self.lval(st, pl))
        return self.konst(o)

    def rvalue(self, st, fn, rv, dty):
        k = rv[0]
        if k == "use":
            return self.operand(st, rv[1])
        if k == "ref" or k == "raw":
            lv = self.lval(st, rv[2])
            # &*p where p is symbolic: keep the pointer value itself
            if not lv[1] and lv[0][0] == "X" and not rv[1]:
                return lv[0][1]
            return mk("ref", lv[0], lv[1], rv[1])
        if k == "bin":
            o = rv[1]
            a, b = self.operand(st, rv[2]), self.operand(st, rv[3])
            if o.endswith("WithOverflow"):
                return tup(op(o[:-12], a, b), K(0))
            ty = self.c.types[rv[4]]
            if ty["k"] == "bool" and o in ("BitAnd", "BitOr"):
                return self.boolop("And" if o == "BitAnd" else "Or", a, b)
            if ty["k"] == "adt":
                return op(o, a, b)
            r = op(o, a, b)
            if isk(r) and ty["k"] in ("uint", "int") and \
                    type(r.a[0]) is int and o not in BOOLOPS:
                r = K(wrap(r.a[0], ty))
            return r
        if k == "un":
            a = self.operand(st, rv[2])
            if rv[1] == "PtrMetadata":
                return self.length(st, a)
            ty = self.c.types[rv[3]]
            if rv[1] == "Not" and ty["k"] != "bool":
                if isk(a) and type(a.a[0]) is int:
                    return K(wrap(~a.a[0], ty))
                return mk("op", "BitNot", (a,))
            return op(rv[1], a)
        if k == "cast":
            return self.cast(st, rv, self.operand(st, rv[2]))
        if k == "discr":
            return self.discr(st.load(self.lval(st, rv[1])), rv[2])
        if k == "agg":
            vs = [self.operand(st, o) for o in rv[3]]
            kind = rv[1]
            if kind == "adt":
                p, var, fields = rv[2]
                if len(fields) != len(vs):
                    return sym("union-agg")
                return agg("adt", p, var, tuple("." + f for f in fields), vs)
            if kind == "tuple":
                return tup(*vs)
            if kind == "array":
                return agg("array", None, None, (), vs)
            if kind == "closure":
                return agg("closure", rv[2], None,
                           tuple("." + str(i) for i in range(len(vs))), vs)
            return agg(kind, None, None,
                       tuple("." + str(i) for i in range(len(vs))), vs)
        if k == "rep":
            v = self.operand(st, rv[1])
            if type(rv[2]) is int and rv[2] <= 16:
                return agg("array", None, None, (), [v] * rv[2])
            return mk("rep", v, rv[2])
        if k == "tls":
            return mk("ref", ("C", sym("tls:" + rv[1])), (), 0)
        return sym("rv:" + k)

    def boolop(self, o, a, b):
        if isk(a):
            if o == "And":
                return b if a.a[0] else FALSE
            return TRUE if a.a[0] else b
        if isk(b):
            return self.boolop(o, b, a)
        if a is b:
            return a
        if show(a) > show(b):
            a, b = b, a
        return mk("op", o, (a, b))

    def length(self, st, a):
        if a in self.reflen:
            return K(self.reflen[a])
        if a.k == "ref":
            if a.a[1] and type(a.a[1][-1]) is tuple and \
                    a.a[1][-1][0] == "sl":
                s, e = sl_bounds(a.a[1][-1][1])
                if s is not None and isk(s):
                    if e is None:
                        e = self.length(st, mk("ref", a.a[0], a.a[1][:-1],
                                               a.a[2]))
                    if isk(e):
                        return K(max(0, e.a[0] - s.a[0]))
            v = st.load((a.a[0], a.a[1]))
            if v.k == "agg" and v.a[0] == "array":
                return K(len(v.a[4]))
            if v.k == "k" and type(v.a[0]) is str:
                return K(len(v.a[0]))
            if v.k == "rep" and type(v.a[1]) is int:
                return K(v.a[1])
            return mk("call", "len", (v,))
        v = proj(a, "*")
        if v.k == "agg" and v.a[0] == "array":
            return K(len(v.a[4]))
        return mk("call", "len", (v,))

    def variants(self, tid):
        t = self.c.types[tid]
        if t["k"] == "adt":
            a = self.c.adts.get(t["p"])
            if a and a["k"] == "enum":
                return a
        return None

    def discr(self, v, tid):
        a = self.variants(tid)
        if v.k == "agg" and v.a[0] == "adt" and a:
            for nm, d, _ in a["variants"]:
                if nm == v.a[2]:
                    return K(d)
        if v.k == "st":
            for e, x in v.a[1]:
                if e == "@discr":
                    return x
        dom = None
        if a:
            dom = frozenset(d for _, d, _ in a["variants"])
        return mk("discr", v, dom)

    def variant_discr(self, adt_path, variant):
        a = self.c.adts[adt_path]
        for nm, d, _ in a["variants"]:
            if nm == variant:
                return d
        raise KeyError(variant)

    def cast(self, st, rv, v):
        kind, to, frm = rv[1], self.c.types[rv[3]], self.c.types[rv[4]]
        if kind == "IntToInt":
            if isk(v) and type(v.a[0]) is int:
                return K(wrap(v.a[0], to))
            fk, tk = frm["k"], to["k"]
            if fk in ("bool", "char"):
                return v
            if fk == "adt":
                return v
            fw, tw = frm.get("w", 8), to.get("w", 8)
            if tw >= 32 and LIN and (v.k == "lin" or v in LIN):
                return v        # frame numbers stay below 2^31
            if fk == "uint" and (tw > fw or (tk == "uint" and tw >= fw)):
                return v
            if fk == "int" and tk == "int" and tw >= fw:
                return v
            # in range by the facts?
            lo, hi = f_lohi(st.rng(v))
            if fk == "uint" and lo is None:
                lo = 0
            if lo is not None and hi is not None:
                tlo, thi = trange(to)
                if tlo <= lo and hi <= thi:
                    return v
            return mk("cast", to["s"], v)
        if kind in ("IntToFloat", "FloatToInt", "FloatToFloat"):
            return mk("cast", to["s"], v)
        if kind == "Unsize":
            e = frm.get("e")
            if e is not None:
                et = self.c.types[e]
                if et["k"] == "array" and "n" in et:
                    self.reflen[v] = et["n"]
            return v
        if kind in ("PtrToPtr", "MutToConstPointer", "ArrayToPointer",
                    "Subtype", "ReifyFnPointer(Safe)", "UnsafeFnPointer",
                    "ClosureFnPointer(Safe)") or kind.startswith("Reify") \
                or kind.startswith("ClosureFn"):
            return v
        if kind in ("Transmute", "BoxDerefTransmute"):
            if to["k"] in ("ref", "ptr") and frm["k"] in ("ref", "ptr", "adt"):
                return v
            return mk("cast", "transmute:" + to["s"], v)
        return mk("cast", kind, v)

    # ------------------------------------------------------------ running
    def start(self, fn, args=None, facts=None, auto=None, subst=None):
        st = State()
        fr = Frame(fn, None, None, subst or {}, (), 0)
        st.frames = (fr,)
        st.block = 0
        st.auto = auto
        st.trace = ()
        for i in range(1, fn.nargs + 1):
            v = None
            if args is not None and i - 1 < len(args):
                v = args[i - 1]
            if v is None:
                v = sym(fn.dbg_name(i) or "arg%d" % i)
            st.store[("L", 1, i)] = v
        if facts:
            for v, f in facts:
                st.restrict(v, f)
        return st

    def run(self, st0):
        """Explore to fixpoint; return the list of outcomes."""
        out = []
        self.seen = {}
        work = [st0]
        pol = self.pol
        while work:
            st = work.pop()
            while st is not None:
                self.steps += 1
                if self.steps > pol.max_steps:
                    raise Budget("abstract interpreter budget exceeded in %s"
                                 % st.frames[-1].fn.nname)
                nxt = self.step(st, out)
                if not nxt:
                    st = None
                else:
                    if len(nxt) > 1:
                        self.forks += 1
                    st = nxt[0]
                    work.extend(nxt[1:])
        return out

    def enter(self, st, frm, to):
        """Follow an edge in the current function; None if subsumed."""
        fn = st.frames[-1].fn
        st.block = to
        d = len(st.frames)
        live, taken = fn.live()
        li = live[to]
        dead = [r for r in st.store if r[0] == "L" and r[1] == d
                and r[2] not in li and r[2] not in taken]
        for r in dead:
            del st.store[r]
        L = fn.loops()
        if st.loops:
            # leaving loops
            keep = tuple(x for x in st.loops
                         if x[0] < d or (x[0] == d and to in L[x[1]]))
            if len(keep) != len(st.loops):
                st.loops = keep
        if to in L:
            if not self.loop_head(st, fn, d, frm, to, L[to]):
                return None
        if len(fn.pred()[to]) > 1:
            if self.pol.prune or self.pol.relevant is not None:
                self.prune(st)
            if not self.fresh(st):
                return None
        return st

    def fresh(self, st):
        if not self.pol.merge_on:
            return True
        ctx = (tuple((f.fn.key, f.site) for f in st.frames), st.block)
        key = (frozenset(st.store.items()), frozenset(st.facts.items()),
               st.auto, tuple((l[0], l[1]) for l in st.loops), st.evs)
        s = self.seen.setdefault(ctx, set())
        if key in s:
            return False
        s.add(key)
        self.states += 1
        return True

    def loop_head(self, st, fn, d, frm, to, body):
        ent = None
        for x in st.loops:
            if x[0] == d and x[1] == to:
                ent = x
        if ent is None or frm not in body:
            st.loops = tuple(x for x in st.loops if x is not ent) + (
                (d, to, {st.auto: self.snap(st)}, 0),)
            return True
        _, _, anchors, n = ent
        anc = anchors.get(st.auto)
        rest = tuple(x for x in st.loops if x is not ent)
        if anc is None:
            a2 = dict(anchors)
            a2[st.auto] = self.snap(st)
            if len(a2) > getattr(self.pol, "max_auto", 400):
                raise Budget("loop automaton states")
            st.loops = rest + ((d, to, a2, n + 1),)
            return True
        astore, afacts = anc
        diff = []
        for r, v in st.store.items():
            if astore.get(r) is not v:
                diff.append(r)
        if n < self.pol.max_unroll and diff and self.concrete(st, astore, diff, n):
            a2 = dict(anchors)
            a2[st.auto] = self.snap(st)
            st.loops = rest + ((d, to, a2, n + 1),)
            return True
        # widen by difference
        tag = (fn.key, to, d)
        ch = False
        for r in diff:
            old = astore.get(r)
            new = self.widen(old, st.store[r], tag + (r[1:] if r[0] == "L"
                                                      else rootstr(r),))
            st.store[r] = new
            if new is not old:
                ch = True
        for r in list(astore):
            if r not in st.store:
                # dropped on this path: unknown
                ch = ch or False
        nf = {}
        for v, f in afacts.items():
            g = st.rng(v)
            if f_sub(g, f):
                nf[v] = f
            else:
                ch = True

        def mine(h):
            return h.a[0] == "loop" and h.a[1:4] == tag
        nf = {v: f for v, f in nf.items() if not mentions_hv(v, mine)}
        st.facts = nf
        a2 = dict(anchors)
        a2[st.auto] = self.snap(st)
        st.loops = rest + ((d, to, a2, n + 1),)
        if not ch:
            return False
        if n > 60 + self.pol.max_unroll:
            raise Budget("loop does not stabilise in " + fn.nname)
        return True

    def concrete(self, st, astore, diff, n):
        """Is the loop driven by a concrete iterator / counter?"""
        for r in diff:
            v, o = st.store[r], astore.get(r)
            if o is None:
                continue
            if v.k == "agg" and o.k == "agg" and v.a[1] in ITERS and \
                    all(x.k in ("k", "ref", "agg", "sym", "proj") for x in v.a[4]) and \
                    isk(v.a[4][0]):
                if v.a[1] in ("iter", "enumerate", "list") or \
                        isk(v.a[4][1]):
                    return True
            if v.k == "agg" and o.k == "agg" and v.a[0] == "it" and \
                    _itpos(v) and _itpos(o) and _itpos(v) != _itpos(o):
                return True
        if n < getattr(self.pol, "count_unroll", 0) and any(
                isk(st.store[r]) and astore.get(r) is not None and
                isk(astore[r]) for r in diff):
            return True
        if n < 20:
            ks = [r for r in diff if astore.get(r) is not None]
            if ks and all(isk(st.store[r]) and isk(astore[r]) or
                          (karr(st.store[r]) and karr(astore[r]))
                          for r in ks):
                return True
        return False

    def widen(self, old, new, tag):
        if old is new:
            return new
        if old is not None:
            if old.k == "hv" and old.a[0] == "loop" and old.a[1:] == tag:
                return old
            if old.k == "agg" and new.k == "agg" and old.a[:4] == new.a[:4] \
                    and len(old.a[4]) == len(new.a[4]):
                vs = [self.widen(o, x, tag + (i,))
                      for i, (o, x) in enumerate(zip(old.a[4], new.a[4]))]
                return mk("agg", *new.a[:4], tuple(vs))
            if old.k == "st" or new.k == "st":
                bo = old.a[0] if old.k == "st" else old
                bn = new.a[0] if new.k == "st" else new
                if bo is bn:
                    oo = dict(old.a[1]) if old.k == "st" else {}
                    no = dict(new.a[1]) if new.k == "st" else {}
                    items = []
                    for e in set(oo) | set(no):
                        x = oo.get(e) or proj(bo, e)
                        y = no.get(e) or proj(bn, e)
                        items.append((e, self.widen(x, y, tag + (str(e),))))
                    items.sort(key=lambda t: str(t[0]))
                    return mk("st", bo, tuple(items))
        return mk("hv", "loop", *tag)

    def snap(self, st):
        return (dict(st.store), dict(st.facts))

    # facts that cannot matter any more -----------------------------------
    def rnames(self, fn):
        """block -> names read in blocks reachable from it (with callees)."""
        r = self._rn.get(fn.key)
        if r is not None:
            return r
        self._rn[fn.key] = [ALLN] * len(fn.bbs)   # recursion guard
        own = []
        for bb in fn.bbs:
            s = set()
            if bb is not None:
                collect_names(bb, s)
                t = bb[1]
                fs = []
                if t[0] == "call":
                    for o in [t[1]] + t[2]:
                        if o[0] == "fn":
                            for k in self.c.callees(o[1]):
                                fs.append(k)
                for x in bb[0]:
                    if x[0] == "=" and x[2][0] == "agg" and x[2][1] == "closure":
                        fs.append(x[2][2])
                for k in fs:
                    g = self.c.fns.get(k)
                    if g is not None and not g.is_ext:
                        x = self.rnames(g)[0]
                        if x is not ALLN:
                            s |= x
            own.append(s)
        inn = [frozenset(s) for s in own]
        ch = True
        while ch:
            ch = False
            for b in fn.rpo()[::-1]:
                n = set(own[b])
                for x in fn.succ(b):
                    n |= inn[x]
                if len(n) != len(inn[b]):
                    inn[b] = frozenset(n)
                    ch = True
        self._rn[fn.key] = inn
        return inn

    def prune(self, st):
        if not st.facts:
            return
        rel = self.pol.relevant
        if rel is not None:
            an = self.pol.auto_names(st.auto)
            if self.pol.hold:
                an = set(an)
                for r, x in st.store.items():
                    if r[0] == "L":
                        an |= self.pol.held_atoms(x)
            for v in [v for v in st.facts if not (names(v) & rel)]:
                if not an or not self.pol.fact_keep(v, an):
                    b = self.pol.base_facts.get(v)
                    if b is not None:
                        st.facts[v] = b
                    else:
                        del st.facts[v]
            return
        live = set(self.pol.auto_names(st.auto))
        live |= self.rnames(st.frames[-1].fn)[st.block]
        for i in range(len(st.frames) - 1, 0, -1):
            fr = st.frames[i]
            live |= self.rnames(st.frames[i - 1].fn)[fr.target] \
                if fr.target is not None and fr.target >= 0 else set()
        held = None
        dead = []
        for v in st.facts:
            n = names(v)
            if n and not (n & live) or (not n):
                if held is None:
                    held = set()
                    for x in st.store.values():
                        held.update(subterms(x))
                if v not in held and not any(
                        x in held for x in kids(v) if x.k not in ("k", "sym")):
                    dead.append(v)
        for v in dead:
            del st.facts[v]

    # ------------------------------------------------------------ step
    def step(self, st, out):
        fr = st.frames[-1]
        fn = fr.fn
        b = st.block
        self.blocks_seen.add((fn.key, b))
        self.fns_seen.add(fn.key)
        bb = fn.bbs[b]
        if bb is None:
            return []
        pol = self.pol
        d = len(st.frames)
        for s in bb[0]:
            k = s[0]
            if k == "=":
                v = self.rvalue(st, fn, s[2], s[4])
                if pol.blur is not None:
                    v = pol.blur(self, st, fn, s, v)
                pl = s[1]
                if len(pl) == 1:
                    st.store[("L", d, pl[0])] = v
                else:
                    lv = self.lval(st, pl)
                    pol.write(self, st, lv, v, fn, s[3])
                    st.put(lv, v)
            elif k == "dead":
                st.store.pop(("L", d, s[1]), None)
            elif k == "sd":
                lv = self.lval(st, s[1])
                st.put((lv[0], lv[1] + ("@discr",)), sym("variant:" + s[2]))
            elif k == "assume":
                nx = list(st.assume(self.operand(st, s[1]), True))
                if not nx:
                    return []
                st = nx[0]
        t = bb[1]
        k = t[0]
        if k == "goto":
            s = self.enter(st, b, t[1])
            return [s] if s else []
        if k == "switch":
            return self.switch(st, fn, b, t)
        if k == "call":
            return self.do_call(st, fn, b, t, out)
        if k == "ret":
            v = st.root(("L", d, 0))
            if d == 1:
                self.pol.ret(self, st, v)
                out.append(Outcome("ret", st, v))
                return []
            return self.do_ret(st, v)
        if k == "drop":
            pol.drop(self, st, self.lval(st, t[1]), t[3], fn, t[4])
            s = self.enter(st, b, t[2])
            return [s] if s else []
        if k == "assert":
            c = self.operand(st, t[1])
            r = []
            for s in st.assume(c, bool(t[2])):
                s = self.enter(s, b, t[4])
                if s:
                    r.append(s)
            if pol.collect_panics and st.decide(c) is not bool(t[2]):
                out.append(Outcome("panic", st, None, ("assert:" + t[3], fn, t[5])))
            return r
        if k == "unreachable" or k == "resume":
            return []
        if k == "asm":
            r = []
            for x in t[1]:
                s = self.enter(st.copy(), b, x)
                if s:
                    r.append(s)
            return r
        return []

    def switch(self, st, fn, b, t):
        v = self.operand(st, t[1])
        r = []
        if v.k == "sym" and v.a[0].startswith("variant:"):
            v = v
        targets = t[2]
        ty = self.c.types[t[4]]
        if ty["k"] == "bool" and len(targets) == 1:
            val, bf = targets[0]
            bt = t[3]
            dcd = st.decide(v)
            if dcd is not None:
                s = self.enter(st, b, bt if dcd != bool(val) else bf)
                return [s] if s else []
            for tr in (False, True):
                for s in st.copy().assume(v, tr):
                    s2 = s.copy()
                    s2 = self.enter(s2, b, bf if tr == bool(val) else bt)
                    if s2:
                        r.append(s2)
            return r
        other = TOP
        for val, tb in targets:
            for s in st.copy().assume(op("Eq", v, K(val)), True):
                s2 = self.enter(s.copy(), b, tb)
                if s2:
                    r.append(s2)
        s = st.copy()
        if s.restrict(v, ("i", None, None, frozenset(x[0] for x in targets))):
            if fn.bbs[t[3]] is not None and fn.bbs[t[3]][1][0] != "unreachable":
                s2 = self.enter(s, b, t[3])
                if s2:
                    r.append(s2)
        return r

    def do_ret(self, st, v):
        fr = st.frames[-1]
        d = len(st.frames)
        caller = st.frames[-2]
        frm = fr.site[1]
        for r in [r for r in st.store if r[0] == "L" and r[1] == d]:
            del st.store[r]
        st.loops = tuple(x for x in st.loops if x[0] < d)
        st.frames = st.frames[:-1]
        return self.finish(st, frm, fr.dest, fr.target, v, fr.caller_line)

    def finish(self, st, frm, dest, target, v, line=0):
        """Deliver a call result in the (now current) caller frame."""
        if target == SUB:
            self._sub.append((st, v))
            return []
        if target < 0:
            return []
        d = len(st.frames)
        if len(dest) == 1:
            st.store[("L", d, dest[0])] = v
        else:
            lv = self.lval(st, dest)
            self.pol.write(self, st, lv, v, st.frames[-1].fn, line)
            st.put(lv, v)
        s = self.enter(st, frm, target)
        return [s] if s else []

    # ------------------------------------------------------------ calls
    def do_call(self, st, fn, b, t, out):
        f = t[1]
        args = [self.operand(st, o) for o in t[2]]
        rec = None
        if f[0] == "fn":
            rec = f[1]
        else:
            fv = self.operand(st, f)
            if fv.k == "fn":
                rec = self._vd.get(fv) or {"p": fv.a[1], "key": fv.a[0] or "",
                                           "a": [], "ik": "item",
                                           "link": fv.a[2]}
            else:
                rec = {"p": "<fnptr>", "key": "", "a": [], "ik": "ptr",
                       "fv": fv}
        return self.call(st, fn, b, rec, args, t[3], t[4], t[5], out, t[2],
                         t[6])

    def resolve(self, st, rec):
        """Callee record -> Fn with body or None."""
        ik = rec.get("ik")
        k = rec.get("rkey") or rec["key"]
        if ik in ("unresolved", "virtual", "shim") and rec.get("tr"):
            sub = st.frames[-1].subst
            if rec["a"] and type(rec["a"][0]) is int:
                tid = rec["a"][0]
                t = self.c.types[tid]
                n = 0
                while t["k"] == "param" and t["p"] in sub and n < 8:
                    tid = sub[t["p"]]
                    if type(tid) is not int:
                        break
                    t = self.c.types[tid]
                    n += 1
                if type(tid) is int and t["k"] != "param":
                    for sid, key in self.c.impls_of(rec["p"]) or \
                            self.c.impls_of(norm(rec["p"])):
                        if sid == tid or self.tmatch(sid, tid):
                            return self.c.fns.get(key)
            c = self.c.callees(rec)
            if len(c) == 1:
                return self.c.fns.get(c[0])
            return None
        return self.c.fns.get(k)

    def home(self, st, g):
        """Substitution of the frame a closure was written in."""
        for fr in reversed(st.frames):
            if g.key.startswith(fr.fn.key + "::{closure"):
                return fr.subst
        return st.frames[-1].subst

    def ctor(self, name, args):
        """A tuple-variant or tuple-struct constructor used as a function."""
        h, _, v = name.rpartition("::")
        if h.endswith(("prelude::v1", "option::Option", "result::Result")):
            if v == "Some" and len(args) == 1:
                return some(args[0])
            if v in ("Ok", "Err") and len(args) == 1:
                return ok(args[0]) if v == "Ok" else err(args[0])
        d = self.c.adts.get(h)
        if d is not None:
            for x in d["variants"]:
                n = x[0] if isinstance(x, (list, tuple)) else x["name"]
                if n == v:
                    return agg("adt", d["adt"], v, tuple(
                        ".%d" % i for i in range(len(args))), tuple(args))
        return None

    def styp(self, st, tid):
        """Type id under the frame's substitution (top level parameters)."""
        sub = st.frames[-1].subst
        n = 0
        while type(tid) is int and self.c.types[tid]["k"] == "param" and \
                self.c.types[tid]["p"] in sub and n < 8:
            nx = sub[self.c.types[tid]["p"]]
            if nx == tid:
                break
            tid = nx
            n += 1
        return tid

    def unify(self, pat, tid, sub, st):
        if type(pat) is not int or type(tid) is not int:
            return pat == tid
        tid = self.styp(st, tid)
        a, b = self.c.types[pat], self.c.types[tid]
        if a["k"] == "param":
            if a["p"] in sub:
                return self.c.tystr(sub[a["p"]]) == self.c.tystr(tid)
            sub[a["p"]] = tid
            return True
        if pat == tid:
            return True
        if a["k"] != b["k"]:
            return False
        if a["k"] == "adt":
            x, y = a.get("a") or [], b.get("a") or []
            return a["p"] == b["p"] and len(x) == len(y) and all(
                self.unify(i, j, sub, st) for i, j in zip(x, y))
        if a["k"] in ("ref", "ptr", "slice"):
            return self.unify(a["e"], b["e"], sub, st)
        return self.c.tystr(pat) == self.c.tystr(tid)

    def convert(self, st, rec, name):
        """Into/From: True for the identity, (fn, subst) for a local impl."""
        a = [x for x in rec.get("a") or [] if type(x) is int]
        if len(a) < 2:
            return None
        src, dst = (a[0], a[1]) if name.endswith("into") else (a[1], a[0])
        src, dst = self.styp(st, src), self.styp(st, dst)
        if self.c.types[src]["k"] == "param" or \
                self.c.types[dst]["k"] == "param":
            return None
        if self.c.tystr(src) == self.c.tystr(dst):
            return True
        fr = self.c.__dict__.get("_from_fns")
        if fr is None:
            fr = self.c._from_fns = [
                f for f in self.c.fns.values() if f.nargs == 1 and
                "convert::From<" in f.name and f.name.endswith("::from")
                and not f.is_ext]
        hit = []
        for f in fr:
            sub = {}
            if self.unify(f.locals[1], src, sub, st) and \
                    self.unify(f.locals[0], dst, sub, st):
                hit.append((f, sub))
        return hit[0] if len(hit) == 1 else None

    def tmatch(self, pat, tid):
        a, b = self.c.types[pat], self.c.types[tid]
        return a["k"] == "adt" and b["k"] == "adt" and a["p"] == b["p"]

    def call(self, st, fn, b, rec, args, dest, target, line, out, raw=None,
             dty=None):
        name = norm(rec["p"])
        rname = norm(rec.get("rp") or rec["p"])
        site = (fn.key, b)
        pol = self.pol
        r = pol.call(self, st, name, rname, rec, args, site, line)
        if r is not None:
            res = []
            for s, v in r:
                if v is DIVERGE:
                    if pol.collect_panics:
                        out.append(Outcome("panic", s, None, (name, fn, line)))
                    continue
                res.extend(self.finish(s, b, dest, target, v, line))
            return res
        rk = name.rsplit("::", 2)[-2:]
        rk = "::".join(rk)
        if rk in RUNS and len(args) > RUNS[rk]:
            # runs its closure argument exactly once and returns its result
            return self.call(st, fn, b, {"p": "std::ops::FnOnce::call_once",
                                         "a": [], "key": "", "ik": "item"},
                             [args[RUNS[rk]], UNIT], dest, target, line,
                             out, None, dty)
        # calls through Fn* traits
        last = name.rsplit("::", 1)[-1]
        if name in FNTRAITS and args:
            cv = args[0]
            if cv.k == "ref":
                inner = st.load((cv.a[0], cv.a[1]))
                if inner.k == "ref":
                    inner2 = st.load((inner.a[0], inner.a[1]))
                    if inner2.k == "agg" and inner2.a[0] == "closure":
                        cv, inner = inner, inner2
            else:
                inner = cv
            tupv = args[1] if len(args) > 1 else UNIT
            if inner.k == "agg" and inner.a[0] == "closure":
                g = self.c.fns.get(inner.a[1])
                if g is not None:
                    sp = list(tupv.a[4]) if tupv.k == "agg" else [
                        proj(tupv, ".%d" % i) for i in range(g.nargs - 1)]
                    selft = self.c.types[g.locals[1]]
                    if selft["k"] == "ref":
                        if cv.k != "ref":
                            root = ("T", site, len(st.frames))
                            st.store[root] = inner
                            cv = mk("ref", root, (), 1)
                    else:
                        cv = inner
                    if pol.inline(self, st, g):
                        return self.push(st, g, [cv] + sp, dest, target, site,
                                         line, self.home(st, g))
            elif inner.k == "fn":
                rec2 = self._vd.get(inner) or {
                    "p": inner.a[1], "key": inner.a[0] or "", "a": [],
                    "ik": "item", "link": inner.a[2]}
                sp = list(tupv.a[4]) if tupv.k == "agg" else []
                return self.call(st, fn, b, rec2, sp, dest, target, line, out,
                                 None, dty)
        if last[:1].isupper() and not rec.get("tr"):
            v = self.ctor(name, args)
            if v is not None:
                return self.finish(st, b, dest, target, v, line)
        if name in CONVERT and len(args) == 1:
            r = self.convert(st, rec, name)
            if r is True:
                return self.finish(st, b, dest, target, args[0], line)
            if r and pol.inline(self, st, r[0]) and \
                    len(st.frames) < MAXDEPTH and \
                    not any(f.fn is r[0] for f in st.frames):
                return self.push(st, r[0], args, dest, target, site, line,
                                 r[1])
        m = MODELS.get(name) or MODELS.get(rname)
        if m is not None:
            r = m(self, st, rec, args, site)
            if r is not None:
                res = []
                for s, v in r:
                    res.extend(self.finish(s, b, dest, target, v, line))
                return res
        g = self.resolve(st, rec)
        if g is not None and len(st.frames) < MAXDEPTH and \
                sum(f.fn is g for f in st.frames) <= pol.recurse and \
                (g.is_ext or pol.inline(self, st, g)):
            sub = {}
            ta = rec.get("ra") if rec.get("rkey") else rec.get("a")
            psub = st.frames[-1].subst
            for nm, x in zip(g.d["g"], ta or []):
                if type(x) is int:
                    tt = self.c.types[x]
                    if tt["k"] == "param" and tt["p"] in psub:
                        x = psub[tt["p"]]
                sub[nm] = x
            return self.push(st, g, args, dest, target, site, line, sub)
        if target < 0 and target != SUB:
            if pol.collect_panics:
                out.append(Outcome("panic", st, None, (name, fn, line)))
            return []
        v = self.opaque(st, fn, name, rec, args, site, raw)
        return self.finish(st, b, dest, target, v, line)

    def subcall(self, st, fv, args, site):
        """Call a function value now; [(state, result)] for every path."""
        saved = self.seen, self._sub, st.block
        self._sub = res = []
        self.seen = {}
        outs = []
        tup = agg("tuple", None, None,
                  tuple(".%d" % i for i in range(len(args))), tuple(args))
        fn = st.frames[-1].fn
        try:
            work = list(self.call(
                st.copy(), fn, site[1],
                {"p": "std::ops::FnMut::call_mut", "a": [], "key": "",
                 "ik": "item"}, [fv, tup], [0], SUB, 0, outs))
            while work:
                s = work.pop()
                self.steps += 1
                if self.steps > self.pol.max_steps:
                    raise Budget("abstract interpreter budget exceeded in "
                                 "a closure of %s" % fn.nname)
                work.extend(self.step(s, outs) or [])
        finally:
            self.seen, self._sub, blk = saved
        for s, _ in res:
            s.block = blk
        return res

    def push(self, st, g, args, dest, target, site, line, sub):
        fr = Frame(g, dest, target, sub, site, line)
        st.frames = st.frames + (fr,)
        d = len(st.frames)
        for i in range(g.nargs):
            st.store[("L", d, i + 1)] = args[i] if i < len(args) else UNINIT
        st.block = 0
        if 0 in g.loops():
            st.loops = st.loops + ((d, 0, {st.auto: self.snap(st)}, 0),)
        return [st]

    def opaque(self, st, fn, name, rec, args, site, raw=None):
        self.calls_opaque[name] = self.calls_opaque.get(name, 0) + 1
        mut = False
        vals = []
        for i, a in enumerate(args):
            vals.append(self.value_of(st, a))
        for i, a in enumerate(args):
            for lv in self.mutrefs(st, a):
                mut = True
                self.havoc(st, lv, (site, i))
            if a.k != "ref" and raw is not None and i < len(raw):
                o = raw[i]
                if o[0] in ("p", "m") and len(o[1]) == 1:
                    t = self.c.types[fn.locals[o[1][0]]]
                    if t["k"] == "ref" and t["m"]:
                        mut = True
                        self.havoc(st, (("X", a), ()), (site, i))
        if mut:
            v = mk("call", name, tuple(vals), "%s@%d" % (
                short(norm(site[0])), site[1]))
            # a re-executed site produces a new value: forget old facts
            dead = [x for x in st.facts if v in set(subterms(x))]
            for x in dead:
                del st.facts[x]
            return v
        return mk("call", name, tuple(vals), None)

    def value_of(self, st, a):
        """Dereference a reference argument for display in opaque calls."""
        n = 0
        while a.k == "ref" and n < 3:
            a = st.load((a.a[0], a.a[1]))
            n += 1
        return a

    def mutrefs(self, st, a, depth=0):
        if a.k == "ref":
            if a.a[2]:
                yield (a.a[0], a.a[1])
            elif depth < 3:
                v = st.load((a.a[0], a.a[1]))
                if v.k == "agg" and v.a[0] == "closure":
                    yield from self.mutrefs(st, v, depth + 1)
        elif a.k == "agg" and depth < 4:
            for x in a.a[4]:
                yield from self.mutrefs(st, x, depth + 1)

    def havoc(self, st, lv, tag):
        old = st.load(lv)
        for x in self.mutrefs(st, old, 1):
            if x != lv:
                st.put(x, mk("hv", "call", tag[0][0], tag[0][1], tag[1], "r"))
        nv = mk("hv", "call", tag[0][0], tag[0][1], tag[1])
        dead = [x for x in st.facts if nv in set(subterms(x))]
        for x in dead:
            del st.facts[x]
        if old.k == "agg" and old.a[0] == "closure":
            return
        st.put(lv, nv)


ITERS = {"std::ops::Range", "iter", "std::ops::RangeInclusive",
         "enumerate", "zip", "list", "map", "filter", "filter_map",
         "skip_while", "take_while", "map_while", "inspect", "copied",
         "take", "skip", "chain", "flatten1"}
SUB = -7
ALLN = frozenset()
DIVERGE = mk("diverge")
RUNS = {"ThreadPool::install": 1}
FNTRAITS = {"std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut",
            "std::ops::Fn::call"}


def wrap(n, ty):
    w = ty.get("w", 8 if ty["k"] == "bool" else 64)
    if ty["k"] in ("int",):
        n &= (1 << w) - 1
        return n - (1 << w) if n >> (w - 1) else n
    if ty["k"] in ("uint",):
        return n & ((1 << w) - 1)
    return n


def trange(ty):
    w = ty.get("w", 64)
    if ty["k"] == "int":
        return -(1 << (w - 1)), (1 << (w - 1)) - 1
    return 0, (1 << w) - 1


def collect_names(bb, s):
    def pl(p):
        for e in p[1:]:
            if type(e) is str and e[0] == "." and not e[1:].isdigit():
                s.add(e[1:])

    def walk(x):
        if type(x) is list:
            if x and type(x[0]) is int and len(x) > 1:
                pl(x)
            for y in x:
                if type(y) is list:
                    walk(y)
    for st in bb[0]:
        if st[0] == "=":
            walk(st[2])
            walk([st[1]])
    t = bb[1]
    walk(t)
    if t[0] == "call" and t[1][0] == "fn":
        s.add(norm(t[1][1]["p"]).rsplit("::", 1)[-1])


# ------------------------------------------------------------------ models
MODELS = {}


def model(*names_):
    def w(f):
        for n in names_:
            MODELS[n] = f
        return f
    return w


def _load(st, a):
    if a.k == "ref":
        return st.load((a.a[0], a.a[1]))
    return mk("proj", a, "*") if a.k != "k" else a


def _deepload(st, a, n=4):
    while a.k == "ref" and n:
        a = st.load((a.a[0], a.a[1]))
        n -= 1
    return a


def _derefref(st, a, elem="*", mut=None):
    """reference to (*a).elem for smart-pointer deref."""
    if a.k == "ref":
        r, p = a.a[0], a.a[1]
        v = st.load((r, p))
        if v.k == "ref":
            return v
        return mk("ref", r, p + (elem,), a.a[2] if mut is None else mut)
    return mk("ref", ("X", a), (elem,), 1 if mut else 0)


@model("std::ops::Deref::deref", "std::ops::DerefMut::deref_mut")
def m_deref(ae, st, rec, args, site):
    n = rec["p"]
    return [(st, _derefref(st, args[0], "*", 1 if "DerefMut" in n else 0))]


@model("std::convert::AsRef::as_ref", "std::borrow::Borrow::borrow",
       "std::vec::Vec::as_slice", "std::vec::Vec::as_mut_slice",
       "std::string::String::as_str", "std::borrow::ToOwned::to_owned",
       "std::convert::identity", "std::vec::Vec::as_ref", "core::str::as_bytes",
       "std::hint::black_box")
def m_ident(ae, st, rec, args, site):
    return [(st, args[0])]


@model("std::clone::Clone::clone", "std::iter::Iterator::by_ref_never")
def m_clone(ae, st, rec, args, site):
    return [(st, _load(st, args[0]))]


@model("std::convert::Into::into", "std::convert::From::from")
def m_into(ae, st, rec, args, site):
    a = rec.get("a") or []
    ts = [ae.c.types[x] for x in a if type(x) is int]
    if len(ts) >= 2:
        if ts[0] is ts[1]:
            return [(st, args[0])]
        if all(t["k"] in ("int", "uint", "bool", "char", "float") for t in ts[:2]):
            return [(st, args[0])]
    if rec["p"].endswith("into") and len(ts) >= 2 and \
            ts[1]["k"] != "param" and ts[0]["k"] != "param" and \
            ts[0].get("p") != ts[1].get("p"):
        return None
    if args[0].k == "agg" and args[0].a[0] == "adt" and ts and \
            (ts[0].get("p") == args[0].a[1] or ts[0]["k"] == "param" and
             not _has_from(ae.c, args[0].a[1])):
        return [(st, args[0])]
    return None


def _has_from(c, adt):
    """Does the crate convert FROM this type anywhere (`impl From<adt>`)?"""
    memo = c.__dict__.setdefault("_from_src", None)
    if memo is None:
        memo = set()
        for f in c.fns.values():
            if f.name.rsplit("::", 1)[-1] == "from" and f.nargs == 1 and \
                    not f.is_ext:
                t = c.types[f.locals[1]]
                if t["k"] == "adt":
                    memo.add(t["p"])
        c._from_src = memo
    return adt in memo


SIZES = {"u8": 1, "i8": 1, "bool": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4,
         "f32": 4, "char": 4, "u64": 8, "i64": 8, "f64": 8, "usize": 8,
         "isize": 8, "u128": 16, "i128": 16}


@model("std::mem::size_of")
def m_sizeof(ae, st, rec, args, site):
    a = [x for x in rec.get("a") or [] if type(x) is int]
    n = SIZES.get(ae.c.tystr(ae.styp(st, a[0]))) if a else None
    return None if n is None else [(st, K(n))]


@model("std::sync::Arc::new", "std::boxed::Box::new", "std::rc::Rc::new")
def m_arc(ae, st, rec, args, site):
    return [(st, mk("arc", args[0]))]


@model("std::sync::Arc::make_mut", "std::sync::Arc::get_mut_unchecked")
def m_makemut(ae, st, rec, args, site):
    return [(st, _derefref(st, args[0], "*", 1))]


def _is_flat_enum(ae, tid):
    a = ae.variants(tid)
    return a is not None and all(not v[2] for v in a["variants"])


def _eqv(ae, st, rec, args):
    tid = rec["a"][0] if rec.get("a") else None
    a, b = _load(st, args[0]), _load(st, args[1])
    t = ae.c.types.get(tid) if type(tid) is int else None
    while t is not None and t["k"] == "ref":
        a, b = _load(st, a), _load(st, b)
        tid = t["e"]
        t = ae.c.types[tid]
    if a.k == "ref" and b.k == "ref":
        a, b = _load(st, a), _load(st, b)
    if t is not None and _is_flat_enum(ae, tid):
        return ae.discr(a, tid), ae.discr(b, tid)
    if t is not None and t["k"] == "adt" and t["p"] == OPT:
        return a, b
    return a, b


@model("std::cmp::PartialEq::eq")
def m_eq(ae, st, rec, args, site):
    a, b = _eqv(ae, st, rec, args)
    return [(st, op("Eq", a, b))]


@model("std::cmp::PartialEq::ne")
def m_ne(ae, st, rec, args, site):
    a, b = _eqv(ae, st, rec, args)
    return [(st, op("Ne", a, b))]


def _ord(o):
    def f(ae, st, rec, args, site):
        a, b = _eqv(ae, st, rec, args)
        return [(st, op(o, a, b))]
    return f


for _n, _o in (("lt", "Lt"), ("le", "Le"), ("gt", "Gt"), ("ge", "Ge")):
    MODELS["std::cmp::PartialOrd::" + _n] = _ord(_o)


@model("std::cmp::Ord::min", "std::cmp::min")
def m_min(ae, st, rec, args, site):
    return [(st, op("min", args[0], args[1]))]


@model("std::cmp::Ord::max", "std::cmp::max")
def m_max(ae, st, rec, args, site):
    return [(st, op("max", args[0], args[1]))]


@model("std::cmp::Ord::clamp", "num_traits::clamp", "v_frame::math::clamp")
def m_clamp(ae, st, rec, args, site):
    return [(st, op("max", op("min", args[0], args[2]), args[1]))]


@model("std::ops::RangeInclusive::new")
def m_rinew(ae, st, rec, args, site):
    return [(st, agg("adt", "std::ops::RangeInclusive", None,
                     (".start", ".end", ".exhausted"),
                     (args[0], args[1], K(0))))]


@model("std::ops::RangeInclusive::contains", "std::ops::Range::contains",
       "std::ops::RangeFrom::contains", "std::ops::RangeTo::contains",
       "std::ops::RangeToInclusive::contains", "std::ops::RangeBounds::contains")
def m_contains(ae, st, rec, args, site):
    r, x = _load(st, args[0]), _load(st, args[1])
    nm = (rec.get("rp") or rec["p"])
    s = proj(r, ".start")
    e = proj(r, ".end")
    ts = r.a[1] if r.k == "agg" else ""
    if "RangeBounds" in nm and rec.get("a"):
        ts = ae.c.types[rec["a"][0]].get("p", "")
    n = ts or nm
    if "RangeInclusive" in n:
        return [(st, ae.boolop("And", op("Ge", x, s), op("Le", x, e)))]
    if "RangeFrom" in n:
        return [(st, op("Ge", x, s))]
    if "RangeToInclusive" in n:
        return [(st, op("Le", x, e))]
    if "RangeTo" in n:
        return [(st, op("Lt", x, e))]
    return [(st, ae.boolop("And", op("Ge", x, s), op("Lt", x, e)))]


@model("std::iter::IntoIterator::into_iter")
def m_intoiter(ae, st, rec, args, site):
    a = args[0]
    t = ae.c.types[rec["a"][0]] if rec.get("a") else None
    if t is not None and t["k"] == "adt" and t["p"] in (
            "std::ops::Range", "std::ops::RangeInclusive"):
        return [(st, a)]
    if t is not None and t["k"] == "ref":
        return [(st, mkiter(a))]
    if t is not None and t["k"] == "array":
        root = ("C", a)
        return [(st, agg("it", "iter", "val", (".pos", ".src"),
                         (K(0), mk("ref", root, (), 0))))]
    if a.k == "agg" and a.a[1] in ITERS:
        return [(st, a)]
    return [(st, a)]


def mkiter(ref):
    return agg("it", "iter", "ref", (".pos", ".src"), (K(0), ref))


@model("core::slice::iter", "core::slice::iter_mut", "std::slice::iter",
       "[T]::iter", "[T]::iter_mut")
def m_iter(ae, st, rec, args, site):
    a = args[0]
    if a.k != "ref":
        a = mk("ref", ("X", a), (), 0)
    return [(st, mkiter(a))]


@model("core::slice::chunks_exact", "core::slice::chunks_exact_mut",
       "[T]::chunks_exact", "[T]::chunks_exact_mut")
def m_chunks_exact(ae, st, rec, args, site):
    a, n = args[0], args[1]
    if a.k != "ref" or not isk(n) or n.a[0] <= 0:
        return None
    ln = ae.length(st, a)
    if not isk(ln) or ln.a[0] // n.a[0] > 1100:
        return None
    k = n.a[0]

    def piece(i):
        r = agg("adt", "std::ops::Range", None, (".start", ".end"),
                (K(i * k), K(i * k + k)))
        return mk("ref", a.a[0], a.a[1] + (("sl", r),), a.a[2])
    return [(st, mklist([piece(i) for i in range(ln.a[0] // k)]))]


@model("std::iter::Iterator::next")
def m_next(ae, st, rec, args, site):
    a = args[0]
    if a.k != "ref":
        return None
    return _next_at(ae, st, (a.a[0], a.a[1]), site)


def _next_at(ae, st, lv, site):
    it = st.load(lv)
    if it.k != "agg":
        return None
    if it.a[1] in ("std::ops::Range", "std::ops::RangeInclusive"):
        s, e = it.a[4][0], it.a[4][1]
        inc = it.a[1].endswith("Inclusive")
        if inc and len(it.a[4]) > 2 and not (isk(it.a[4][2]) and it.a[4][2].a[0] == 0):
            if isk(it.a[4][2]) and it.a[4][2].a[0] == 1:
                return [(st, NONE)]
        c = op("Le" if inc else "Lt", s, e)
        res = []
        for s1 in st.copy().assume(c, True):
            s1 = s1.copy()
            s1.put((lv[0], lv[1] + (".start",)), op("Add", s, K(1)))
            res.append((s1, some(s)))
        for s1 in st.copy().assume(c, False):
            res.append((s1.copy(), NONE))
        return res
    if it.a[1] == "enumerate":
        r = _next_at(ae, st, (lv[0], lv[1] + (".it",)), site)
        if r is None:
            return None
        res = []
        for s1, v in r:
            if v is NONE:
                res.append((s1, v))
                continue
            n = s1.load((lv[0], lv[1] + (".n",)))
            s1 = s1.copy()
            s1.put((lv[0], lv[1] + (".n",)), op("Add", n, K(1)))
            res.append((s1, some(agg("tuple", None, None, (".0", ".1"),
                                     (n, v.a[4][0])))))
        return res
    if it.a[1] == "zip":
        r = _next_at(ae, st, (lv[0], lv[1] + (".a",)), site)
        if r is None:
            return None
        res = []
        for s1, v in r:
            if v is NONE:
                res.append((s1, v))
                continue
            r2 = _next_at(ae, s1.copy(), (lv[0], lv[1] + (".b",)), site)
            if r2 is None:
                return None
            for s2, w in r2:
                if w is NONE:
                    res.append((s2, w))
                else:
                    res.append((s2, some(agg(
                        "tuple", None, None, (".0", ".1"),
                        (v.a[4][0], w.a[4][0])))))
        return res
    if it.a[1] == "list":
        pos, vals = it.a[4]
        if pos.a[0] < len(vals.a[4]):
            st.put((lv[0], lv[1] + (".pos",)), K(pos.a[0] + 1))
            return [(st, some(vals.a[4][pos.a[0]]))]
        return [(st, NONE)]
    if it.a[1] == "chain":
        r = _next_at(ae, st, (lv[0], lv[1] + (".a",)), site)
        if r is None:
            return None
        res = []
        for s1, v in r:
            if v is not NONE:
                res.append((s1, v))
                continue
            r2 = _next_at(ae, s1.copy(), (lv[0], lv[1] + (".b",)), site)
            if r2 is None:
                return None
            res.extend(r2)
        return res
    if it.a[0] == "it" and it.a[1] in ITERS and it.a[3][0] == ".it" and \
            it.a[1] != "enumerate":
        return _next_adapt(ae, st, lv, site, it)
    if it.a[1] == "iter":
        pos, src = it.a[4]
        n = None
        ln = ae.length(st, src)
        if isk(pos) and isk(ln):
            if pos.a[0] < ln.a[0]:
                st.put((lv[0], lv[1] + (".pos",)), K(pos.a[0] + 1))
                r = elemref(src, pos)
                return [(st, some(r if it.a[2] == "ref" else st.load((r.a[0], r.a[1]))))]
            return [(st, NONE)]
        h = mk("hv", "elem", site[0], site[1], show(pos))
        r = elemref(src, h)
        s1 = st.copy()
        s2 = st.copy()
        s1.put((lv[0], lv[1] + (".pos",)), mk("hv", "pos", site[0], site[1]))
        dead = [x for x in s1.facts if h in set(subterms(x))]
        for x in dead:
            del s1.facts[x]
        return [(s1, some(r if it.a[2] == "ref" else s1.load((r.a[0], r.a[1])))),
                (s2, NONE)]
    return None


def _isiter(v):
    return v.k == "agg" and v.a[1] in ITERS


def _itpos(v):
    """Constant positions of the sources of an iterator, None if unknown."""
    if v.k != "agg":
        return None
    if v.a[1] in ("iter", "list"):
        return (v.a[4][0].a[0],) if isk(v.a[4][0]) else None
    if v.a[1] in ("std::ops::Range", "std::ops::RangeInclusive"):
        return (v.a[4][0].a[0],) if all(isk(x) for x in v.a[4][:2]) else None
    if v.a[0] != "it":
        return None
    r = ()
    for n, x in zip(v.a[3], v.a[4]):
        if n in (".it", ".a", ".b"):
            p = _itpos(x)
            if p is None:
                return None
            r += p
    return r


def _finite(ae, st, v):
    """Is the number of elements of the iterator's sources known?"""
    if v.k != "agg":
        return False
    if v.a[1] == "list":
        return True
    if v.a[1] == "iter":
        return isk(v.a[4][0]) and isk(ae.length(st, v.a[4][1]))
    if v.a[1] in ("std::ops::Range", "std::ops::RangeInclusive"):
        return all(isk(x) for x in v.a[4][:2]) and \
            v.a[4][1].a[0] - v.a[4][0].a[0] <= 300
    if v.a[0] != "it":
        return False
    return all(_finite(ae, st, x) for n, x in zip(v.a[3], v.a[4])
               if n in (".it", ".a", ".b"))


def mklist(vals):
    """An iterator that yields the given values."""
    return agg("it", "list", "val", (".pos", ".vals"), (
        K(0), agg("tuple", None, None,
                  tuple(".%d" % i for i in range(len(vals))), tuple(vals))))


def _adapt(kind, *extra):
    def f(ae, st, rec, args, site):
        a = args[0]
        if not _isiter(a) or not _finite(ae, st, a) and kind != "copied":
            return None
        fs, vs = [".it"], [a]
        for n, x in zip(extra, args[1:]):
            fs.append(n)
            vs.append(x)
        if kind in ("skip_while", "take_while"):
            fs.append(".done")
            vs.append(K(0))
        return [(st, agg("it", kind, "val", tuple(fs), tuple(vs)))]
    return f


for _k in ("map", "filter", "filter_map", "skip_while", "take_while",
           "map_while", "inspect"):
    MODELS["std::iter::Iterator::" + _k] = _adapt(_k, ".f")
for _k in ("take", "skip"):
    MODELS["std::iter::Iterator::" + _k] = _adapt(_k, ".n")
for _k in ("copied", "cloned"):
    MODELS["std::iter::Iterator::" + _k] = _adapt("copied")


@model("std::iter::Iterator::chain")
def m_chain(ae, st, rec, args, site):
    if not (_isiter(args[0]) and _isiter(args[1]) and
            _finite(ae, st, args[0]) and _finite(ae, st, args[1])):
        return None
    return [(st, agg("it", "chain", "val", (".a", ".b"), tuple(args[:2])))]


@model("std::iter::Iterator::rev")
def m_rev(ae, st, rec, args, site):
    a = args[0]
    if not _isiter(a) or not _finite(ae, st, a):
        return None
    if a.a[1] == "list":
        vs = a.a[4][1].a[4][a.a[4][0].a[0]:]
    elif a.a[1] == "iter" and a.a[2] == "ref":
        vs = [elemref(a.a[4][1], K(i)) for i in range(
            a.a[4][0].a[0], ae.length(st, a.a[4][1]).a[0])]
    elif a.a[1] == "std::ops::Range":
        vs = [K(i) for i in range(a.a[4][0].a[0], a.a[4][1].a[0])]
    elif a.a[1] == "std::ops::RangeInclusive":
        vs = [K(i) for i in range(a.a[4][0].a[0], a.a[4][1].a[0] + 1)]
    else:
        vs = drain(ae, st, a, site)
        if vs is None:
            return None
    return [(st, mklist(list(vs)[::-1]))]


def drain(ae, st, it, site, lim=2000):
    """The elements a finite iterator without closures yields."""
    def pure(v):
        if v.k != "agg" or v.a[1] not in (
                "iter", "list", "zip", "enumerate", "copied", "cloned",
                "std::ops::Range", "std::ops::RangeInclusive"):
            return False
        return all(pure(x) for n, x in zip(v.a[3], v.a[4])
                   if n in (".it", ".a", ".b"))
    if not pure(it) or not _finite(ae, st, it):
        return None
    s = st.copy()
    root = ("T", site, len(s.frames), "drain")
    s.store[root] = it
    vs = []
    while len(vs) < lim:
        r = _next_at(ae, s, (root, ()), site)
        if r is None or len(r) != 1:
            return None
        s, v = r[0]
        if v is NONE:
            return vs
        vs.append(v.a[4][0])
    return None


def _tmp(st, site, v, tag):
    root = ("T", site, len(st.frames), tag)
    st.store[root] = v
    return mk("ref", root, (), 0)


def _truth(ae, rs):
    """split [(st, bool value)] on the truth of the value"""
    for s, v in rs:
        for t in (True, False):
            if isk(v):
                if bool(v.a[0]) == t:
                    yield s, t
            else:
                for s1 in s.copy().assume(v, t):
                    yield s1.copy(), t


def _next_adapt(ae, st, lv, site, it):
    """next() of a closure adaptor; None if it cannot be decided."""
    kind = it.a[1]
    sub = (lv[0], lv[1] + (".it",))
    fv = None
    if ".f" in it.a[3]:
        fv = mk("ref", lv[0], lv[1] + (".f",), 1)
    res, work, n = [], [st], 0
    while work:
        s = work.pop()
        n += 1
        if n > 3000:
            raise Budget("iterator adaptor does not end")
        cur = s.load(lv)
        done = None
        if ".done" in cur.a[3]:
            done = cur.a[4][cur.a[3].index(".done")]
        if kind == "take_while" and done is K(1):
            res.append((s, NONE))
            continue
        if kind in ("take", "skip"):
            k = cur.a[4][cur.a[3].index(".n")]
            if not isk(k):
                return None
            if kind == "take" and k.a[0] == 0:
                res.append((s, NONE))
                continue
        r = _next_at(ae, s.copy(), sub, site)
        if r is None:
            return None
        for s1, v in r:
            if v is NONE:
                res.append((s1, NONE))
                continue
            x = v.a[4][0]
            if kind == "copied":
                res.append((s1, some(s1.load((x.a[0], x.a[1]))
                                     if x.k == "ref" else x)))
            elif kind == "take":
                s1.put((lv[0], lv[1] + (".n",)), K(k.a[0] - 1))
                res.append((s1, v))
            elif kind == "skip":
                if k.a[0]:
                    s1.put((lv[0], lv[1] + (".n",)), K(k.a[0] - 1))
                    work.append(s1)
                else:
                    res.append((s1, v))
            elif kind == "map":
                for s2, w in ae.subcall(s1, fv, [x], site):
                    res.append((s2, some(w)))
            elif kind == "inspect":
                for s2, w in ae.subcall(
                        s1, fv, [_tmp(s1, site, x, kind)], site):
                    res.append((s2, v))
            elif kind in ("filter_map", "map_while"):
                for s2, w in ae.subcall(s1, fv, [x], site):
                    if w is NONE:
                        if kind == "filter_map":
                            work.append(s2)
                        else:
                            res.append((s2, NONE))
                    elif w.k == "agg" and w.a[2] == "Some":
                        res.append((s2, w))
                    else:
                        return None
            elif kind == "skip_while" and done is K(1):
                res.append((s1, v))
            else:
                rs = ae.subcall(s1, fv, [_tmp(s1, site, x, kind)], site)
                for s2, t in _truth(ae, rs):
                    if kind == "filter":
                        if t:
                            res.append((s2, v))
                        else:
                            work.append(s2)
                    elif kind == "skip_while":
                        if t:
                            work.append(s2)
                        else:
                            s2.put((lv[0], lv[1] + (".done",)), K(1))
                            res.append((s2, v))
                    else:
                        if t:
                            res.append((s2, v))
                        else:
                            s2.put((lv[0], lv[1] + (".done",)), K(1))
                            res.append((s2, NONE))
    return res


def _drive(ae, st, it, site, body):
    """Run body(state, element) -> [(state, stop value or None)] over all
    elements of a finite iterator; [(state, value)] or None."""
    root = ("T", site, len(st.frames), "drive")
    st = st.copy()
    st.store[root] = it
    res, work, n = [], [st], 0
    while work:
        s = work.pop()
        n += 1
        if n > 3000:
            raise Budget("iterator does not end")
        r = _next_at(ae, s.copy(), (root, ()), site)
        if r is None:
            return None
        for s1, v in r:
            if v is NONE:
                res.append((s1, None))
                continue
            for s2, w in body(s1, v.a[4][0]):
                if w is None:
                    work.append(s2)
                else:
                    res.append((s2, w))
    return res


def _terminal(name):
    def dec(f):
        def g(ae, st, rec, args, site):
            a = args[0]
            byref = a.k == "ref"
            it = st.load((a.a[0], a.a[1])) if byref else a
            if not _isiter(it) or not _finite(ae, st, it):
                return None
            r = f(ae, st, it, args, site)
            if r is None:
                return None
            root = ("T", site, len(st.frames), "drive")
            for s, _ in r:
                if byref and root in s.store:
                    s.put((a.a[0], a.a[1]), s.store[root])
                s.store.pop(root, None)
            return r
        MODELS["std::iter::Iterator::" + name] = g
        return g
    return dec


def _fv(st, site, f):
    if f.k == "ref":
        return f
    root = ("T", site, len(st.frames), "clos")
    st.store[root] = f
    return mk("ref", root, (), 1)


def _pick(name):
    @_terminal(name)
    def f(ae, st, it, args, site):
        st = st.copy()
        fv = _fv(st, site, args[1])
        cnt = ("T", site, len(st.frames), "cnt")
        st.store[cnt] = K(0)

        def body(s, x):
            arg = _tmp(s, site, x, "el") if name == "find" else x
            r = []
            if name == "find_map":
                for s2, w in ae.subcall(s, fv, [arg], site):
                    r.append((s2, None if w is NONE else w))
                return r
            for s2, t in _truth(ae, ae.subcall(s, fv, [arg], site)):
                if name == "find":
                    r.append((s2, some(x) if t else None))
                elif name == "any":
                    r.append((s2, K(1) if t else None))
                elif name == "all":
                    r.append((s2, None if t else K(0)))
                else:
                    n = s2.store[cnt]
                    s2.store[cnt] = K(n.a[0] + 1)
                    r.append((s2, some(n) if t else None))
            return r
        end = {"find": NONE, "find_map": NONE, "any": K(0), "all": K(1),
               "position": NONE}[name]
        rs = _drive(ae, st, it, site, body)
        return None if rs is None else [
            (s, end if v is None else v) for s, v in rs]
    return f


for _k in ("find", "find_map", "any", "all", "position"):
    _pick(_k)


@_terminal("for_each")
def m_foreach(ae, st, it, args, site):
    st = st.copy()
    fv = _fv(st, site, args[1])
    rs = _drive(ae, st, it, site, lambda s, x: [
        (s2, None) for s2, _ in ae.subcall(s, fv, [x], site)])
    return None if rs is None else [(s, UNIT) for s, v in rs]


@_terminal("fold")
def m_fold(ae, st, it, args, site):
    st = st.copy()
    fv = _fv(st, site, args[2])
    acc = ("T", site, len(st.frames), "acc")
    st.store[acc] = args[1]

    def body(s, x):
        r = []
        for s2, w in ae.subcall(s, fv, [s.store[acc], x], site):
            s2.store[acc] = w
            r.append((s2, None))
        return r
    rs = _drive(ae, st, it, site, body)
    return None if rs is None else [(s, s.store.pop(acc)) for s, v in rs]


@_terminal("count")
def m_count(ae, st, it, args, site):
    st = st.copy()
    acc = ("T", site, len(st.frames), "acc")
    st.store[acc] = K(0)

    def body(s, x):
        s.store[acc] = K(s.store[acc].a[0] + 1)
        return [(s, None)]
    rs = _drive(ae, st, it, site, body)
    return None if rs is None else [(s, s.store.pop(acc)) for s, v in rs]


@_terminal("last")
def m_last(ae, st, it, args, site):
    st = st.copy()
    acc = ("T", site, len(st.frames), "acc")
    st.store[acc] = NONE

    def body(s, x):
        s.store[acc] = some(x)
        return [(s, None)]
    rs = _drive(ae, st, it, site, body)
    return None if rs is None else [(s, s.store.pop(acc)) for s, v in rs]


@model("std::iter::Iterator::enumerate")
def m_enumerate(ae, st, rec, args, site):
    if not _isiter(args[0]):
        return None
    return [(st, agg("it", "enumerate", "val", (".n", ".it"),
                     (K(0), args[0])))]


@model("std::iter::Iterator::zip", "std::iter::zip", "itertools::zip_eq_never")
def m_zip(ae, st, rec, args, site):
    b = args[1]
    if not _isiter(b):
        t = ae.c.types[rec["a"][1]] if rec.get("a") and len(rec["a"]) > 1 \
            and type(rec["a"][1]) is int else None
        if t is not None and t["k"] == "ref" and b.k == "ref":
            b = mkiter(b)
        else:
            return None
    if not _isiter(args[0]):
        return None
    return [(st, agg("it", "zip", "val", (".a", ".b"), (args[0], b)))]


def sl_bounds(i):
    """(start, end | None) of a range used as an index."""
    n = i.a[1] or ""
    d = dict(zip(i.a[3], i.a[4]))
    if n.endswith("RangeTo"):
        return K(0), d.get(".end")
    if n.endswith("RangeFrom"):
        return d.get(".start"), None
    if n.endswith("ops::Range"):
        return d.get(".start"), d.get(".end")
    if n.endswith("RangeInclusive") or n.endswith("RangeToInclusive"):
        s, e = d.get(".start", K(0)), d.get(".end")
        return s, None if e is None else op("Add", e, K(1))
    return None, None


def index(path, ix):
    """path[ix], seeing through constant sub-slices."""
    while path and type(path[-1]) is tuple and path[-1][0] == "sl":
        s, _ = sl_bounds(path[-1][1])
        if s is None or not isk(s) or not isk(ix):
            break
        path, ix = path[:-1], K(s.a[0] + ix.a[0])
    return path + (("i", ix),)


def elemref(src, ix):
    return mk("ref", src.a[0], index(src.a[1], ix), src.a[2])


@model("core::slice::len", "[T]::len",
       "str::len")
def m_len(ae, st, rec, args, site):
    return [(st, ae.length(st, args[0]))]


@model("std::vec::Vec::len", "std::collections::VecDeque::len",
       "arrayvec::ArrayVec::len")
def m_vlen(ae, st, rec, args, site):
    return [(st, _vlen(st, args[0]))]


def _vlen(st, a):
    v = _load(st, a)
    if v.k == "agg" and v.a[0] == "array":
        return K(len(v.a[4]))
    return mk("call", "len", (mk("proj", v, "*"),))


@model("core::slice::is_empty", "[T]::is_empty",
       "str::is_empty")
def m_isempty(ae, st, rec, args, site):
    return [(st, op("Eq", ae.length(st, args[0]), K(0)))]


@model("std::vec::Vec::is_empty", "std::collections::VecDeque::is_empty",
       "arrayvec::ArrayVec::is_empty")
def m_visempty(ae, st, rec, args, site):
    return [(st, op("Eq", _vlen(st, args[0]), K(0)))]


@model("std::ops::Index::index", "std::ops::IndexMut::index_mut")
def m_index(ae, st, rec, args, site):
    a, i = args[0], args[1]
    mut = 1 if "IndexMut" in rec["p"] else 0
    if i.k == "agg" and i.a[1] and "RangeFull" in i.a[1]:
        return [(st, _derefref(st, a, "*", mut))]
    t = None
    if rec.get("a") and len(rec["a"]) > 1 and type(rec["a"][1]) is int:
        t = ae.c.types[rec["a"][1]]
    st_t = ae.c.types[rec["a"][0]] if rec.get("a") else None
    if t is not None and t["k"] in ("uint",):
        if st_t is not None and st_t["k"] in ("array", "slice"):
            r = a if a.k == "ref" else mk("ref", ("X", a), (), mut)
            return [(st, mk("ref", r.a[0], index(r.a[1], i), mut))]
        if st_t is not None and st_t["k"] == "adt" and st_t["p"] in (
                "std::vec::Vec", "arrayvec::ArrayVec", "std::collections::VecDeque"):
            r = _derefref(st, a, "*", mut)
            return [(st, mk("ref", r.a[0], r.a[1] + (("i", i),), mut))]
        if st_t is not None and st_t["k"] == "adt":
            return None
    if st_t is not None and st_t["k"] == "adt" and st_t["p"] in (
            "std::collections::BTreeMap", "std::collections::HashMap"):
        r = a if a.k == "ref" else mk("ref", ("X", a), (), mut)
        return [(st, mk("ref", r.a[0], r.a[1] + (("i", _deepload(st, i)),), mut))]
    if i.k == "agg" and i.a[1] and "ops::Range" in i.a[1]:
        r = _derefref(st, a, "*", mut) if st_t is not None and \
            st_t["k"] == "adt" else (a if a.k == "ref" else mk("ref", ("X", a), (), mut))
        return [(st, mk("ref", r.a[0], r.a[1] + (("sl", i),), mut))]
    return None


@model("std::mem::replace")
def m_replace(ae, st, rec, args, site):
    lv = st.deref(args[0])
    o = st.load(lv)
    ae.pol.write(ae, st, lv, args[1], st.frames[-1].fn, 0)
    st.put(lv, args[1])
    return [(st, o)]


@model("std::mem::take")
def m_take(ae, st, rec, args, site):
    lv = st.deref(args[0])
    o = st.load(lv)
    t = ae.c.types[rec["a"][0]]["s"] if rec.get("a") else "?"
    d = mk("call", "default", (sym(t),), None)
    ae.pol.write(ae, st, lv, d, st.frames[-1].fn, 0)
    st.put(lv, d)
    return [(st, o)]


@model("std::mem::swap")
def m_swap(ae, st, rec, args, site):
    a, b = st.deref(args[0]), st.deref(args[1])
    x, y = st.load(a), st.load(b)
    ae.pol.write(ae, st, a, y, st.frames[-1].fn, 0)
    ae.pol.write(ae, st, b, x, st.frames[-1].fn, 0)
    st.put(a, y)
    st.put(b, x)
    return [(st, UNIT)]


@model("std::intrinsics::discriminant_value", "core::intrinsics::discriminant_value")
def m_dv(ae, st, rec, args, site):
    return [(st, ae.discr(_load(st, args[0]), rec["a"][0]))]


@model("std::intrinsics::likely", "std::intrinsics::unlikely")
def m_likely(ae, st, rec, args, site):
    return [(st, args[0])]


# ------------------------------------------------ integer methods
@model("v_frame::math::Fixed::align_power_of_two_and_shift")
def m_aps(ae, st, rec, args, site):
    n = args[1]
    x = _load(st, args[0]) if args[0].k == "ref" else args[0]
    return [(st, op("Shr", op("Add", x, op("Add", op("Shl", K(1), n),
                                                 K(-1))), n))]


@model("v_frame::math::Fixed::align_power_of_two")
def m_ap(ae, st, rec, args, site):
    n = args[1]
    x = _load(st, args[0]) if args[0].k == "ref" else args[0]
    return [(st, op("Shl", op("Shr", op("Add", x, op(
        "Add", op("Shl", K(1), n), K(-1))), n), n))]


def _ints():
    bits = {"8": 8, "16": 16, "32": 32, "64": 64, "128": 128, "size": 64}
    for s in "ui":
        for n, b in bits.items():
            yield s + n, s == "i", b


def _int_models():
    for ty, sg, b in _ints():
        lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if sg else (0, (1 << b) - 1)
        ti = {"k": "int" if sg else "uint", "w": b}

        def kk(*a):
            return all(isk(x) and type(x.a[0]) is int for x in a)

        def reg(nm, f):
            for pre in ("core::num::<impl %s>::" % ty, "core::num::%s::" % ty,
                        "std::num::<impl %s>::" % ty, ty + "::"):
                MODELS.setdefault(pre + nm, f)

        def checked(o, lo=lo, hi=hi, b=b, ti=ti):
            def f(ae, st, rec, args, site):
                if kk(*args):
                    if o in ("Shl", "Shr"):
                        if not 0 <= args[1].a[0] < b:
                            return [(st, NONE)]
                        r = op(o, *args)
                        return [(st, some(K(wrap(r.a[0], ti))))]
                    r = op(o, *args)
                    if r.k == "k":
                        return [(st, some(r) if lo <= r.a[0] <= hi else NONE)]
                    return [(st, NONE)]
                return None
            return f

        def sat(o, lo=lo, hi=hi):
            def f(ae, st, rec, args, site):
                if kk(*args):
                    r = op(o, *args)
                    if r.k == "k":
                        return [(st, K(max(lo, min(hi, r.a[0]))))]
                return None
            return f

        def wr(o, ti=ti):
            def f(ae, st, rec, args, site):
                r = op(o, *args)
                if r.k == "k":
                    r = K(wrap(r.a[0], ti))
                return [(st, r)]
            return f

        def un(fun):
            def f(ae, st, rec, args, site):
                if kk(args[0]):
                    try:
                        return [(st, K(fun(args[0].a[0])))]
                    except Exception:
                        return None
                return None
            return f
        for n, o in (("add", "Add"), ("sub", "Sub"), ("mul", "Mul"),
                     ("div", "Div"), ("rem", "Rem"), ("shl", "Shl"),
                     ("shr", "Shr")):
            reg("checked_" + n, checked(o))
            reg("saturating_" + n, sat(o))
            reg("wrapping_" + n, wr(o))
        reg("is_power_of_two", un(lambda x: int(x > 0 and x & (x - 1) == 0)))
        reg("ilog2", un(lambda x: x.bit_length() - 1 if x > 0 else 1 / 0))
        reg("count_ones", un(lambda x: bin(x).count("1") if x >= 0 else 1 / 0))
        reg("trailing_zeros", un(lambda x, b=b: b if x == 0 else (x & -x).bit_length() - 1))
        tz0 = MODELS[ty + "::trailing_zeros"]

        def tz(ae, st, rec, args, site, tz0=tz0):
            n = lin_tz(args[0]) if LIN else None
            return [(st, K(n))] if n is not None else \
                tz0(ae, st, rec, args, site)
        for pre in ("core::num::<impl %s>::" % ty, "core::num::%s::" % ty,
                    "std::num::<impl %s>::" % ty, ty + "::"):
            MODELS[pre + "trailing_zeros"] = tz
        reg("leading_zeros", un(lambda x, b=b: b - x.bit_length() if x >= 0 else 0))
        reg("next_power_of_two", un(lambda x: 1 << max(0, (x - 1).bit_length())))
        reg("abs", un(abs))
        reg("unsigned_abs", un(abs))
        reg("signum", un(lambda x: (x > 0) - (x < 0)))

        def divceil(ae, st, rec, args, site):
            if kk(*args) and args[1].a[0] > 0:
                return [(st, K(-(-args[0].a[0] // args[1].a[0])))]
            return None
        reg("div_ceil", divceil)

        def pw(ae, st, rec, args, site):
            if kk(*args) and 0 <= args[1].a[0] < 200:
                return [(st, K(args[0].a[0] ** args[1].a[0]))]
            return None
        reg("pow", pw)


_int_models()

"""Lock-step matching of a bitstream writer against a syntax grammar.

A grammar is a sequence of items:
  F(name, width, value)        fixed-width unsigned field (width int or V)
  SF(name, width, value)       signed field
  E(name, value...)            a composite primitive (event with given args)
  If(cond, then, else)         cond is a boolean V
  Rep(body)                    zero or more repetitions (data-dependent loop)
  Any(name)                    any run of events (explicitly out of scope)
The abstract interpreter carries the remaining grammar in State.auto.
"""
import itertools
from . import ae as _ae
from .val import *
from .gate import elems, CellPolicy

BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128,
        "i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "bool": 1}


def F(name, width, value, alt=None):
    return ("F", name, width if isinstance(width, V) else K(width),
            value if isinstance(value, V) else K(value))


def SF(name, width, value):
    return ("S", name, width if isinstance(width, V) else K(width), value)


def E(name, *vals):
    return ("E", name, tuple(v if isinstance(v, V) or v is None else K(v)
                             for v in vals))


def If(cond, then, els=()):
    return ("If", cond, seq(*then), seq(*els))


def Rep(*body):
    return ("R", seq(*body))


def Set(*alts):
    """value constraint: one of several"""
    return alts


def seq(*items):
    """Nested python lists allowed; result is a tuple of items."""
    out = []
    for i in items:
        if isinstance(i, list) or (isinstance(i, tuple) and
                                   (not i or not isinstance(i[0], str))):
            out.extend(seq(*i))
        else:
            out.append(i)
    return tuple(out)


def cons(items, rest):
    for i in reversed(items):
        rest = (i, rest)
    return rest


END = None


_cur = [_ae.State()]


def fld(root, path=""):
    """The term the interpreter produces for *root.path (root a reference)."""
    return _cur[0].load((("X", sym(root)), elems(path) if path else ()))


class Types:
    def __init__(self, crate):
        self.c = crate

    def adt(self, name):
        if name == "Option":
            return self.c.adts["std::option::Option"]
        return self.c.adt(name)

    def discr(self, v, enum):
        a = self.adt(enum)
        if v.k == "agg" and v.a[0] == "adt":
            for nm, d, _ in a["variants"]:
                if nm == v.a[2]:
                    return K(d)
        return mk("discr", v, frozenset(d for _, d, _ in a["variants"]))

    def is_(self, v, enum, variant):
        a = self.adt(enum)
        for nm, d, _ in a["variants"]:
            if nm == variant:
                return op("Eq", self.discr(v, enum), K(d))
        raise KeyError(enum + "::" + variant)


def idx(v, i):
    return proj(v, ("i", K(i)))


def Not(v):
    return op("Not", v)


def And(*vs):
    r = vs[0]
    for v in vs[1:]:
        r = op("And", r, v)
    return r


def Or(*vs):
    r = vs[0]
    for v in vs[1:]:
        r = op("Or", r, v)
    return r


_rest = {}


def rest_atoms(auto):
    """Atoms of every condition in the remaining grammar."""
    if auto is END:
        return frozenset()
    todo = []
    a = auto
    while a is not END and a not in _rest:
        todo.append(a)
        a = a[1]
    r = _rest[a] if a is not END else frozenset()
    for a in reversed(todo):
        s = _item_atoms(a[0])
        if not s <= r:
            r = r | s
        _rest[a] = r
    return r


_ia = {}


def _item_atoms(it):
    r = _ia.get(it)
    if r is None:
        s = set()
        if it[0] == "If":
            leaves(it[1], s)
            for x in it[2] + it[3]:
                s |= _item_atoms(x)
        elif it[0] == "R":
            for x in it[1]:
                s |= _item_atoms(x)
        elif it[0] == "F" and is_bool(it[3]):
            leaves(it[3], s)
        r = _ia[it] = frozenset(s)
    return r


# ------------------------------------------------------------- value equality
def evalv(v, env):
    """Concrete value of a term under leaf values; None when unknown."""
    if v.k == "k":
        return int(v.a[0]) if type(v.a[0]) in (int, bool) else None
    if v in env:
        return env[v]
    if v.k == "cast":
        x = evalv(v.a[1], env)
        if x is None:
            return None
        t = v.a[0]
        if t in BITS and t != "bool":
            b = BITS[t]
            x &= (1 << b) - 1
            if t[0] == "i" and x >= 1 << (b - 1):
                x -= 1 << b
        return x
    if v.k == "call":
        last = v.a[0].rsplit("::", 1)[-1]
        xs = [evalv(x, env) for x in v.a[1]]
        if None in xs:
            return None
        if last == "leading_zeros":
            b = BITS.get(v.a[0].split("::")[-2], 32)
            return b - (xs[0] & ((1 << b) - 1)).bit_length()
        if last == "trailing_zeros" and xs[0]:
            return (xs[0] & -xs[0]).bit_length() - 1
        return None
    if v.k == "op":
        xs = [evalv(x, env) for x in v.a[1]]
        if None in xs:
            return None
        r = op(v.a[0], *[K(x) for x in xs])
        if isk(r):
            return int(r.a[0])
    return None


_atoms = {}
_held = {}


def held_atoms(v):
    r = _held.get(v)
    if r is None:
        if v.k == "agg":
            s = set()
            for x in v.a[4]:
                s |= held_atoms(x)
        elif v.k in ("op", "discr", "proj", "cast"):
            s = atoms(v)
        else:
            s = ()
        r = _held[v] = frozenset(s)
    return r


def atoms(v):
    r = _atoms.get(v)
    if r is None:
        s = set()
        leaves(v, s)
        for x in list(s):
            if x.k == "discr":
                s.add(x.a[0])
        r = _atoms[v] = frozenset(s)
    return r


_lv = {}


def fact_keep(v, an):
    r = _lv.get(v)
    if r is None:
        s = set()
        leaves(v, s)
        r = _lv[v] = tuple(s)
    return bool(r) and all(
        x in an or (x.k == "discr" and x.a[0] in an) for x in r)


def leaves(v, out):
    if v.k == "k":
        return
    if v.k == "cast":
        leaves(v.a[1], out)
    elif v.k == "op":
        for x in v.a[1]:
            leaves(x, out)
    elif v.k == "call" and v.a[0].rsplit("::", 1)[-1] in (
            "leading_zeros", "trailing_zeros"):
        for x in v.a[1]:
            leaves(x, out)
    else:
        out.add(v)


GRID = (0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 12, 15, 16, 17, 31, 32, 63, 64, 100,
        127, 128, 200, 254, 255, 256, 511, 512, 1023, 1024, 1920, 4095, 4096,
        65534, 65535, 65536, 1 << 20, (1 << 31) - 1, -1, -2, -7, -8, -63, -64,
        -128)


def _strip(v, bits):
    while v.k == "cast" and BITS.get(v.a[0], 0) >= bits:
        v = v.a[1]
    return v


def same_value(st, want, got, bits):
    """want == got on every state described by st?  True / False / None."""
    w, g = _strip(want, bits), _strip(got, bits)
    if w is g:
        return True
    if isk(w) and isk(g):
        return int(w.a[0]) == int(g.a[0])
    rw, rg = f_single(st.rng(w)), f_single(st.rng(g))
    if rw is not None and rg is not None:
        return rw == rg
    dw, dg = st.decide(w) if is_bool(w) else None, \
        st.decide(g) if is_bool(g) else None
    if dw is not None and dg is not None:
        return dw == dg
    if dw is not None and rg is not None:
        return int(dw) == rg
    if dg is not None and rw is not None:
        return int(dg) == rw
    d = st.decide(op("Eq", w, g))
    if d is not None:
        return d
    ls = set()
    leaves(w, ls)
    lg = set()
    leaves(g, lg)
    if any(x.k in ("hv",) for x in ls | lg) and ls != lg:
        return None
    allv = sorted(ls | lg, key=show)
    if len(allv) > 4 or (ls != lg and not (ls <= lg or lg <= ls)):
        return None
    doms = []
    for x in allv:
        f = st.rng(x)
        d = [n for n in GRID if f_has(f, n)]
        lo, hi = f_lohi(f)
        if lo is not None and lo not in d:
            d.append(lo)
        if hi is not None and hi not in d:
            d.append(hi)
        if x.k == "discr":
            d = [n for n in d if 0 <= n < 24]
        if len(allv) > 2:
            d = d[:14] + d[-3:]
        doms.append(d)
    n = 0
    for tup_ in itertools.product(*doms):
        env = dict(zip(allv, tup_))
        x, y = evalv(w, env), evalv(g, env)
        if x is None or y is None:
            return None
        if x < 0 or x >= 1 << max(bits, 1):
            continue            # outside the field: not encodable anyway
        n += 1
        if x != y:
            return False
    return True if n >= 2 else None


def is_bool(v):
    return v.k == "op" and v.a[0] in _ae.BOOLOPS


# ------------------------------------------------------------- the matcher
class Matcher:
    def __init__(self, ctx, name, fn):
        self.ctx = ctx
        self.name = name
        self.fn = fn
        self.bad = {}
        self.hit = set()
        self.matched = 0

    def miss(self, where, what, line=0):
        self.bad.setdefault(where, (what, line))

    def head(self, st):
        """Reduce leading Ifs; yields (state with plain head)."""
        work = [st]
        while work:
            s = work.pop()
            a = s.auto
            if a is END or a[0][0] != "If":
                yield s
                continue
            it, rest = a
            d = s.decide(it[1])
            if d is None:
                for t in (True, False):
                    for s2 in s.copy().assume(it[1], t):
                        s2.auto = cons(it[2] if t else it[3], rest)
                        work.append(s2)
            else:
                s.auto = cons(it[2] if d else it[3], rest)
                work.append(s)

    def event(self, st, ev, line):
        """ev = ('F'|'S', width V, value V) or ('E', name, args)."""
        out = []
        for s in self.head(st):
            out.extend(self._match(s, ev, line, 0))
        return out

    def _match(self, s, ev, line, depth):
        a = s.auto
        if a is END:
            self.miss("extra", "writes %s where the syntax has ended" %
                      evstr(ev), line)
            return []
        it, rest = a
        if it[0] == "If":
            out = []
            for s2 in self.head(s):
                out.extend(self._match(s2, ev, line, depth))
            return out
        if it[0] == "R":
            # try the body, else skip
            s2 = s.copy()
            s2.auto = cons(it[1], (it, rest))
            keep = dict(self.bad)
            r = self._match(s2, ev, line, depth + 1)
            if r:
                self.bad = keep
                return r
            self.bad = keep
            s3 = s.copy()
            s3.auto = rest
            return self._match(s3, ev, line, depth + 1)
        if it[0] == "Any":
            s2 = s.copy()
            s2.auto = rest
            if rest is not END:
                keep = dict(self.bad)
                r = self._match(s2, ev, line, depth + 1)
                if r:
                    return r
                self.bad = keep
            return [s]
        # several narrow fields written at once
        if ev[0] == "F" and it[0] == "F" and isk(ev[1]) and isk(it[2]) and \
                ev[1].a[0] > it[2].a[0]:
            return self.merged(s, ev, line)
        if ev[0] != it[0]:
            self.miss(it[1], "writes %s where %s is expected" % (
                evstr(ev), itstr(it)), line)
            return []
        if ev[0] == "E":
            if ev[1] != it[1]:
                self.miss(it[1], "writes %s where %s is expected" % (
                    evstr(ev), itstr(it)), line)
                return []
            for w, g in zip(it[2], ev[2]):
                if w is not None and same_value(s, w, g, 64) is not True:
                    self.miss(it[1], "%s is written with %s instead of %s" % (
                        it[1], show(g)[:100], show(w)[:100]), line)
                    return []
            s.auto = rest
            self.hit.add(it)
            self.matched += 1
            return [s]
        if same_value(s, it[2], ev[1], 32) is not True:
            self.miss(it[1], "%s is written with %s bits instead of %s" % (
                it[1], show(ev[1])[:80], show(it[2])[:80]), line)
            return []
        bits = it[2].a[0] if isk(it[2]) else 32
        return self.value(s, it, rest, ev[2], bits, line)

    def value(self, s, it, rest, got, bits, line):
        want = it[3]
        out = []
        for s2 in self.splitbool(s, want):
            w = want
            r = same_value(s2, w, got, bits)
            if r is not True:
                # maybe the code value splits the state further
                ok_ = False
                if is_bool(got):
                    ok_ = True
                    for t in (True, False):
                        for s3 in s2.copy().assume(got, t):
                            if same_value(s3, w, K(int(t)), bits) is not True:
                                ok_ = False
                if not ok_:
                    self.miss(it[1], "%s is written as %s instead of %s" % (
                        it[1], show(got)[:120], show(want)[:120]), line)
                    continue
            s2.auto = rest
            self.hit.add(it)
            self.matched += 1
            out.append(s2)
        return out

    def splitbool(self, s, want):
        if is_bool(want) and s.decide(want) is None:
            for t in (True, False):
                for s2 in s.copy().assume(want, t):
                    yield s2
        else:
            yield s

    def merged(self, s, ev, line):
        total = ev[1].a[0]
        val = None
        got = 0
        a = s.auto
        its = []
        while got < total:
            if a is END:
                break
            it, rest = a
            if it[0] == "If":
                d = s.decide(it[1])
                if d is None:
                    break
                a = cons(it[2] if d else it[3], rest)
                continue
            if it[0] != "F" or not isk(it[2]):
                break
            w = it[2].a[0]
            val = it[3] if val is None else op(
                "BitOr", op("Shl", val, K(w)), it[3])
            got += w
            its.append(it)
            a = rest
        if got != total:
            it = s.auto[0]
            self.miss(it[1], "%s is written with %s bits instead of %s" % (
                it[1], show(ev[1])[:80], show(it[2])[:80]), line)
            return []
        if same_value(s, val, ev[2], total) is not True:
            self.miss(its[0][1], "%s are written together as %s" % (
                "+".join(i[1] for i in its), show(ev[2])[:120]), line)
            return []
        s.auto = a
        self.hit.update(its)
        self.matched += len(its)
        return [s]

    def end(self, st):
        for s in self.head(st):
            a = s.auto
            while a is not END and a[0][0] in ("R", "Any"):
                a = a[1]
            if a is not END and a[0][0] == "If":
                s.auto = a
                self.end(s)
                continue
            if a is not END:
                self.miss(a[0][1], "the header ends without %s" %
                          itstr(a[0]))


def evstr(ev):
    if ev[0] == "E":
        return "%s(%s)" % (ev[1], ", ".join(show(x)[:60] for x in ev[2]))
    return "%s bits of %s" % (show(ev[1])[:40], show(ev[2])[:80])


def itstr(it):
    if it[0] == "E":
        return it[1]
    return "%s (%s bits)" % (it[1], show(it[2])[:40])


def allfields(items):
    for it in items:
        if it[0] == "If":
            yield from allfields(it[2])
            yield from allfields(it[3])
        elif it[0] == "R":
            yield from allfields(it[1])
        elif it[0] in "FSE":
            yield it


WR = {"write", "write_bit", "write_var", "write_signed", "write_signed_var",
      "write_bytes", "byte_align", "write_unsigned", "write_unsigned_var",
      "write_const", "write_from", "write_unary", "pad"}


def bitio_event(ae, st, name, rec, args):
    """Translate a bitstream_io call into an event, or None."""
    if "BitWrite" not in name:
        return None
    last = name.rsplit("::", 1)[-1]
    if last not in WR:
        return None
    if last == "write_bit":
        return ("F", K(1), args[1])
    if last in ("write", "write_unsigned"):
        a = rec["a"][1] if len(rec["a"]) > 1 else None
        w = ae_const(ae, st, a)
        return ("F", w, args[1])
    if last in ("write_var", "write_unsigned_var"):
        return ("F", args[1], args[2])
    if last == "write_signed":
        return ("S", ae_const(ae, st, rec["a"][1]), args[1])
    if last == "write_signed_var":
        return ("S", args[1], args[2])
    if last == "write_bytes":
        return ("E", "bytes", (ae.value_of(st, args[1]),))
    if last == "byte_align":
        return ("E", "align", ())
    return ("E", last, ())


def ae_const(ae, st, a):
    if isinstance(a, dict) and "c" in a:
        try:
            return K(int(a["c"]))
        except ValueError:
            return sym("const:" + a["c"])
    return sym("width?")


def check(ctx, name, fn, grammar, prims=(), rel=(), cell=None, inline=None,
          args=None, call=None, skip=(), max_steps=300000, final="Ok",
          event=None, quiet=False, crate=None):
    """Interpret fn against grammar; one obligation per grammar field."""
    m = Matcher(ctx, name, fn)

    def hook(a, st, nm, rnm, rec, args_, site, line):
        if call is not None:
            r = call(a, st, nm, rnm, rec, args_, site, line)
            if r is not None:
                return r
        last = nm.rsplit("::", 1)[-1]
        if last in skip:
            return [(st, ok(UNIT))]
        if last in prims:
            ev = ("E", last, tuple(a.value_of(st, x) for x in args_[1:]))
        else:
            ev = bitio_event(a, st, nm, rec, args_)
            if ev is None and event is not None:
                ev = event(a, st, nm, rnm, rec, args_, line)
        if ev is None:
            return None
        return [(s, ok(UNIT)) for s in m.event(st, ev, line)]
    pol = CellPolicy(rel, inline, hook)
    pol.auto_names = rest_atoms
    pol.fact_keep = fact_keep
    pol.hold = True
    pol.held_atoms = held_atoms
    pol.base_facts = {}
    pol.max_steps = max_steps
    a = _ae.AE(crate or ctx.lib, pol)
    st = a.start(fn, args)
    for p, v in (cell or {}).items():
        r, q = p.split(":", 1) if ":" in p else ("fi", p)
        lv = (("X", sym(r)), elems(q) if q else ())
        if isinstance(v, V):
            st.put(lv, v)
        else:
            st.facts[st.load(lv)] = v
            pol.base_facts[st.load(lv)] = v
    if callable(grammar):
        _cur[0] = st
        try:
            grammar = grammar()
        finally:
            _cur[0] = _ae.State()
    g = seq(*grammar)
    st.auto = cons(g, END)
    outs = a.run(st)
    n = 0
    for o in outs:
        if o.kind != "ret":
            continue
        v = o.ret
        if final == "Ok" and v.k == "agg" and v.a[2] == "Err":
            continue
        n += 1
        m.end(o.st)
    ctx.saw(*a.fns_seen)
    ctx.count("abstract_steps", a.steps)
    ctx.count("events_matched", m.matched)
    ctx.obls += len(list(allfields(g)))
    if not n and not m.bad:
        ctx.violate(name + ":no-path", "%s never completes" % fn.nname,
                    fn.loc())
    if not quiet:
        for w, (what, line) in m.bad.items():
            ctx.violate("%s:%s" % (name, w), "%s: %s" % (name, what),
                        "%s:%d" % (fn.loc().rsplit(":", 1)[0], line))
    return m

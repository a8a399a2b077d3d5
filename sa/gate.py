"""Partitioned abstract interpretation: run a function on a cell of inputs."""
from . import ae as _ae
from .val import *


class CellPolicy(_ae.Policy):
    def __init__(self, rel, inline=None, call=None):
        self.relevant = set(rel) if rel is not None else None
        self._inl = inline
        self._call = call

    def inline(self, a, st, fn):
        return True if self._inl is None else self._inl(a, st, fn)

    def call(self, a, st, name, rname, rec, args, site, line):
        return self._call(a, st, name, rname, rec, args, site, line) \
            if self._call else None


def elems(path):
    """'enc.level_idx@Some.0' -> ('.enc', '.level_idx', '@Some', '.0')"""
    out = []
    cur = ""
    for ch in "." + path:
        if ch in ".@*" and cur:
            out.append(cur)
            cur = ""
        cur += ch
    out.append(cur)
    return tuple(e for e in out if e != ".")


def run_cell(c, fn, cell, rel=None, args=None, root="self", inline=None,
             call=None, ctx=None, max_steps=400000, auto=None,
             count=0):
    """Interpret fn with argument `root` constrained by cell {path: fact|V}."""
    pol = CellPolicy(rel, inline, call)
    pol.max_steps = max_steps
    pol.count_unroll = count
    pol.max_unroll = max(pol.max_unroll, count)
    a = _ae.AE(c, pol)
    st = a.start(fn, args or [sym(root)], auto=auto)
    for p, v in cell.items():
        r, q = (root, p) if ":" not in p else p.split(":", 1)
        lv = (("X", sym(r)), elems(q))
        if isinstance(v, V):
            st.put(lv, v)
            if pol.relevant is not None:
                pol.relevant |= {x.a[0] for x in subterms(v) if x.k == "sym"}
        else:
            s = sym(r + "." + q)
            if pol.relevant is not None:
                pol.relevant.add(r + "." + q)
            st.put(lv, s)
            st.facts[s] = v
    outs = a.run(st)
    if ctx is not None:
        ctx.saw(*a.fns_seen)
        ctx.count("cells")
        ctx.count("abstract_steps", a.steps)
    return [o for o in outs if o.kind == "ret"], a


def variant(v):
    """('Ok'|'Err'|'Some'|'None'|..., payload) of an aggregate result."""
    if v.k == "agg" and v.a[0] == "adt":
        return v.a[2], (v.a[4][0] if v.a[4] else None)
    return None, v


def err_name(v):
    n, p = variant(v)
    if n == "Err" and p is not None and p.k == "agg":
        return "Err:" + str(p.a[2])
    return n

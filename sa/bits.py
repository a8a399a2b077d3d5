"""Bit provenance: which input bit each bit of an integer term is."""
from .val import *

TOP = ("?",)


def bits(v, w):
    """64 entries: 0 | 1 | (V, i), or None when a bit is not a plain copy.
    w: V -> (width, signed) of the leaves."""
    if v in w:
        n, s = w[v]
        b = [(v, i) for i in range(n)]
        return b + [b[-1] if s else 0] * (64 - n)
    if isk(v):
        return [v.a[0] >> i & 1 for i in range(64)] \
            if type(v.a[0]) is int else None
    if v.k == "cast":
        b = bits(v.a[1], w)
        t = v.a[0]
        if b is None or t[:1] not in "iu":
            return b
        k = {"size": 64, "8": 8, "16": 16, "32": 32, "64": 64}.get(t[1:])
        if k is None:
            return None
        return b[:k] + [b[k - 1] if t[0] == "i" else 0] * (64 - k)
    if v.k != "op":
        return None
    n, a = v.a[0], v.a[1:] if not isinstance(v.a[1], tuple) else v.a[1]
    if n in ("Shl", "Shr") and isk(a[1]):
        b, k = bits(a[0], w), a[1].a[0]
        if b is None:
            return None
        return [0] * k + b[:64 - k] if n == "Shl" else b[k:] + [b[-1]] * k
    if n in ("BitOr", "BitAnd", "BitXor", "Add"):
        x, y = bits(a[0], w), bits(a[1], w)
        if x is None or y is None:
            return None
        out = []
        for p, q in zip(x, y):
            if n == "BitAnd":
                r = 0 if 0 in (p, q) else p if q == 1 else q if p == 1 else \
                    p if p == q else None
            elif 0 in (p, q):
                r = q if p == 0 else p
            elif n == "BitOr" and (1 in (p, q) or p == q):
                r = 1 if 1 in (p, q) else p
            else:
                r = None
            if r is None:
                return None
            out.append(r)
        return out
    if n in ("Ne", "Eq") and isk(a[1]) and a[1].a[0] == 0:
        b = bits(a[0], w)
        if b is None or n == "Eq":
            return None
        d = {x for x in b if x != 0}
        return [d.pop()] + [0] * 63 if len(d) == 1 else None
    return None


def rewrite(v, f, memo=None):
    """Replace subterms top-down: f(term) -> replacement | None."""
    memo = {} if memo is None else memo
    if v in memo:
        return memo[v]
    r = f(v)
    if r is None:
        def go(x):
            if isinstance(x, V):
                return rewrite(x, f, memo)
            if type(x) is tuple:
                return tuple(go(y) for y in x)
            return x
        a = tuple(go(x) for x in v.a)
        r = v if a == v.a else \
            op(a[0], *(a[1] if len(a) == 2 and type(a[1]) is tuple else a[1:])) \
            if v.k == "op" else mk(v.k, *a)
    memo[v] = r
    return r


def canon(v, w, known):
    """Replace terms that are exactly a known bit vector by its name.
    known: {tuple of 64 bits: V}"""
    def f(t):
        if t.k not in ("op", "cast"):
            return None
        b = bits(t, w)
        return known.get(tuple(b)) if b is not None else None
    return rewrite(v, f)

"""Evaluate closed integer terms over all values of their atoms."""
import itertools
import re
from .val import *

BITS = {"u8": (0, 255), "u16": (0, 65535), "u32": (0, 2 ** 32 - 1),
        "u64": (0, 2 ** 64 - 1), "usize": (0, 2 ** 64 - 1),
        "i8": (-128, 127), "i16": (-2 ** 15, 2 ** 15 - 1),
        "i32": (-2 ** 31, 2 ** 31 - 1), "i64": (-2 ** 63, 2 ** 63 - 1),
        "isize": (-2 ** 63, 2 ** 63 - 1)}
CMP = {"Lt": lambda a, b: a < b, "Le": lambda a, b: a <= b,
       "Gt": lambda a, b: a > b, "Ge": lambda a, b: a >= b,
       "Eq": lambda a, b: a == b, "Ne": lambda a, b: a != b}


def wrap(x, t):
    lo, hi = BITS[t]
    return (x - lo) % (hi - lo + 1) + lo


def fn_of(v):
    """operator of a term we can evaluate -> (function, operands) | None"""
    if v.k == "cast" and v.a[0] in BITS:
        t = v.a[0]
        return (lambda x: wrap(x, t)), (v.a[1],)
    if v.k not in ("op", "call"):
        return None
    n, a = v.a[0], v.a[1]
    if n in CMP:
        f = CMP[n]
        return (lambda x, y: int(f(x, y))), a
    if n in ("max", "min"):
        return (max if n == "max" else min), a
    s = str(n)
    w = re.search(r"\b([iu](?:8|16|32|64|size))(?:>)?::(\w+)$", s)
    if w:
        t, n2 = w.groups()
        lo, hi = BITS[t]
        r = {"saturating_sub": lambda x, y: max(lo, min(hi, x - y)),
             "saturating_add": lambda x, y: max(lo, min(hi, x + y)),
             "wrapping_sub": lambda x, y: wrap(x - y, t),
             "wrapping_add": lambda x, y: wrap(x + y, t),
             "abs": lambda x: abs(x)}.get(n2)
        if r:
            return r, a
    m = {"Add": lambda x, y: x + y, "Sub": lambda x, y: x - y,
         "Mul": lambda x, y: x * y, "Shr": lambda x, y: x >> y,
         "Shl": lambda x, y: x << y, "BitAnd": lambda x, y: x & y,
         "BitOr": lambda x, y: x | y, "BitXor": lambda x, y: x ^ y,
         "Neg": lambda x: -x,
         "Div": lambda x, y: abs(x) // abs(y) * (1 if (x < 0) == (y < 0)
                                                 else -1),
         "Rem": lambda x, y: abs(x) % abs(y) * (-1 if x < 0 else 1)}
    if n in m:
        return m[n], a
    return None


def atoms(v, stop=None, out=None):
    """Leaves the evaluator cannot look into."""
    out = [] if out is None else out
    if isk(v):
        return out
    f = None if stop and stop(v) else fn_of(v)
    if f is None:
        if v not in out:
            out.append(v)
        return out
    for x in f[1]:
        atoms(x, stop, out)
    return out


def ev(v, env):
    if v in env:
        return env[v]
    if isk(v):
        return v.a[0]
    f = fn_of(v)
    if f is None:
        raise KeyError(show(v))
    return f[0](*[ev(x, env) for x in f[1]])


def lam(v, names):
    """Compile a term into a Python function of its atoms (for big sweeps)."""
    return lambda *xs: ev(v, dict(zip(names, xs)))


SYM = {"Add": "+", "Sub": "-", "Mul": "*", "Shr": ">>", "Shl": "<<",
       "BitAnd": "&", "BitOr": "|", "BitXor": "^"}


def compiled(v, names):
    """The term as a fast Python function of the listed atoms."""
    env = {"max": max, "min": min, "abs": abs, "wrap": wrap}
    pos = {n: "x%d" % i for i, n in enumerate(names)}

    def go(t):
        if t in pos:
            return pos[t]
        if isk(t):
            return repr(t.a[0])
        if t.k == "cast" and t.a[0] in BITS:
            return "wrap(%s,%r)" % (go(t.a[1]), t.a[0])
        n, a = t.a[0], t.a[1]
        if n in SYM:
            return "(%s%s%s)" % (go(a[0]), SYM[n], go(a[1]))
        if n in CMP:
            o = {"Lt": "<", "Le": "<=", "Gt": ">", "Ge": ">=", "Eq": "==",
                 "Ne": "!="}[n]
            return "int(%s%s%s)" % (go(a[0]), o, go(a[1]))
        if n in ("max", "min"):
            return "%s(%s,%s)" % (n, go(a[0]), go(a[1]))
        f = fn_of(t)[0]
        k = "f%d" % len(env)
        env[k] = f
        return "%s(%s)" % (k, ",".join(go(x) for x in a))
    return eval("lambda %s: %s" % (",".join(pos.values()), go(v)), env)

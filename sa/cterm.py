"""Compile closed integer terms to Python functions of their atoms."""
from .val import *
from .tev import BITS

BIN = {"Add": "+", "Sub": "-", "Mul": "*", "Shr": ">>", "Shl": "<<",
       "BitAnd": "&", "BitOr": "|", "BitXor": "^", "Lt": "<", "Le": "<=",
       "Gt": ">", "Ge": ">=", "Eq": "==", "Ne": "!="}


class Opaque(Exception):
    pass


def _div(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def _wrap(x, lo, n):
    return (x - lo) % n + lo


ENV = {"_div": _div, "_wrap": _wrap}


def expr(v, names):
    if v in names:
        return names[v]
    if v.k == "k":
        x = v.a[0]
        if isinstance(x, (int, bool)):
            return "(%d)" % int(x)
    if v.k == "cast" and v.a[0] in BITS:
        lo, hi = BITS[v.a[0]]
        return "_wrap(%s,%d,%d)" % (expr(v.a[1], names), lo, hi - lo + 1)
    if v.k in ("op", "call"):
        n, a = v.a[0], v.a[1]
        if n in BIN and len(a) == 2:
            e = "(%s%s%s)" % (expr(a[0], names), BIN[n], expr(a[1], names))
            return "int%s" % e if n in ("Lt", "Le", "Gt", "Ge", "Eq",
                                        "Ne") else e
        if n in ("min", "max"):
            return "%s(%s,%s)" % (n, expr(a[0], names), expr(a[1], names))
        if n in ("i32::abs", "isize::abs", "i16::abs") and len(a) == 1:
            return "abs(%s)" % expr(a[0], names)
        if n == "Neg":
            return "(-%s)" % expr(a[0], names)
        if n == "Not" and len(a) == 1:
            return "(~%s)" % expr(a[0], names)
        if n == "Div":
            return "_div(%s,%s)" % (expr(a[0], names), expr(a[1], names))
        if n == "Rem":
            x, y = expr(a[0], names), expr(a[1], names)
            return "(%s-_div(%s,%s)*%s)" % (x, x, y, y)
    raise Opaque(show(v)[:120])


def compile_(v, atoms):
    """lambda over `atoms` (list of terms) computing v."""
    names = {a: "a%d" % i for i, a in enumerate(atoms)}
    src = "lambda %s: %s" % (",".join(names.values()), expr(v, names))
    return eval(src, dict(ENV))


def fact(e, r):
    """A recorded fact about the expression e, as a condition."""
    if r[0] == "s":
        return "((%s) in %r)" % (e, tuple(sorted(r[1])))
    s = ["%d <= (%s)" % (r[1], e)] if r[1] is not None else []
    if r[2] is not None:
        s.append("(%s) <= %d" % (e, r[2]))
    if len(r) > 3 and r[3]:
        s.append("(%s) not in %r" % (e, tuple(sorted(r[3]))))
    return "(%s)" % (" and ".join(s) or "True")

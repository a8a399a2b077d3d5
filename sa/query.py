"""Whole-crate queries on the dump."""
from .prog import norm


def field_writes(c, adt, field):
    """Every store to ADT.field: (fn, line, operand-or-rvalue)."""
    want = "." + field
    adtp = c.adt(adt)["adt"]
    for f in c.fns.values():
        if f.is_ext:
            continue
        for bb in f.bbs:
            if bb is None:
                continue
            for s in bb[0]:
                if s[0] != "=":
                    continue
                pl, rv = s[1], s[2]
                if rv[0] == "agg" and rv[1] == "adt" and rv[2][0] == adtp:
                    for n, o in zip(rv[2][2], rv[3]):
                        if n == field:
                            yield f, s[3], ("use", o)
                if len(pl) > 1 and pl[-1] == want and \
                        _base_adt(c, f, pl[:-1]) == adtp:
                    yield f, s[3], rv
            t = bb[1]
            if t[0] == "call" and len(t[3]) > 1 and t[3][-1] == want and \
                    _base_adt(c, f, t[3][:-1]) == adtp:
                yield f, t[5], ("call", t[1])


def field_borrows(c, adt, field):
    """Mutable borrows of ADT.field (or something inside it)."""
    want = "." + field
    adtp = c.adt(adt)["adt"]
    for f in c.fns.values():
        if f.is_ext:
            continue
        for bb in f.bbs:
            if bb is None:
                continue
            for s in bb[0]:
                if s[0] == "=" and s[2][0] in ("ref", "raw") and s[2][1]:
                    pl = s[2][2]
                    for i, e in enumerate(pl[1:], 1):
                        if e == want and _base_adt(c, f, pl[:i]) == adtp:
                            yield f, s[3], pl
                            break


def _base_adt(c, f, pl):
    """Path of the ADT a place has (best effort), None if unknown."""
    t = place_ty(c, f, pl)
    if t is None:
        return None
    ty = c.types[t]
    return ty.get("p") if ty["k"] == "adt" else None


def place_ty(c, f, pl):
    t = f.locals[pl[0]]
    var = None
    for e in pl[1:]:
        ty = c.types[t]
        if e == "*":
            if ty["k"] in ("ref", "ptr"):
                t = ty["e"]
            elif ty["k"] == "adt" and ty.get("a"):
                t = ty["a"][0]
            else:
                return None
        elif isinstance(e, list):
            if "e" not in ty:
                return None
            t = ty["e"]
        elif e[0] == "@":
            var = e[1:]
        elif e[0] == ".":
            t = field_ty(c, ty, e[1:], var)
            var = None
            if t is None:
                return None
    return t


def field_ty(c, ty, name, var=None):
    if ty["k"] == "tuple":
        try:
            return ty["a"][int(name)]
        except (KeyError, ValueError, IndexError):
            return None
    if ty["k"] == "adt":
        a = c.adts.get(ty["p"])
        if not a:
            return None
        for vn, _, fl in a["variants"]:
            if var is None or vn == var:
                for x in fl:
                    if x[0] == name:
                        t = x[1]
                        tt = c.types[t]
                        if tt["k"] == "param" and ty.get("a"):
                            gs = a.get("g") or []
                            if tt["p"] in gs:
                                i = gs.index(tt["p"])
                                if i < len(ty["a"]):
                                    return ty["a"][i]
                        return t
    return None


def const_of(c, f, o):
    """Constant value of an operand through single-assignment temporaries."""
    seen = 0
    while seen < 8:
        seen += 1
        if o[0] in ("k", "kd"):
            return o[2]
        if o[0] in ("p", "m") and len(o[1]) == 1:
            defs = defs_of(f, o[1][0])
            if len(defs) == 1 and defs[0][0] == "use":
                o = defs[0][1]
                continue
        return None


def defs_of(f, local):
    r = []
    for bb in f.bbs:
        if bb is None:
            continue
        for s in bb[0]:
            if s[0] == "=" and s[1] == [local]:
                r.append(s[2])
        t = bb[1]
        if t[0] == "call" and t[3] == [local]:
            r.append(("call", t[1], t[2]))
    return r

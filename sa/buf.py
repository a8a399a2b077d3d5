"""Byte-buffer tracking: what a writer puts into a packet, in order."""
from .val import *


def buf(*items):
    return agg("array", "buf", None, (), list(items))


def is_buf(v):
    return v.k == "agg" and v.a[0] == "array"


def item(name, *vals):
    return mk("call", "@" + name, tuple(vals), None)


def target(a, st, v, n=8):
    """lvalue of the buffer behind a writer value."""
    lv = None
    while n:
        n -= 1
        while v.k == "cast":
            v = v.a[1]
        if v.k == "ref":
            lv = (v.a[0], v.a[1])
            v = st.load(lv)
        elif v.k == "agg" and v.a[1] == "BW":
            v = v.a[4][0]
        else:
            break
    return lv, v


def append(a, st, w, items):
    lv, v = target(a, st, w)
    if lv is None or not is_buf(v):
        return False
    st.put(lv, buf(*(list(v.a[4]) + list(items))))
    return True


def content(a, st, v):
    lv, x = target(a, st, v)
    if is_buf(x):
        return list(x.a[4])
    return [item("bytes", x)]


class BufHooks:
    """prims: writer methods recorded as items (name -> arg selector)."""

    def __init__(self, prims):
        self.prims = prims
        self.lost = []

    def __call__(self, a, st, nm, rnm, rec, args, site, line):
        last = nm.rsplit("::", 1)[-1]
        if last in self.prims and args:
            sel = self.prims[last]
            it = item(last, *sel(a, st, args[1:]))
            if not append(a, st, args[0], [it]):
                self.lost.append((last, line))
            return [(st, ok(UNIT))]
        if nm in ("std::vec::Vec::new", "std::vec::Vec::with_capacity"):
            return [(st, buf())]
        if last == "endian" and "BitWriter" in nm or last == "new" and \
                "BitWriter" in nm:
            return [(st, agg("adt", "BW", None, (".0",), (args[0],)))]
        if "BitWrite" in nm and last in (
                "write_bit", "byte_align", "write", "write_var",
                "write_bytes", "write_signed"):
            if last == "write_bytes":
                its = content(a, st, args[1])
            elif last == "write":
                w = rec["a"][1]
                its = [item("bits", K(int(w["c"])) if isinstance(w, dict)
                            else sym("?"), args[1])]
            else:
                its = [item(last, *args[1:])]
            if not append(a, st, args[0], its):
                self.lost.append((last, line))
            return [(st, ok(UNIT))]
        if last in ("write_all", "extend", "extend_from_slice") and args:
            if append(a, st, args[0], content(a, st, args[1])):
                return [(st, ok(UNIT) if last == "write_all" else UNIT)]
            return None
        if last == "append" and "Vec" in nm:
            c = content(a, st, args[1])
            if append(a, st, args[0], c):
                lv, _ = target(a, st, args[1])
                st.put(lv, buf())
                return [(st, UNIT)]
        if last in ("clear",) and args:
            lv, v = target(a, st, args[0])
            if lv and is_buf(v):
                st.put(lv, buf())
                return [(st, UNIT)]
        if last == "len" and args:
            lv, v = target(a, st, args[0])
            if is_buf(v) and v.a[1] == "buf":
                return [(st, bytelen(v))]
        return None


def bytelen(v):
    return mk("call", "bytelen", (v,), None)

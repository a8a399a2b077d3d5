"""Exact model of short ArrayVec/Vec values whose length is known: the value
of the vector is an array aggregate held in the vector's own place."""
from sa.val import *
from sa.prog import norm

SOME, NONE_ = "Some", "None"


def arr(els):
    return agg("array", None, None, (), tuple(els))


def opt(v=None):
    if v is None:
        return agg("adt", "std::option::Option", "None", (), ())
    return agg("adt", "std::option::Option", "Some", (".0",), (v,))


def is_arr(v):
    return v is not None and v.k == "agg" and v.a[0] == "array"


def _at(st, a):
    if a.k == "ref":
        return st.load((a.a[0], a.a[1]))
    return a


def model(ae, st, m, a, rec, kinds=("ArrayVec",)):
    rp = norm(rec.get("rp") or rec["p"])
    t = ae.c.types[rec["a"][0]] if rec.get("a") and \
        type(rec["a"][0]) is int else None
    ts = t["s"] if t else ""
    if not any(k in rp or k in ts for k in kinds):
        return None
    if m == "new" and not a:
        return [(st, arr([]))]
    if m == "default" and not a:
        return [(st, arr([]))]
    if not a:
        return None
    v = _at(st, a[0])
    if not is_arr(v):
        return None
    els = v.a[4]
    lv = (a[0].a[0], a[0].a[1]) if a[0].k == "ref" else None
    if m in ("push", "push_back", "push_unchecked") and lv:
        st.put(lv, arr(els + (a[1],)))
        return [(st, UNIT)]
    if m == "clear" and lv:
        st.put(lv, arr([]))
        return [(st, UNIT)]
    if m in ("pop_front",) and lv:
        if not els:
            return [(st, opt())]
        st.put(lv, arr(els[1:]))
        return [(st, opt(els[0]))]
    if m in ("pop",) and lv:
        if not els:
            return [(st, opt())]
        st.put(lv, arr(els[:-1]))
        return [(st, opt(els[-1]))]
    if m in ("front_mut", "front", "first", "first_mut") and lv:
        if not els:
            return [(st, opt())]
        return [(st, opt(mk("ref", lv[0], lv[1] + (("i", K(0)),),
                            int(m.endswith("mut")))))]
    if m in ("deref", "deref_mut", "as_slice", "as_mut_slice") and lv:
        return [(st, a[0])]
    if m == "clone" and lv:
        return [(st, v)]
    if m in ("len", "is_empty"):
        return [(st, K(len(els) if m == "len" else int(not els)))]
    if m in ("index", "index_mut") and lv and len(a) > 1 and a[1].k == "k":
        if a[1].a[0] >= len(els):
            return []
        return [(st, mk("ref", lv[0], lv[1] + (("i", a[1]),),
                        int(m == "index_mut")))]
    if m == "into_iter":
        if a[0].k == "ref":
            return [(st, agg("it", "iter", "ref", (".pos", ".src"),
                             (K(0), a[0])))]
        return [(st, agg("it", "iter", "val", (".pos", ".src"),
                         (K(0), mk("ref", ("C", v), (), 0))))]
    return None

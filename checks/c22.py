"""C22: every syntax element is coded with AV1's value and context."""
import itertools
from sa.val import *
from sa.gate import *
from sa.prog import norm
from sa import ae as _ae
from sa.cterm import compile_, Opaque
from sa.tev import atoms
from checks.c18 import last, arr
from checks.c19 import fnamed
from checks.c21 import (en, params, explore, bo_of, bo_xy, wh, SIZES, INTRA,
                        split_once, fields, SETS, ZERO, deref,
                        place)

RULE = """Each writer of a block's syntax elements is interpreted with the
entropy coder opaque, on every neighbour state, block size, mode and value of
its domain (large numeric domains at every class and its limits); the symbols
written, each with the distribution it is coded by, are compared with AV1's
binarization and context derivation, and the context state it leaves with the
one AV1's decoder keeps."""
ASSUME = ["assertions hold (a failing one aborts the encoder)",
          "the distributions' places are compared by field and index; their "
          "contents are C20's"]
CW = "context::cdf_context::ContextWriter::"
BC = "context::block_unit::BlockContext::"
MODES = INTRA + ["UV_CFL_PRED"]
REFS = ["LAST_FRAME", "LAST2_FRAME", "LAST3_FRAME", "GOLDEN_FRAME",
        "BWDREF_FRAME", "ALTREF2_FRAME", "ALTREF_FRAME"]
ALLB = ["4X4", "4X8", "8X4", "8X8", "8X16", "16X8", "16X16", "16X32",
        "32X16", "32X32", "32X64", "64X32", "64X64", "64X128", "128X64",
        "128X128", "4X16", "16X4", "8X32", "32X8", "16X64", "64X16"]
TXS = [(4, 4), (8, 8), (16, 16), (32, 32), (64, 64), (4, 8), (8, 4), (8, 16),
       (16, 8), (16, 32), (32, 16), (32, 64), (64, 32), (4, 16), (16, 4),
       (8, 32), (32, 8), (16, 64), (64, 16)]


def run(ctx):
    parts = [lambda x, t=t: coefs(x, t) for t in reversed(USED)]
    ctx.parallel(parts + [txinter, refs, segment, txintra, coefctx,
                          partition, mvs, txtype, small])
    ctx.floor("coefficient runs", ctx.counts.get("coefficient runs", 0), 300)


def small(ctx):
    flags(ctx)
    intra(ctx)
    inter(ctx)
    lrf(ctx)
    deltas(ctx)
    cfl(ctx)
    txctx(ctx)

# No block rav1e codes has a 4:1 partition of 64x64, and chroma transforms are
# at most 32 in either direction.
USED = [t for t in TXS if set(t) != {16, 64}]


class Run:
    """One path: the symbols it writes and the state it leaves."""

    def __init__(self, o, f):
        self.o, self.f = o, f
        self.ev = list(o.st.auto)
        self.facts = o.st.facts

    def at(self, r, p, *idx):
        pl = place(r, p)
        return self.o.st.load((pl[0], pl[1] + tuple(("i", K(i))
                                                    for i in idx)))


def cdf_name(x):
    """(field path, indices) of the distribution a reference names."""
    if x.k != "ref":
        return ("?" + show(x)[:60], ())
    nm, ix = [], []
    t = x.a[0][1] if x.a[0][0] == "X" else None
    for e in x.a[1]:
        if isinstance(e, str):
            nm.append(e)
        elif e[0] == "i":
            nm.append("[]")
            ix.append(e[1].a[0] if isk(e[1]) else e[1])
        else:
            nm.append(str(e))
    s = "".join(nm)
    root = show(t) if t is not None else "?"
    s = root + s
    for h in ("self.fc*", "self.fc"):
        if s.startswith(h + "."):
            s = s[len(h) + 1:]
            break
    return (s, tuple(ix))


def val_of(v):
    return int(v.a[0]) if isk(v) and isinstance(v.a[0], (int, bool)) else v


def write(ctx, fn, args, blocks=None, vals=None, over=None, dim=None,
          steps=60000, owner=CW, planes=(), unroll=70):
    """Interpret a writer; `blocks` maps (x, y) to the fields of the block
    recorded there."""
    c = ctx.lib
    f = fnamed(ctx, owner + fn)
    a = []
    for p in params(f):
        v = args.get(p)
        a.append(v if v is not None else sym(p))
    vs = dict(vals or {})

    def hook(ae, st, m, x, rec):
        if over:
            r = over(ae, st, m, x, rec)
            if r is not None:
                return r
        p = norm(rec.get("rp") or rec["p"])
        if m == "offset" and "CDFContext" in p:
            return [(st, mk("call", "cdf", (x[1],), None))]
        if m == "symbol_with_update":
            d = x[2]
            d = d.a[1][0] if d.k == "call" and d.a[0] == "cdf" else d
            st.auto = st.auto + (("S", val_of(x[1])) + cdf_name(d),)
            return [(st, UNIT)]
        if m == "symbol":
            t = x[2]
            v = st.load((t.a[0], t.a[1] + (("i", K(0)),))) \
                if t.k == "ref" else t
            st.auto = st.auto + (("D", val_of(x[1]), v, ()),)
            return [(st, UNIT)]
        if m in ("literal", "bit", "bool", "write_golomb",
                 "write_signed_subexp_with_ref") and x and \
                "Bit" not in p.split("::")[0]:
            st.auto = st.auto + ((m,) + tuple(val_of(y) for y in x[1:]),)
            return [(st, UNIT)]
        if m in ("index", "index_mut") and "TileBlocks" in p:
            i = x[1]
            if isk(i):
                return [(st, mk("ref", ("X", sym("ROW%d" % i.a[0])), (), 0))]
            b = bo_xy(i)
            if b:
                return [(st, mk("ref", ("X", sym("ROW%d" % b[1])),
                                (("i", K(b[0])),), 0))]
        r = scalar(st, m, x, rec)
        if r is not None:
            return r
        if m == "write" and "MaybeUninit" in p and len(x) == 2 and \
                x[0].k == "ref":
            st.put((x[0].a[0], x[0].a[1]), x[1])
            return [(st, x[0])]
        if m == "slice_assume_init_mut":
            return [(st, x[0])]
        if "ArrayVec" in p or m == "extend" and x[0].k == "ref" and \
                vec_like(st.load((x[0].a[0], x[0].a[1]))):
            if m == "new" and not x:
                return [(st, arr([]))]
            if m in ("deref", "deref_mut", "as_slice"):
                return [(st, x[0])]
            if m == "extend":
                vs = elements(ae, st, x[1])
                if vs is not None:
                    st, vs = vs
                    old = st.load((x[0].a[0], x[0].a[1]))
                    st.put((x[0].a[0], x[0].a[1]), arr(
                        (list(old.a[4]) if vec_like(old) else []) + vs))
                    return [(st, UNIT)]
        if m == "sum" and len(x) == 1 and x[0].k != "ref":
            vs = elements(ae, st, x[0])
            if vs is not None and all(isk(v) for v in vs[1]):
                return [(vs[0], K(sum(v.a[0] for v in vs[1])))]
        if m == "msb" and isk(x[0]) and x[0].a[0] > 0:
            return [(st, K(x[0].a[0].bit_length() - 1))]
        if m in ("cols", "rows") and "TileBlocks" in p and dim:
            return [(st, K(dim[m == "rows"]))]
        return None
    for (x, y), fl in (blocks or {}).items():
        for k, v in fl.items():
            vs[("ROW%d" % y, "", (x, k))] = v
    flat = {k: v for k, v in vs.items() if len(k) == 2}
    deep = {k: v for k, v in vs.items() if len(k) == 3}
    outs = explore2(ctx, f, a, hook, flat, deep, steps, planes, unroll)
    return [Run(o, f) for o in outs]


ARITH = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b,
         "mul": lambda a, b: a * b, "shl": lambda a, b: a << b,
         "shr": lambda a, b: a >> b, "min": min, "max": max}


def scalar(st, m, x, rec):
    """Arithmetic of the generic coefficient type, on constants."""
    v = [deref_k(st, y) for y in x]
    if m in ("cast_from", "as_", "abs") and len(v) == 1 and isk(v[0]):
        n = v[0].a[0]
        return [(st, K(abs(n) if m == "abs" else int(n)))]
    if rec.get("rkey") or len(v) != 2 or not all(isk(y) for y in v):
        return None
    if m in ARITH:
        return [(st, K(ARITH[m](v[0].a[0], v[1].a[0])))]
    if m in ("add_assign", "sub_assign") and x[0].k == "ref":
        st.put((x[0].a[0], x[0].a[1]), K(ARITH[m[:3]](v[0].a[0], v[1].a[0])))
        return [(st, UNIT)]
    return None


def vec_like(v):
    return v.k == "agg" and v.a[0] == "array"


def elements(ae, st, it):
    """(state, elements) of a finite iterator, None when undecided."""
    st = st.copy()
    root = ("T", "elements", len(st.frames))
    st.store[root] = it
    vs = []
    while len(vs) < 1100:
        r = _ae._next_at(ae, st, (root, ()), ("c22", 0))
        if r is None or len(r) != 1:
            return None
        st, v = r[0]
        if v is NONE:
            return st, vs
        vs.append(v.a[4][0])
    return None


def deref_k(st, y):
    n = 0
    while y.k == "ref" and n < 3:
        y = st.load((y.a[0], y.a[1]))
        n += 1
    return y


def hook_of(over):
    def call(a, st, n, rn, rec, args, site, line):
        m = last(rn or n)
        r = over(a, st, m, args, rec)
        if r is not None:
            return r
        if m in SETS:
            st.auto = st.auto + ((m,) + tuple(
                deref(st, x) for x in args[1:]),)
            return [(st, UNIT)]
        return [(st, K(0))] if rn in ZERO else None
    return call


def explore2(ctx, f, args, over, flat, deep, steps, planes, unroll):
    pol = CellPolicy(None, None, hook_of(over))
    pol.count_unroll = 32
    pol.recurse = 2
    pol.max_unroll = unroll
    pol.max_auto = max(400, unroll * 4)
    pol.static_max = 64 if unroll < 100 else 1100
    pol.merge_on = unroll < 100
    pol.max_steps = steps
    a = _ae.AE(ctx.lib, pol)
    st = a.start(f, args, auto=())
    for (r, p), v in flat.items():
        st.put(place(r, p), v)
    for (r, p, ix), v in deep.items():
        pl = place(r, p)
        path = pl[1]
        for e in ix:
            if e == "->":
                pl = (("X", _ae.State().load((pl[0], path))), ())
                path = ()
                continue
            path = path + ((("i", K(e)),) if isinstance(e, int)
                           else tuple(elems(e)))
        st.put((pl[0], path), v if isinstance(v, V) else K(v))
    outs = [o for o in a.run(st) if o.kind == "ret"]
    ctx.saw(*a.fns_seen)
    ctx.count("cells")
    return outs


def one(ctx, key, fn, args, want, what, line=None, **kw):
    """The writer has one path and writes `want`."""
    rs = write(ctx, fn, args, **kw)
    loc = fnamed(ctx, kw.get("owner", CW) + fn).loc()
    if not ctx.ob(len(rs) == 1, key, "%s: %d outcomes for %s" % (
            fn, len(rs), what), loc):
        return None
    got = rs[0].ev
    ctx.ob(got == want, key, "%s: with %s it writes %s, AV1 reads %s" % (
        fn, what, evs(got), evs(want)), loc)
    return rs[0]


def evs(ev):
    return "[" + ", ".join(" ".join(
        show(x)[:40] if isinstance(x, V) else str(x) for x in e)
        for e in ev) + "]"


def block(c, mode="DC_PRED", ref=("INTRA_FRAME", "NONE_FRAME"), **kw):
    d = {"mode": en(c, "PredictionMode", mode),
         "ref_frames": arr([en(c, "RefType", r) for r in ref])}
    d.update(kw)
    return d


POS = {(1, 1): (4, 4), (1, 0): (4, 0), (0, 1): (0, 4), (0, 0): (0, 0)}


def neighbours(states):
    """(left available, above available) x states of those available:
    (position, left state or None, above state or None)"""
    for left, up in POS:
        x, y = (4 if left else 0), (4 if up else 0)
        for l in (states if left else (None,)):
            for a in (states if up else (None,)):
                yield (x, y), l, a


def around(pos, l, a):
    x, y = pos
    d = {}
    if l is not None:
        d[(x - 1, y)] = l
    if a is not None:
        d[(x, y - 1)] = a
    return d


# --------------------------------------------------- skip, intra/inter
def flags(ctx):
    c = ctx.lib
    for pos, l, a in neighbours((0, 1)):
        for skip in (0, 1):
            one(ctx, "skip", "write_skip",
                {"bo": bo_of(c, K(pos[0]), K(pos[1])), "skip": K(skip)},
                [("S", skip, "skip_cdfs[]", ((l or 0) + (a or 0),))],
                "left skip %s, above skip %s" % (l, a),
                blocks=around(pos, l is not None and {"skip": K(l)} or None,
                              a is not None and {"skip": K(a)} or None))
    kinds = {0: block(c), 1: block(c, "NEARESTMV", ("LAST_FRAME",
                                                    "NONE_FRAME")),
             2: block(c, "PAETH_PRED"),
             3: block(c, "NEW_NEWMV", ("GOLDEN_FRAME", "ALTREF_FRAME"))}
    for pos, l, a in neighbours((0, 1, 2, 3)):
        li = l is not None and l in (0, 2)
        ai = a is not None and a in (0, 2)
        if l is not None and a is not None:
            k = 3 if li and ai else int(li or ai)
        else:
            k = 2 * int(li or ai)
        for v in (0, 1):
            one(ctx, "is_inter", "write_is_inter",
                {"bo": bo_of(c, K(pos[0]), K(pos[1])), "is_inter": K(v)},
                [("S", v, "intra_inter_cdfs[]", (k,))],
                "left %s, above %s" % (l, a),
                blocks=around(pos, kinds.get(l), kinds.get(a)))


# --------------------------------------------------------- intra modes
CTX_OF_MODE = [0, 1, 2, 3, 4, 4, 4, 4, 3, 0, 1, 2, 0]
SIZE_GROUP = [0, 0, 0, 1, 1, 1, 2, 2, 2, 3, 3, 3, 3, 3, 3, 3, 0, 0, 1, 1, 2,
              2]


def intra(ctx):
    c = ctx.lib
    n = 0
    for pos, l, a in neighbours(range(13)):
        n += 1
        for m in ((n + 5) % 13,) if l is not None and a is not None \
                else range(13):
            one(ctx, "kf_mode", "write_intra_mode_kf",
                {"bo": bo_of(c, K(pos[0]), K(pos[1])),
                 "mode": en(c, "PredictionMode", INTRA[m])},
                [("S", m, "kf_y_cdf[][]", (CTX_OF_MODE[a or 0],
                                           CTX_OF_MODE[l or 0]))],
                "left mode %s, above mode %s" % (l, a),
                blocks=around(
                    pos, l is not None and block(c, INTRA[l]) or None,
                    a is not None and block(c, INTRA[a]) or None))
    for i, b in enumerate(ALLB):
        bs = en(c, "BlockSize", "BLOCK_" + b)
        w, h = wh("BLOCK_" + b)
        for m in range(13):
            mode = en(c, "PredictionMode", INTRA[m])
            one(ctx, "y_mode", "write_intra_mode", {"bsize": bs, "mode": mode},
                [("S", m, "y_mode_cdf[]", (SIZE_GROUP[i],))],
                "a %s block" % b)
            for uv in (range(14) if m == 0 else (m, 0, 13)):
                cfl_ = max(w, h) <= 32
                if uv == 13 and not cfl_ or i >= 13:
                    continue
                one(ctx, "uv_mode", "write_intra_uv_mode",
                    {"uv_mode": en(c, "PredictionMode", MODES[uv]),
                     "y_mode": mode, "bs": bs},
                    [("S", uv, "uv_mode_cfl_cdf[]" if cfl_ else
                      "uv_mode_cdf[]", (m,))], "a %s block of mode %s" % (
                          b, INTRA[m]))
        for v in (0, 1):
            one(ctx, "filter_intra", "write_use_filter_intra",
                {"enable": K(v), "block_size": bs},
                [("S", v, "filter_intra_cdfs[]", (i,))], "a %s block" % b)
    for m in range(1, 9):
        for d in range(-3, 4):
            one(ctx, "angle", "write_angle_delta",
                {"angle": K(d), "mode": en(c, "PredictionMode", INTRA[m])},
                [("S", d + 3, "angle_delta_cdf[]", (m - 1,))],
                "mode %s, delta %d" % (INTRA[m], d))
    for b in SIZES:
        w, h = wh(b)
        if min(w, h) < 8:
            continue
        for ym, uvm in itertools.product(("DC_PRED", "V_PRED"), repeat=2):
            for mono in (0, 1):
                want = []
                if ym == "DC_PRED":
                    want.append(("S", 0, "palette_y_mode_cdfs[][]", (
                        w.bit_length() + h.bit_length() - 8, 0)))
                if uvm == "DC_PRED" and not mono:
                    want.append(("S", 0, "palette_uv_mode_cdfs[]", (0,)))
                one(ctx, "palette", "write_use_palette_mode",
                    {"enable": K(0), "bsize": en(c, "BlockSize", b),
                     "bo": bo_of(c, K(4), K(4)),
                     "luma_mode": en(c, "PredictionMode", ym),
                     "chroma_mode": en(c, "PredictionMode", uvm),
                     "xdec": K(1), "ydec": K(1),
                     "cs": en(c, "ChromaSampling",
                              "Cs400" if mono else "Cs420")}, want,
                    "%s, luma %s, chroma %s, mono %d" % (b, ym, uvm, mono))


# ------------------------------------------------------ reference frames
def bwd(r):
    return r in ("BWDREF_FRAME", "ALTREF2_FRAME", "ALTREF_FRAME")


def refstates():
    st = [("INTRA_FRAME", "NONE_FRAME")]
    st += [(r, "NONE_FRAME") for r in REFS]
    st += [(f, b) for f in REFS[:4] for b in REFS[4:]]
    return st


def counts_of(l, a):
    n = dict.fromkeys(REFS, 0)
    for s in (l, a):
        if s is not None:
            for r in s:
                if r in n:
                    n[r] += 1
    return n


def cmp_ctx(x, y):
    return 0 if x < y else 1 if x == y else 2


def ref_ctx(n, which):
    L, L2, L3, G, B, A2, A = (n[r] for r in REFS)
    x, y = {1: (L + L2 + L3 + G, B + A2 + A), 2: (B + A2, A),
            3: (L + L2, L3 + G), 4: (L, L2), 5: (L3, G), 6: (B, A2)}[which]
    return cmp_ctx(x, y)


def comp_ctx(l, a):
    def f(s):
        return (s[1] == "NONE_FRAME", s[0] == "INTRA_FRAME", bwd(s[0]))
    if l is not None and a is not None:
        (ls, li, lb), (as_, ai, ab) = f(l), f(a)
        if as_ and ls:
            return int(ab ^ lb)
        if as_:
            return 2 + int(ab or ai)
        if ls:
            return 2 + int(lb or li)
        return 4
    s = a if a is not None else l
    if s is None:
        return 1
    s, i, b = f(s)
    return int(b) if s else 3


def comp_type_ctx(l, a):
    up, left = a is not None, l is not None
    l = l or ("INTRA_FRAME", "NONE_FRAME")
    a = a or ("INTRA_FRAME", "NONE_FRAME")

    def samedir(x, y):
        return bwd(x) == bwd(y)
    ai, li = a[0] == "INTRA_FRAME", l[0] == "INTRA_FRAME"
    ac = up and not ai and a[1] != "NONE_FRAME"
    lc = left and not li and l[1] != "NONE_FRAME"
    au, lu = ac and samedir(*a), lc and samedir(*l)
    if up and not ai and left and not li:
        sd = int(samedir(a[0], l[0]))
        if not ac and not lc:
            return 1 + 2 * sd
        if not ac:
            return 1 if not lu else 3 + sd
        if not lc:
            return 1 if not au else 3 + sd
        if not au and not lu:
            return 0
        if not au or not lu:
            return 2
        return 3 + int((a[0] == "BWDREF_FRAME") == (l[0] == "BWDREF_FRAME"))
    if up and left:
        return 1 + 2 * int(au) if ac else 1 + 2 * int(lu) if lc else 2
    return 4 * int(au) if ac else 4 * int(lu) if lc else 2


def refs(ctx):
    c = ctx.lib
    states = refstates()

    def blk(s):
        if s is None:
            return None
        m = "DC_PRED" if s[0] == "INTRA_FRAME" else \
            "NEWMV" if s[1] == "NONE_FRAME" else "NEW_NEWMV"
        return block(c, m, s)
    own = [(r, "NONE_FRAME") for r in REFS] + [
        ("LAST_FRAME", "BWDREF_FRAME"), ("LAST2_FRAME", "ALTREF2_FRAME"),
        ("LAST3_FRAME", "ALTREF_FRAME"), ("GOLDEN_FRAME", "BWDREF_FRAME")]
    for pos, l, a in neighbours(states):
        n = counts_of(l, a)
        rs = write(ctx, "fill_neighbours_ref_counts",
                   {"bo": bo_of(c, K(pos[0]), K(pos[1]))},
                   blocks=around(pos, blk(l), blk(a)))
        f = fnamed(ctx, CW + "fill_neighbours_ref_counts")
        if not ctx.ob(len(rs) == 1, "ref_counts", "%d outcomes" % len(rs),
                      f.loc()):
            continue
        got = [rs[0].o.st.load((("X", sym("ROW%d" % pos[1])), (
            ("i", K(pos[0])), ".neighbors_ref_counts", ("i", K(i)))))
            for i in range(7)]
        want = [K(n[r]) for r in REFS]
        ctx.ob(got == want, "ref_counts", "with left %s and above %s the "
               "reference counts are %s" % (l, a, [show(g) for g in got]),
               f.loc())
        for s in own:
            ref_one(ctx, pos, l, a, s, blk, n)
    # small blocks and frames without compound prediction
    for sz in ((1, 4), (4, 1), (2, 2), (16, 16)):
        for mode in [v[0] for v in c.adt("ReferenceMode")["variants"]]:
            ref_one(ctx, (4, 4), ("LAST_FRAME", "NONE_FRAME"),
                    ("LAST2_FRAME", "NONE_FRAME"),
                    ("LAST2_FRAME", "NONE_FRAME"), blk,
                    counts_of(("LAST_FRAME", "NONE_FRAME"),
                              ("LAST2_FRAME", "NONE_FRAME")), sz, mode)


def ref_one(ctx, pos, l, a, s, blk, n, sz=(2, 2), mode="SELECT"):
    c = ctx.lib
    bl = around(pos, blk(l), blk(a))
    me = blk(s)
    me["n4_w"], me["n4_h"] = K(sz[0]), K(sz[1])
    me["neighbors_ref_counts"] = arr([K(n[r]) for r in REFS])
    bl[pos] = me
    comp = s[1] != "NONE_FRAME"
    want = []

    def bit(v, name, *ix):
        want.append(("S", int(v), name, ix))
    if mode != "SINGLE" and min(sz) >= 2:
        bit(comp, "comp_mode_cdf[]", comp_ctx(l, a))
    r = s[0]
    if comp:
        bit(1, "comp_ref_type_cdf[]", comp_type_ctx(l, a))
        hi = r in ("LAST3_FRAME", "GOLDEN_FRAME")
        bit(hi, "comp_ref_cdf[][]", ref_ctx(n, 3), 0)
        if hi:
            bit(r == "GOLDEN_FRAME", "comp_ref_cdf[][]", ref_ctx(n, 5), 2)
        else:
            bit(r == "LAST2_FRAME", "comp_ref_cdf[][]", ref_ctx(n, 4), 1)
        bit(s[1] == "ALTREF_FRAME", "comp_bwd_ref_cdf[][]", ref_ctx(n, 2), 0)
        if s[1] != "ALTREF_FRAME":
            bit(s[1] == "ALTREF2_FRAME", "comp_bwd_ref_cdf[][]",
                ref_ctx(n, 6), 1)
    else:
        bit(bwd(r), "single_ref_cdfs[][]", ref_ctx(n, 1), 0)
        if bwd(r):
            bit(r == "ALTREF_FRAME", "single_ref_cdfs[][]", ref_ctx(n, 2), 1)
            if r != "ALTREF_FRAME":
                bit(r == "ALTREF2_FRAME", "single_ref_cdfs[][]",
                    ref_ctx(n, 6), 5)
        else:
            hi = r in ("LAST3_FRAME", "GOLDEN_FRAME")
            bit(hi, "single_ref_cdfs[][]", ref_ctx(n, 3), 2)
            if hi:
                bit(r == "GOLDEN_FRAME", "single_ref_cdfs[][]",
                    ref_ctx(n, 5), 4)
            else:
                bit(r == "LAST2_FRAME", "single_ref_cdfs[][]",
                    ref_ctx(n, 4), 3)
    one(ctx, "refs", "write_ref_frames",
        {"bo": bo_of(c, K(pos[0]), K(pos[1]))}, want,
        "references %s, left %s, above %s, %s" % (s, l, a, mode), blocks=bl,
        vals={("fi", "reference_mode"): en(c, "ReferenceMode", mode)})


# ------------------------------------------------------------ inter modes
COMP_MODE = {"NEAREST_NEARESTMV": 0, "NEAR_NEAR0MV": 1, "NEAR_NEAR1MV": 1,
             "NEAR_NEAR2MV": 1, "NEAREST_NEWMV": 2, "NEW_NEARESTMV": 3,
             "NEAR_NEW0MV": 4, "NEAR_NEW1MV": 4, "NEAR_NEW2MV": 4,
             "NEW_NEAR0MV": 5, "NEW_NEAR1MV": 5, "NEW_NEAR2MV": 5,
             "GLOBAL_GLOBALMV": 6, "NEW_NEWMV": 7}
COMP_MAP = [[0, 1, 1, 1, 1], [1, 2, 3, 4, 4], [4, 4, 5, 6, 7]]


def inter(ctx):
    c = ctx.lib
    for new in range(6):
        for ref in range(6):
            for z in (0, 1):
                mc = K(new | z << 3 | ref << 4)
                for m, v in COMP_MODE.items():
                    if z and v != new:
                        continue
                    one(ctx, "compound_mode", "write_compound_mode",
                        {"mode": en(c, "PredictionMode", m), "ctx": mc},
                        [("S", v, "compound_mode_cdf[]", (
                            COMP_MAP[ref >> 1][min(new, 4)],))],
                        "%s, new_mv %d, ref_mv %d" % (m, new, ref))
                for m in ("NEARESTMV", "NEAR0MV", "NEAR1MV", "NEAR2MV",
                          "GLOBALMV", "NEWMV"):
                    want = [("S", int(m != "NEWMV"), "newmv_cdf[]", (new,))]
                    if m != "NEWMV":
                        want.append(("S", int(m != "GLOBALMV"),
                                     "zeromv_cdf[]", (z,)))
                        if m != "GLOBALMV":
                            want.append(("S", int(m != "NEARESTMV"),
                                         "refmv_cdf[]", (ref,)))
                    one(ctx, "inter_mode", "write_inter_mode",
                        {"mode": en(c, "PredictionMode", m), "ctx": mc}, want,
                        "%s, contexts %d/%d/%d" % (m, new, z, ref))
    for k in range(3):
        for v in (0, 1):
            one(ctx, "drl", "write_drl_mode", {"drl_mode": K(v), "ctx": K(k)},
                [("S", v, "drl_cdfs[]", (k,))], "context %d" % k)


# --------------------------------------------------------- motion vectors
def mv_of(c, row, col):
    ad = c.adt("MotionVector")
    v = {"row": row, "col": col}
    fs = [x[0] for x in ad["variants"][0][2]]
    return agg("adt", ad["adt"], None, tuple("." + x for x in fs),
               tuple(v[x] if isinstance(v[x], V) else K(v[x]) for x in fs))


def mv_syms(comp, axis, prec):
    """AV1's read_mv_component, inverted."""
    mag = abs(comp)
    want = []

    def s(v, name, *ix):
        want.append(("S", v, "nmv_context.comps[]." + name, (axis,) + ix))
    s(int(comp < 0), "sign_cdf")
    # class 0: 1 + (d << 3 | fr << 1 | hp), d one bit; class k: base 2 <<
    # (k + 2), d k bits
    k = 0
    while k < 10 and mag > (2 << (k + 3)):
        k += 1
    base = 0 if k == 0 else 2 << (k + 2)
    off = mag - base - 1
    d, fr, hp = off >> 3, off >> 1 & 3, off & 1
    s(k, "classes_cdf")
    if k == 0:
        s(d, "class0_cdf")
    else:
        for i in range(k):
            s(d >> i & 1, "bits_cdf[]", i)
    if prec >= 0:
        s(fr, "class0_fp_cdf[]", d) if k == 0 else s(fr, "fp_cdf")
    if prec > 0:
        s(hp, "class0_hp_cdf" if k == 0 else "hp_cdf")
    return want


PREC = {-1: "MV_SUBPEL_NONE", 0: "MV_SUBPEL_LOW_PRECISION",
        1: "MV_SUBPEL_HIGH_PRECISION"}


def mvs(ctx):
    c = ctx.lib
    f = fnamed(ctx, CW + "encode_mv_component")
    mags = set(range(1, 67))
    for k in range(1, 11):
        b = 2 << (k + 2)
        for d in (1, 2, 3, 4, 6, 8, 9, 15, 16, 17, 24):
            mags |= {b + d, 2 * b - d + 1}
        for i in range(k + 3):
            mags |= {b + (1 << i), b + (1 << i) + 1, b + (b >> 1)}
    mags = sorted(m for m in mags if m <= 1 << 14)
    for m in mags:
        for sgn in (1, -1):
            for prec, pn in PREC.items():
                step = {-1: 8, 0: 2, 1: 1}[prec]
                if m % step:
                    continue
                axis = (m >> 1) & 1
                one(ctx, "mv_component", "encode_mv_component",
                    {"comp": K(sgn * m), "axis": K(axis),
                     "precision": en(c, "MvSubpelPrecision", pn)},
                    mv_syms(sgn * m, axis, prec),
                    "component %d, axis %d, %s" % (sgn * m, axis, pn))
    # joints, and which difference goes to which component
    for row, col in itertools.product((-24, 0, 8, 1024), repeat=2):
        for pr, pc in ((0, 0), (16, -8), (-24, 8)):
            for prec, pn in PREC.items():
                dr, dc = row - pr, col - pc
                want = [("S", (2 if dr else 0) + (1 if dc else 0),
                         "nmv_context.joints_cdf", ())]
                want += mv_syms(dr, 0, prec) if dr else []
                want += mv_syms(dc, 1, prec) if dc else []
                one(ctx, "mv", "write_mv", {
                    "mv": mv_of(c, row, col), "ref_mv": mv_of(c, pr, pc),
                    "mv_precision": en(c, "MvSubpelPrecision", pn)}, want,
                    "vector %d,%d predicted %d,%d" % (row, col, pr, pc))


# ------------------------------------------- loop restoration, deblocking
XQD_MIN, XQD_MAX = (-96, -32), (31, 95)
TAP_MIN, TAP_MAX = (-5, -23, -17), (10, 8, 46)
SGR_R = [(2, 1)] * 10 + [(0, 1)] * 4 + [(2, 0)] * 2


def lrf(ctx):
    c = ctx.lib
    f = fnamed(ctx, CW + "write_lrf")
    types = {"NONE": 0, "SWITCHABLE": 1, "WIENER": 2, "SGRPROJ": 3}
    for pli in (0, 1, 2):
        lrf_one(ctx, f, pli, "SWITCHABLE", 1, None, 0)
        for t, tv in types.items():
            lrf_one(ctx, f, pli, t, tv, "None", 0)
            if t in ("WIENER", "SWITCHABLE"):
                lrf_one(ctx, f, pli, t, tv, "Wiener", 0)
            if t in ("SGRPROJ", "SWITCHABLE"):
                for st in range(16):
                    lrf_one(ctx, f, pli, t, tv, "Sgrproj", st)
    # strengths and index of CDEF
    one(ctx, "cdef", "write_cdef", {}, [("literal", sym("bits"),
                                         sym("strength_index"))],
        "any index")


def uncast(v):
    while isinstance(v, V) and v.k == "cast":
        v = v.a[1]
    return v


def lrf_one(ctx, f, pli, t, tv, filt, st):
    c = ctx.lib
    ad = c.adt("RestorationFilter")
    P = "rs.planes[%d]" % pli
    co = [[sym("c%d%d" % (i, j)) if j or not pli else K(0) for j in range(3)]
          for i in range(2)]
    r0 = st < 10 or st >= 14
    xq = [sym("xq0") if r0 else K(0), sym("xq1")]
    parts = {"coeffs": arr([arr(x) for x in co]), "set": K(st),
             "xqd": arr(xq)}
    vals = {}
    if filt:
        fs = next(v[2] for v in ad["variants"] if v[0] == filt)
        vals[("U", "filter")] = agg(
            "adt", ad["adt"], filt, tuple("." + x[0] for x in fs),
            tuple(parts[x[0]] for x in fs))
    pl = place("rs", "planes")
    base = pl[1] + (("i", K(pli)),)

    def over(ae, s, m, a, rec):
        if m == "restoration_unit":
            if filt is None:
                return [(s, NONE)]
            return [(s, some(mk("ref", ("X", sym("U")), (), 0)))] \
                if a[1] is sym("sbo") and a[2] is K(1) else [(s, NONE)]
        return None
    rs = write(ctx, "write_lrf", {"pli": K(pli)}, over=over, vals={
        **vals, ("rs", "planes", (pli, "rp_cfg", "->", "lrf_type")): K(tv)})
    what = "plane %d, %s, filter %s %s" % (pli, t, filt, st)
    if not ctx.ob(len(rs) == 1, "lrf", "%d outcomes for %s" % (
            len(rs), what), f.loc()):
        return
    r = rs[0]
    want = []
    name = {"SWITCHABLE": "lrf_switchable_cdf", "WIENER": "lrf_wiener_cdf",
            "SGRPROJ": "lrf_sgrproj_cdf"}.get(t)
    if name and filt:
        v = {"None": 0, "Wiener": 1, "Sgrproj": 1 if t == "SGRPROJ" else 2}
        want.append(("S", v[filt], name, ()))

    def ref(s):
        return sym("%s.%s" % (P, s))

    def state(fld, *ix):
        return r.o.st.load((pl[0], base + (fld,) + tuple(
            ("i", K(i)) for i in ix)))
    after = {}
    if filt == "Wiener":
        for p in range(2):
            for j in range(1 if pli else 0, 3):
                want.append(("write_signed_subexp_with_ref", co[p][j],
                             TAP_MIN[j], TAP_MAX[j] + 1, j + 1,
                             ("wiener_ref", p, j)))
                after[("wiener_ref", p, j)] = co[p][j]
    if filt == "Sgrproj":
        want.append(("literal", 4, st))
        for i in range(2):
            if (r0, st < 14)[i]:
                want.append(("write_signed_subexp_with_ref", xq[i],
                             XQD_MIN[i], XQD_MAX[i] + 1, 4,
                             ("sgrproj_ref", i)))
                after[("sgrproj_ref", i)] = xq[i]
            else:
                after[("sgrproj_ref", i)] = K((0, 95)[i])
    start = _ae.State()

    def old(k):
        return start.load((pl[0], base + ("." + k[0],) + tuple(
            ("i", K(i)) for i in k[1:])))
    want = [tuple(old(y) if isinstance(y, tuple) and y and
                  y[0] in ("wiener_ref", "sgrproj_ref") else y for y in e)
            for e in want]
    got = [tuple(uncast(y) for y in e) for e in r.ev]
    ctx.ob(got == want, "lrf", "%s: it writes %s, AV1 reads %s" % (
        what, evs(got), evs(want)), f.loc())
    for k in [("wiener_ref", p, j) for p in range(2) for j in range(3)] + [
            ("sgrproj_ref", i) for i in range(2)]:
        if pli and k[0] == "wiener_ref" and k[2] == 0:
            continue
        v = uncast(state("." + k[0], *k[1:]))
        ctx.ob(v is after.get(k, old(k)), "lrf:ref", "%s: the reference %s "
               "becomes %s" % (what, k, show(v)), f.loc())


# ------------------------------------------------------ deblocking deltas
def deltas(ctx):
    c = ctx.lib
    for multi in (0, 1):
        for planes in (1, 3):
            n = (4 if planes == 3 else 2) if multi else 1
            for d in range(-63, 64):
                ds = [d, -d, d ^ 5 if abs(d ^ 5) < 64 else 7, 3]
                want = []
                for i in range(n):
                    a = abs(ds[i])
                    want.append(("S", min(a, 3)) + (
                        ("deblock_delta_multi_cdf[]", (i,)) if multi else
                        ("deblock_delta_cdf", ())))
                    if a >= 3:
                        k = (a - 1).bit_length() - 1
                        want.append(("literal", 3, k - 1))
                        want.append(("literal", k, a - 1 - (1 << k)))
                    if a:
                        want.append(("bool", int(ds[i] < 0), 16384))
                one(ctx, "deltas", "write_block_deblock_deltas",
                    {"bo": bo_of(c, K(4), K(4)), "multi": K(multi),
                     "planes": K(planes)}, want, "deltas %s" % ds[:n],
                    blocks={(4, 4): {"deblock_deltas": arr(
                        [K(x) for x in ds])}})


# ------------------------------------------------------ chroma from luma
def cfl(ctx):
    c = ctx.lib
    mk_ = fnamed(ctx, "context::partition_unit::CFLParams::from_alpha")
    for u in range(-16, 17):
        for v in range(-16, 17):
            if not u and not v or (abs(u) > 3 and abs(v) > 3 and
                                   abs(u) + abs(v) < 31):
                continue
            outs = explore(ctx, mk_, [K(u), K(v)], {}, None)
            if not ctx.ob(len(outs) == 1, "cfl", "%d outcomes of from_alpha"
                          % len(outs), mk_.loc()):
                return
            s = [0 if x == 0 else 1 if x < 0 else 2 for x in (u, v)]
            want = [("S", s[0] * 3 + s[1] - 1, "cfl_sign_cdf", ())]
            for i, x in enumerate((u, v)):
                if x:
                    want.append(("S", abs(x) - 1, "cfl_alpha_cdf[]",
                                 ((s[i] - 1) * 3 + s[1 - i],)))
            one(ctx, "cfl", "write_cfl_alphas", {"cfl": outs[0].ret}, want,
                "alphas %d and %d" % (u, v))
            al = fnamed(ctx, "context::partition_unit::CFLParams::alpha")
            for i, x in enumerate((u, v)):
                o2 = explore(ctx, al, [outs[0].ret, K(i)], {}, None)
                ctx.ob(len(o2) == 1 and o2[0].ret is K(x), "cfl:alpha",
                       "alpha %d coded for %d is used as %s" % (
                           i, x, [show(o.ret) for o in o2]), al.loc())


# --------------------------------------------------------- segment ids
def neg_deinterleave(diff, ref, mx):
    if not ref:
        return diff
    if ref >= mx - 1:
        return mx - diff - 1
    if 2 * ref < mx:
        if diff <= 2 * ref:
            return ref + ((diff + 1) >> 1) if diff & 1 else ref - (diff >> 1)
        return diff
    if diff <= 2 * (mx - ref - 1):
        return ref + ((diff + 1) >> 1) if diff & 1 else ref - (diff >> 1)
    return mx - (diff + 1)


def segment(ctx):
    c = ctx.lib
    f = fnamed(ctx, CW + "write_segmentation")
    for lastseg in range(8):
        for left, up in POS:
            ids = range(lastseg + 1)
            for l in (ids if left else (-1,)):
                for u in (ids if up else (-1,)):
                    for ul in (ids if left and up else (-1,)):
                        seg_one(ctx, f, lastseg, l, u, ul)


def seg_one(ctx, f, lastseg, l, u, ul):
    c = ctx.lib
    x, y = (4 if l >= 0 else 0), (4 if u >= 0 else 0)
    if u == -1:
        pred = 0 if l == -1 else l
    elif l == -1:
        pred = u
    else:
        pred = u if ul == u else l
    k = 0 if ul < 0 else 2 if ul == u == l else \
        1 if ul == u or ul == l or u == l else 0
    bl = {}
    for dx, dy, v in ((-1, 0, l), (0, -1, u), (-1, -1, ul)):
        if v >= 0:
            bl[(x + dx, y + dy)] = {"segmentation_idx": K(v)}
    for seg in range(lastseg + 1):
        b2 = dict(bl)
        b2[(x, y)] = {"segmentation_idx": K(seg)}
        what = "segment %d of %d, left %d, above %d, above left %d" % (
            seg, lastseg + 1, l, u, ul)
        rs = write(ctx, "write_segmentation", {
            "bo": bo_of(c, K(x), K(y)), "skip": K(0),
            "last_active_segid": K(lastseg)}, blocks=b2)
        if not ctx.ob(len(rs) == 1 and len(rs[0].ev) == 1, "segment",
                      "%d outcomes for %s" % (len(rs), what), f.loc()):
            return
        e = rs[0].ev[0]
        ok = e[0] == "S" and e[2:] == ("spatial_segmentation_cdfs[]", (k,)) \
            and isinstance(e[1], int) and 0 <= e[1] <= lastseg and \
            neg_deinterleave(e[1], pred, lastseg + 1) == seg
        ctx.ob(ok, "segment", "%s: it writes %s; AV1 predicts %d in context "
               "%d" % (what, evs(rs[0].ev), pred, k), f.loc())
    bl[(x, y)] = {"segmentation_idx": K(lastseg)}
    rs = write(ctx, "write_segmentation", {
        "bo": bo_of(c, K(x), K(y)), "skip": K(1), "bsize": sym("bsize"),
        "last_active_segid": K(lastseg)}, blocks=bl)
    ctx.ob(len(rs) == 1 and [e for e in rs[0].ev] == [
        ("set_segmentation_idx", bo_of(c, K(x), K(y)), sym("bsize"),
         K(pred))], "segment:skip", "a skipped block with left %d, above %d "
        "leaves %s, AV1 infers segment %d" % (
            l, u, [evs(r.ev) for r in rs], pred), f.loc())


# ------------------------------------------------------------ partitions
def parts(n):
    """sub-block sizes of the four partitions of an n x n block"""
    return {"PARTITION_NONE": (n, n), "PARTITION_HORZ": (n, n // 2),
            "PARTITION_VERT": (n // 2, n),
            "PARTITION_SPLIT": (n // 2, n // 2)}


PTYPES = ["NONE", "HORZ", "VERT", "SPLIT", "HORZ_A", "HORZ_B", "VERT_A",
          "VERT_B", "HORZ_4", "VERT_4"]


def bsz(c, w, h):
    return en(c, "BlockSize", "BLOCK_%dX%d" % (w, h))


def log2(n):
    return n.bit_length() - 1


def partition(ctx):
    c = ctx.lib
    up = fnamed(ctx, BC + "update_partition_context")
    val = {}
    for n in (8, 16, 32, 64):
        for p, (w, h) in parts(n).items():
            for x, y in ((0, 0), (16, 64 - n // 4 + 16), (48, 20)):
                x, y = x // (n // 4) * (n // 4), y // (n // 4) * (n // 4)
                rs = write(ctx, "update_partition_context",
                           {"bo": bo_of(c, K(x), K(y)),
                            "subsize": bsz(c, w, h), "bsize": bsz(c, n, n)},
                           owner=BC)
                if not ctx.ob(len(rs) == 1, "part_ctx", "%d outcomes" %
                              len(rs), up.loc()):
                    return
                st0 = _ae.State()
                for side, at, i in (("above", x // 2, 0),
                                    ("left", (y & 15) // 2, 1)):
                    fld = "%s_partition_context" % side
                    pl = place("self", fld)
                    for j in range(at - 1 if at else 0, at + n // 8 + 1):
                        q = (pl[0], pl[1] + (("i", K(j)),))
                        v = rs[0].o.st.load(q)
                        if at <= j < at + n // 8:
                            ctx.ob(isk(v) and val.setdefault(
                                (w, h, i), v.a[0]) == v.a[0], "part_ctx",
                                "a %dx%d block leaves %s in the %s partition "
                                "context" % (w, h, show(v), side), up.loc())
                        else:
                            ctx.ob(v is st0.load(q), "part_ctx", "a %dx%d "
                                   "area at %d,%d changes the %s partition "
                                   "context outside it" % (n, n, x, y, side),
                                   up.loc())
    f = fnamed(ctx, CW + "write_partition")
    sizes = sorted({k[:2] for k in val})
    for n in (8, 16, 32, 64):
        bsl = log2(n // 4)
        for left in [None] + sizes:
            for above in [None] + sizes:
                a = int(above is not None and log2(above[0] // 4) < bsl)
                l = int(left is not None and log2(left[1] // 4) < bsl)
                k = l * 2 + a
                av = 0 if above is None else val[above + (0,)]
                lv = 0 if left is None else val[left + (1,)]
                for rows, cols in ((1, 1), (1, 0), (0, 1), (0, 0)):
                    if n == 8 and not (rows and cols):
                        continue
                    if not (rows and cols) and left != above and \
                            left and above:
                        continue
                    part_one(ctx, f, n, k, av, lv, rows, cols, bsl)


def part_one(ctx, f, n, k, av, lv, rows, cols, bsl):
    c = ctx.lib
    x, y = 16, 32
    h = n // 8
    ps = ["SPLIT", "NONE", "HORZ", "VERT"] if rows and cols else \
        ["SPLIT", "VERT"] if rows else ["SPLIT", "HORZ"] if cols else \
        ["SPLIT"]
    cdf, ix = ("partition_w8_cdf[]", k) if n == 8 else \
        ("partition_cdf[]", k + 4 * (bsl - 2))
    for p in ps:
        rs = write(ctx, "write_partition", {
            "bo": bo_of(c, K(x), K(y)), "bsize": bsz(c, n, n),
            "p": en(c, "PartitionType", "PARTITION_" + p)},
            dim=(x + h + cols, y + h + rows),
            vals={("self", "bc.above_partition_context", (x // 2,)): av,
                  ("self", "bc.left_partition_context", (0,)): lv})
        what = "a %dx%d block in context %d, rows %d, columns %d, %s" % (
            n, n, k, rows, cols, p)
        if not ctx.ob(len(rs) == 1, "partition", "%d outcomes for %s" % (
                len(rs), what), f.loc()):
            return
        got = rs[0].ev
        if rows and cols:
            want = [("S", PTYPES.index(p), cdf, (ix,))]
            ctx.ob(got == want, "partition", "%s writes %s, AV1 reads %s" % (
                what, evs(got), evs(want)), f.loc())
        elif not rows and not cols:
            ctx.ob(not got, "partition", "%s writes %s where AV1 infers a "
                   "split" % (what, evs(got)), f.loc())
        else:
            ok = len(got) == 1 and got[0][0] == "D" and \
                got[0][1] == int(p == "SPLIT")
            ctx.ob(ok, "partition", "%s writes %s" % (what, evs(got)),
                   f.loc())
            if ok:
                gather(ctx, f, got[0][2], cols, cdf, ix, what)


def gather(ctx, f, t, cols, cdf, ix, what):
    """AV1's split_or_horz / split_or_vert probability from the partition's
    distribution: a linear combination, compared on a basis."""
    names = (["VERT", "SPLIT", "HORZ_A", "VERT_A", "VERT_B", "VERT_4"]
             if cols else
             ["HORZ", "SPLIT", "HORZ_A", "HORZ_B", "VERT_A", "HORZ_4"])
    at = atoms(t)
    pos = []
    for a in at:
        s = show(a)
        pre_ = "self.fc.%s[%d][" % (cdf[:-2], ix)
        if not s.startswith(pre_) or not s.endswith("]"):
            ctx.ob(False, "partition", "%s: the probability reads %s" % (
                what, s[:80]), f.loc())
            return
        pos.append(int(s[len(pre_):-1]))
    try:
        fn = compile_(t, at)
    except Opaque as e:
        ctx.ob(False, "partition", "%s: the probability is %s" % (what, e),
               f.loc())
        return

    def want(cd):
        s = 0
        for nm in names:
            i = PTYPES.index(nm)
            hi = cd.get(i - 1, 0) if i else 32768
            s += hi - (cd.get(i, 0) if i < 9 else 0)
        return s & 0xffff
    base = {i: 32768 - (i + 1) * 3000 for i in range(9)}
    tries = [{int(k_): v for k_, v in d.items()} for d in (
        [base] + [{**base, i: base[i] + 7} for i in range(9)])]
    for cd in tries:
        g = fn(*[cd.get(p, 0) for p in pos]) & 0xffff
        ctx.ob(g == want(cd), "partition:gather", "%s: the probability of a "
               "split is not AV1's sum" % what, f.loc())


# --------------------------------------------------------- transform sizes
MAX_DEPTH = {"4X4": 0, "4X8": 1, "8X4": 1, "8X8": 1, "8X16": 2, "16X8": 2,
             "16X16": 2, "16X32": 3, "32X16": 3, "32X32": 3, "32X64": 4,
             "64X32": 4, "64X64": 4}


def tsz(c, t):
    return en(c, "TxSize", "TX_%dX%d" % t)


def nb(c, kind, w, h):
    """a neighbour: kind 0 intra, 1 inter, 2 skipped inter, 3 skipped intra"""
    d = block(c, "NEWMV" if kind in (1, 2) else "DC_PRED",
              ("LAST_FRAME" if kind in (1, 2) else "INTRA_FRAME",
               "NONE_FRAME"))
    d.update(skip=K(int(kind >= 2)), bsize=bsz(c, w, h), n4_w=K(w // 4),
             n4_h=K(h // 4))
    return d


OTHER = {4: 8, 8: 16, 16: 8, 32: 16, 64: 32}


def nb_up(c, n):
    """the neighbour above: only its width is to count"""
    return n and nb(c, n[0], n[1], OTHER[n[1]])


def nb_left(c, n):
    """the neighbour on the left: only its height is to count"""
    return n and nb(c, n[0], OTHER[n[1]], n[1])


def txctx(ctx):
    c = ctx.lib
    f = fnamed(ctx, BC + "update_tx_size_context")
    for b in SIZES:
        w, h = wh(b)
        for t in ((4, 4), (w, h), (min(w, h), min(w, h))):
            for skip in (0, 1):
                for x, y in ((0, 0), (16, 64), (32, 16)):
                    rs = write(ctx, "update_tx_size_context", {
                        "bo": bo_of(c, K(x), K(y)), "bsize": bsz(c, w, h),
                        "tx_size": tsz(c, t), "skip": K(skip)}, owner=BC)
                    if not ctx.ob(len(rs) == 1, "tx_ctx", "%d outcomes" %
                                  len(rs), f.loc()):
                        return
                    e = (w, h) if skip else t
                    txstate(ctx, f, rs[0], x, y,
                            {x + i: e[0] for i in range(w // 4)},
                            {(y & 15) + i: e[1] for i in range(h // 4)},
                            "a %s block with %s transforms, skip %d" % (
                                b, t, skip), "tx_ctx")


def txstate(ctx, f, r, x, y, A, L, what, key):
    st0 = _ae.State()
    for fld, at, d in (("above_tx_context", x, A),
                       ("left_tx_context", y & 15, L)):
        pl = place("self", ("bc." if "bc" in key else "") + fld)
        for j in range(max(0, at - 1), at + 18):
            q = (pl[0], pl[1] + (("i", K(j)),))
            v = r.o.st.load(q)
            ctx.ob(v is (K(d[j]) if j in d else st0.load(q)), key, "%s leaves "
                   "%s in %s at %d" % (what, show(v), fld, j - at), f.loc())


def txintra(ctx):
    c = ctx.lib
    for b in SIZES[1:]:
        w, h = wh(b)
        depth = MAX_DEPTH[b[6:]]
        chain = [(w, h)]
        while len(chain) < 3 and chain[-1] != (4, 4):
            chain.append(split_once(*chain[-1]))
        bs = bsz(c, w, h)
        for left, up in POS:
            nbs = [(0, 64, t) for t in (4, 8, 16, 32, 64)] + [(3, 64, 8)]
            nbs += [(k, s, 4) for k in (1, 2) for s in (8, 16, 32, 64)]
            nbs += [(2, s, s) for s in (8, 32)]
            ups = nbs if up else [None]
            i = 0
            for n in (nbs if left else [None]):
                for a in ups:
                    i += 1
                    txintra_one(ctx, b, w, h, bs, depth, chain, n, a, i)


def txintra_one(ctx, b, w, h, bs, depth, chain, n, a, i):
    c = ctx.lib
    x, y = (16 if n else 0), (16 if a else 0)
    bl = around((x, y), nb_left(c, n), nb_up(c, a))
    bl[(x, y)] = nb(c, 0, w, h)
    k = 0
    for s, m in ((a, w), (n, h)):
        if s is not None:
            k += int((s[1] if s[0] in (1, 2) else s[2]) >= m)
    d = i % len(chain)
    want = [("S", d, "tx_size_8x8_cdf[]", (k,)) if depth < 2 else
            ("S", d, "tx_size_cdf[][]", (depth - 2, k))]
    one(ctx, "tx_intra", "write_tx_size_intra",
        {"bo": bo_of(c, K(x), K(y)), "bsize": bs,
         "tx_size": tsz(c, chain[d])}, want,
        "%s with %s, left %s, above %s" % (b, chain[d], n, a), blocks=bl,
        vals={("self", "bc.above_tx_context", (x,)): a[2] if a else 0,
              ("self", "bc.left_tx_context", (y & 15,)): n[2] if n else 0})


def txinter(ctx):
    c = ctx.lib
    f = fnamed(ctx, CW + "write_tx_size_inter")
    pat = (4, 64, 8, 16, 32, 4, 16, 8, 64, 4, 8, 32, 16, 4, 8, 64, 32, 4, 8)
    nbs = [(0, 16), (1, 16), (3, 16), (2, 8), (2, 16), (2, 32), (2, 64)]
    for b in SIZES[1:]:
        w, h = wh(b)
        for left, up in POS:
            for i, n in enumerate(nbs if left else [None]):
                for j, a in enumerate(nbs if up else [None]):
                    for split in (0, 1):
                        off = (i * 3 + j) % 7 + split
                        txinter_one(ctx, f, b, w, h, n, a, split,
                                    [pat[(t + off) % 19] for t in range(17)],
                                    [pat[(t * 2 + off) % 19]
                                     for t in range(17)])
    # blocks hanging over the end of the tile
    for b in ("BLOCK_64X64", "BLOCK_32X32", "BLOCK_16X8"):
        w, h = wh(b)
        for cut in ((w // 8, h // 4), (w // 4, h // 8), (w // 8, h // 8),
                    (0, 1), (1, 0)):
            txinter_one(ctx, f, b, w, h, (1, 32), (2, 8), 1, [8] * 17,
                        [8] * 17, cut)


def txinter_one(ctx, f, b, w, h, n, a, split, av, lv, cut=None):
    c = ctx.lib
    x, y = (16 if n else 0), (16 if a else 0)
    bl = around((x, y), nb_left(c, n), nb_up(c, a))
    W, H = w // 4, h // 4
    for i in range(W):
        for j in range(H):
            bl[(x + i, y + j)] = nb(c, 1, w, h)
            if a:
                bl[(x + i, y - 1)] = nb_up(c, a)
            if n:
                bl[(x - 1, y + j)] = nb_left(c, n)
    A = {x + i: av[i] for i in range(17)}
    L = {(y & 15) + i: lv[i] for i in range(16 if not y & 15 else 8)}
    vals = {}
    for k, v in A.items():
        vals[("self", "bc.above_tx_context", (k,))] = v
    for k, v in L.items():
        vals[("self", "bc.left_tx_context", (k,))] = v
    cols, rows = (x + cut[0], y + cut[1]) if cut else (x + 64, y + 64)
    want = []

    def var(X, Y, t, depth):
        if Y >= rows or X >= cols:
            return
        s = 0
        if t != (4, 4) and depth < 2:
            aw, lh = A[X], L[Y & 15]
            if Y == y:
                if not a:
                    aw = 64
                elif a[0] == 2:
                    aw = a[1]
            if X == x:
                if not n:
                    lh = 64
                elif n[0] == 2:
                    lh = n[1]
            mx = min(64, max(w, h))
            k = int(max(t) != mx) * 3 + (4 - (log2(mx) - 2)) * 6 + \
                int(aw < t[0]) + int(lh < t[1])
            s = split if depth == 0 else 0
            want.append(("S", s, "txfm_partition_cdf[]", (k,)))
        if s:
            u = split_once(*t)
            for i in range(0, t[1] // 4, u[1] // 4):
                for j in range(0, t[0] // 4, u[0] // 4):
                    var(X + j, Y + i, u, depth + 1)
        else:
            for i in range(t[0] // 4):
                A[X + i] = t[0]
            for i in range(t[1] // 4):
                L[(Y & 15) + i] = t[1]
    var(x, y, (w, h), 0)
    r = one(ctx, "tx_inter", "write_tx_size_inter", {
        "bo": bo_of(c, K(x), K(y)), "bsize": bsz(c, w, h),
        "tx_size": tsz(c, (w, h)), "txfm_split": K(split), "tbx": K(0),
        "tby": K(0), "depth": K(0)}, want,
        "%s, split %d, left %s, above %s%s" % (
            b, split, n, a, ", cut at %d,%d" % cut if cut else ""),
        blocks=bl, vals=vals, dim=(cols, rows))
    if r is None or cut:
        return
    for fld, d in (("above_tx_context", A), ("left_tx_context", L)):
        bad = [k for k, v in d.items()
               if r.at("self", "bc." + fld, k) is not K(v)]
        ctx.ob(not bad, "tx_inter:state", "%s, split %d: %s is wrong at %s" % (
            b, split, fld, bad[:3]), f.loc())


# ------------------------------------------- coefficient block contexts
LEVELS = [0, 1, 3, 4, 63, 1 | 64, 5 | 64, 2 | 128, 63 | 128]


def patterns(n, k):
    """k-th deterministic assignment of context values to n entries"""
    if k < n:
        return [LEVELS[(k * 5 + 4) % 9] if i == k else 0 for i in range(n)]
    return [LEVELS[(k * k + i * (k % 7 + 1)) % 9] for i in range(n)]


def txb_ctx(plane, bs, t, ab, lf):
    """all_zero and dc_sign contexts of AV1 from the neighbouring values"""
    dc = 0
    for v in ab + lf:
        dc += {0: 0, 1: -1, 2: 1}[v >> 6]
    dcx = 0 if dc == 0 else 1 if dc < 0 else 2
    if plane == 0:
        top = max(v & 63 for v in ab)
        left = max(v & 63 for v in lf)
        if bs == t:
            k = 0
        elif not top and not left:
            k = 1
        elif not top or not left:
            k = 2 + int(max(top, left) > 3)
        elif max(top, left) <= 3:
            k = 4
        elif min(top, left) <= 3:
            k = 5
        else:
            k = 6
    else:
        k = int(any(ab)) + int(any(lf)) + 7
        if bs[0] * bs[1] > t[0] * t[1]:
            k += 3
    return k, dcx


TX_OF = [((4, 4), (4, 4)), ((8, 8), (4, 4)), ((8, 8), (8, 8)),
         ((16, 16), (4, 4)), ((16, 8), (8, 8)), ((16, 16), (16, 16)),
         ((32, 32), (16, 16)), ((32, 16), (32, 16)), ((8, 16), (8, 16)),
         ((32, 64), (32, 32)), ((64, 64), (64, 64)), ((64, 32), (64, 32))]


def coefctx(ctx):
    c = ctx.lib
    f = fnamed(ctx, BC + "get_txb_ctx")
    for bs, t in TX_OF:
        for plane, sx, sy in ((0, 0, 0), (1, 1, 1), (2, 1, 0)):
            W, H = t[0] // 4, t[1] // 4
            n = 81 if t == (4, 4) else 60
            for k in range(n):
                ab = [LEVELS[k // 9]] if W * H == 1 else patterns(W, k)
                lf = [LEVELS[k % 9]] if W * H == 1 else \
                    patterns(H, (k * 7 + 3) % 61)
                cw = W if k % 3 else (W + 1) // 2
                ch = H if k % 4 else (H + 1) // 2
                x, y = 16 << sx, 4 << sy
                vals = {}
                for i in range(W):
                    vals[("self", "above_coeff_context",
                          (plane, 16 + i))] = ab[i]
                for i in range(H):
                    vals[("self", "left_coeff_context",
                          (plane, 4 + i if H < 13 else i))] = lf[i]
                if H >= 13:
                    y = 0
                rs = write(ctx, "get_txb_ctx", {
                    "plane_bsize": bsz(c, *bs), "tx_size": tsz(c, t),
                    "plane": K(plane), "bo": bo_of(c, K(x), K(y)),
                    "xdec": K(sx), "ydec": K(sy),
                    "frame_clipped_txw": K(cw * 4),
                    "frame_clipped_txh": K(ch * 4)}, vals=vals, owner=BC)
                want = txb_ctx(plane, bs, t, ab[:cw], lf[:ch])
                got = None
                if len(rs) == 1 and rs[0].o.ret.k == "agg":
                    d = fields(rs[0].o.ret)
                    got = tuple(val_of(d.get(q, UNIT)) for q in (
                        ".txb_skip_ctx", ".dc_sign_ctx"))
                ctx.ob(got == want, "txb_ctx", "a %s transform of a %s block, "
                       "plane %d, above %s, left %s: contexts %s, AV1's are "
                       "%s" % (t, bs, plane, ab[:cw], lf[:ch], got, want),
                       f.loc())
    setctx(ctx)


def setctx(ctx):
    c = ctx.lib
    f = fnamed(ctx, BC + "set_coeff_context")
    for t in TXS:
        for plane, sx, sy in ((0, 0, 0), (1, 1, 1), (2, 1, 0), (1, 0, 0)):
            x, y = 32, 64
            rs = write(ctx, "set_coeff_context", {
                "plane": K(plane), "bo": bo_of(c, K(x), K(y)),
                "tx_size": tsz(c, t), "xdec": K(sx), "ydec": K(sy),
                "value": K(77)}, owner=BC)
            if not ctx.ob(len(rs) == 1, "set_ctx", "%d outcomes" % len(rs),
                          f.loc()):
                return
            entries(ctx, f, rs[0], {plane: (x >> sx, t[0] // 4,
                                            0, t[1] // 4)}, 77, "set_ctx",
                    "a %s transform in plane %d (%d%d)" % (t, plane, sx, sy))
    f = fnamed(ctx, BC + "reset_skip_context")
    for b in SIZES:
        w, h = wh(b)
        for cs, sx, sy in (("Cs420", 1, 1), ("Cs422", 1, 0),
                           ("Cs444", 0, 0), ("Cs400", 1, 1)):
            if cs == "Cs422" and w < h:
                continue
            for dx, dy in ((0, 0), (1, 0), (0, 1), (1, 1)):
                if dx and w > 4 or dy and h > 4:
                    continue
                x, y = 32 + dx, 16 + dy
                rs = write(ctx, "reset_skip_context", {
                    "bo": bo_of(c, K(x), K(y)), "bsize": bsz(c, w, h),
                    "xdec": K(sx), "ydec": K(sy),
                    "cs": en(c, "ChromaSampling", cs)}, owner=BC)
                if not ctx.ob(len(rs) == 1, "reset_ctx", "%d outcomes" %
                              len(rs), f.loc()):
                    return
                chroma = cs != "Cs400" and \
                    (not sx or w > 4 or dx) and (not sy or h > 4 or dy)
                ext = {}
                for p in range(3 if chroma else 1):
                    ax, ay = (sx, sy) if p else (0, 0)
                    x0, y0 = x >> ax, (y & 15) >> ay
                    ext[p] = (x0, ((x + w // 4 - 1) >> ax) - x0 + 1, y0,
                              (((y & 15) + h // 4 - 1) >> ay) - y0 + 1)
                entries(ctx, f, rs[0], ext, 0, "reset_ctx", "a skipped %s "
                        "block at %d,%d of %s" % (b, x, y, cs))


def entries(ctx, f, r, ext, v, key, what):
    st0 = _ae.State()
    for p in range(3):
        x0, nx, y0, ny = ext.get(p, (16, 0, 0, 0))
        for fld, at, n in (("above_coeff_context", x0, nx),
                           ("left_coeff_context", y0, ny)):
            pl = place("self", fld)
            for j in range(max(0, at - 1), at + n + 2):
                q = (pl[0], pl[1] + (("i", K(p)), ("i", K(j))))
                g = r.o.st.load(q)
                ctx.ob(g is (K(v) if at <= j < at + n else st0.load(q)), key,
                       "%s leaves %s in %s of plane %d at %d" % (
                           what, show(g), fld, p, j - at), f.loc())


TYPES = ["DCT_DCT", "ADST_DCT", "DCT_ADST", "ADST_ADST", "FLIPADST_DCT",
         "DCT_FLIPADST", "FLIPADST_FLIPADST", "ADST_FLIPADST",
         "FLIPADST_ADST", "IDTX", "V_DCT", "H_DCT", "V_ADST", "H_ADST",
         "V_FLIPADST", "H_FLIPADST"]
INTRA_SETS = [["DCT_DCT"],
              ["IDTX", "DCT_DCT", "V_DCT", "H_DCT", "ADST_ADST", "ADST_DCT",
               "DCT_ADST"],
              ["IDTX", "DCT_DCT", "ADST_ADST", "ADST_DCT", "DCT_ADST"]]
INTER_SETS = [["DCT_DCT"],
              ["IDTX", "V_DCT", "H_DCT", "V_ADST", "H_ADST", "V_FLIPADST",
               "H_FLIPADST", "DCT_DCT", "ADST_DCT", "DCT_ADST",
               "FLIPADST_DCT", "DCT_FLIPADST", "ADST_ADST",
               "FLIPADST_FLIPADST", "ADST_FLIPADST", "FLIPADST_ADST"],
              ["IDTX", "V_DCT", "H_DCT", "DCT_DCT", "ADST_DCT", "DCT_ADST",
               "FLIPADST_DCT", "DCT_FLIPADST", "ADST_ADST",
               "FLIPADST_FLIPADST", "ADST_FLIPADST", "FLIPADST_ADST"],
              ["IDTX", "DCT_DCT"]]


def tx_set(t, inter, reduced):
    up, sq = max(t), min(t)
    if up == 64:
        return 0
    if inter:
        return 3 if reduced or up == 32 else 2 if sq == 16 else 1
    return 0 if up == 32 else 2 if reduced or sq == 16 else 1


def type_syms(t, ty, mode, inter, reduced):
    """the events coding a transform type; None when AV1 cannot code it"""
    k = tx_set(t, inter, reduced)
    s = (INTER_SETS if inter else INTRA_SETS)[k]
    if ty not in s:
        return None
    if not k:
        return []
    ix = (log2(min(t)) - 2,)
    if inter:
        return [("S", s.index(ty), "inter_tx_%d_cdf[]" % k, ix)]
    return [("S", s.index(ty), "intra_tx_%d_cdf[][]" % k,
             ix + (MODES.index(mode),))]


def txtype(ctx):
    c = ctx.lib
    for t in TXS:
        for inter in (0, 1):
            for red in (0, 1):
                for ty in TYPES:
                    for mode in (["NEWMV"] if inter else MODES[:13]):
                        w = type_syms(t, ty, mode, inter, red)
                        if w is None:
                            break
                        one(ctx, "tx_type", "write_tx_type", {
                            "tx_size": tsz(c, t),
                            "tx_type": en(c, "TxType", ty),
                            "y_mode": en(c, "PredictionMode", mode),
                            "is_inter": K(inter),
                            "use_reduced_tx_set": K(red)}, w,
                            "type %s of a %s transform, %s, reduced set %d" %
                            (ty, t, mode, red))


def tx_class(ty):
    return ty[0] if ty[:2] in ("V_", "H_") else "2"


def scan_of(w, h, cls):
    """(row, column) in coding order"""
    if cls == "V":
        return [(r, q) for r in range(h) for q in range(w)]
    if cls == "H":
        return [(r, q) for q in range(w) for r in range(h)]
    out = []
    for d in range(w + h - 1):
        g = [(r, d - r) for r in range(h) if 0 <= d - r < w]
        up = w > h or w == h and d % 2 == 0
        out += g[::-1] if up else g
    return out


SIG = {"2": [(0, 1), (1, 0), (1, 1), (0, 2), (2, 0)],
       "H": [(0, 1), (1, 0), (0, 2), (0, 3), (0, 4)],
       "V": [(1, 0), (0, 1), (2, 0), (3, 0), (4, 0)]}
MAG = {"2": [(0, 1), (1, 0), (1, 1)], "H": [(0, 1), (1, 0), (0, 2)],
       "V": [(0, 1), (1, 0), (2, 0)]}


def base_ctx(q, t, w, h, cls, r, k):
    m = sum(min(abs(q.get((r + a, k + b), 0)), 3) for a, b in SIG[cls]
            if r + a < h and k + b < w)
    m = min((m + 1) >> 1, 4)
    if cls != "2":
        return m + (26, 31, 36)[min(2, r if cls == "V" else k)]
    if not r and not k:
        return 0
    if t[0] < t[1] and r < 2:
        return m + 11
    if t[0] > t[1] and k < 2:
        return m + 16
    return m + (1 if r + k < 2 else 6 if r + k < 4 else 21)


def br_ctx(q, w, h, cls, r, k):
    m = sum(min(abs(q.get((r + a, k + b), 0)), 15) for a, b in MAG[cls]
            if r + a < h and k + b < w)
    m = min((m + 1) >> 1, 6)
    if not r and not k:
        return m
    if cls == "2" and r < 2 and k < 2 or cls == "H" and not k or \
            cls == "V" and not r:
        return m + 7
    return m + 14


def coef_syms(t, ty, plane, mode, inter, red, vals, skip, dcs):
    """AV1's coding of `vals`, the coefficients in scan order up to the last
    nonzero one; the context left for the neighbours"""
    w, h = min(t[0], 32), min(t[1], 32)
    cls = tx_class(ty)
    a, b = log2(min(t)) - 2, log2(max(t)) - 2
    tc = (a + b + 1) >> 1
    pt = int(plane > 0)
    ev = [("S", int(not vals), "txb_skip_cdf[][]", (tc, skip))]
    if not vals:
        return ev, 0
    if not plane:
        ev += type_syms(t, ty, mode, inter, red)
    n = len(vals)
    e = n if n < 3 else (n - 1).bit_length() + 1
    sz = log2(w) + log2(h) - 4
    ev.append(("S", e - 1, "eob_flag_cdf%d[][]" % (16 << sz),
               (pt, int(cls != "2"))))
    if e > 2:
        x = n - (1 << (e - 2)) - 1
        bits = e - 2
        ev.append(("S", x >> (bits - 1) & 1, "eob_extra_cdf[][][]",
                   (tc, pt, e - 3)))
        ev += [("bit", x >> (bits - 1 - i) & 1) for i in range(1, bits)]
    sc = scan_of(w, h, cls)
    q = {p: v for p, v in zip(sc, vals)}
    for i in range(n - 1, -1, -1):
        r, k = sc[i]
        v = abs(vals[i])
        if i == n - 1:
            cx = 0 if not i else 1 if i <= w * h // 8 else \
                2 if i <= w * h // 4 else 3
            ev.append(("S", min(v, 3) - 1, "coeff_base_eob_cdf[][][]",
                       (tc, pt, cx)))
        else:
            ev.append(("S", min(v, 3), "coeff_base_cdf[][][]",
                       (tc, pt, base_ctx(q, t, w, h, cls, r, k))))
        if v > 2:
            cx = br_ctx(q, w, h, cls, r, k)
            left = v - 3
            for _ in range(4):
                ev.append(("S", min(left, 3), "coeff_br_cdf[][][]",
                           (min(tc, 3), pt, cx)))
                if left < 3:
                    break
                left -= 3
    for i, v in enumerate(vals):
        if not v:
            continue
        s = int(v < 0)
        ev.append(("S", s, "dc_sign_cdf[][]", (pt, dcs)) if not i else
                  ("bit", s))
        if abs(v) > 14:
            ev.append(("write_golomb", abs(v) - 15))
    cul = min(63, sum(abs(v) for v in vals))
    return ev, cul | (0 if not vals[0] else 64 if vals[0] < 0 else 128)


MAGS = [0, 1, 2, 3, 4, 5, 6, 8, 9, 11, 12, 14, 15, 16, 40, 1, 0, 2, 0, 1, 0]


def coef_pattern(n, k):
    """the k-th deterministic run of n coefficients, the last nonzero"""
    v = []
    x = k * 7919 + n * 104729 + 12345
    for i in range(n):
        x = (x * 1103515245 + 12345) & 0x7fffffff
        m = MAGS[(x >> 12) % len(MAGS)]
        if k % 3 == 1:
            m = min(m, 3)
        v.append(-m if (x >> 9) & 1 else m)
    if n and not v[-1]:
        v[-1] = 1 if k & 1 else -2
    if n and k % 4 == 3:
        v[0] = 0 if n > 1 else v[0]
    return v


def coef_one(ctx, t, ty, plane, n, k):
    c = ctx.lib
    ctx.count("coefficient runs")
    inter = int(ty not in INTRA_SETS[tx_set(t, 0, 0)] or k % 2)
    red = 0
    mode = "NEWMV" if inter else MODES[k % 13]
    w, h = min(t[0], 32), min(t[1], 32)
    vals = coef_pattern(n, k)
    buf = [0] * (w * h)
    for (r, q), v in zip(scan_of(w, h, tx_class(ty)), vals):
        buf[q * h + r] = v
    W, H = t[0] // 4, t[1] // 4
    ab, lf = LEVELS[(k * 5 + n) % 9], LEVELS[(k * 2 + n * 3) % 9]
    sx = sy = int(plane > 0)
    x, y = (8, 0) if H == 16 and not sy else (16, 4)
    if sy and H == 16:
        return
    st = {}
    for i in range(W):
        st[("self", "bc.above_coeff_context", (plane, (x >> sx) + i))] = ab
    for i in range(H):
        st[("self", "bc.left_coeff_context", (plane, (y >> sy) + i))] = lf
    skip, dcs = txb_ctx(plane, t, t, [ab] * W, [lf] * H)
    want, cul = coef_syms(t, ty, plane, mode, inter, red, vals, skip, dcs)
    what = "%d coefficients %s of a %s %s transform in plane %d, %s" % (
        n, vals[:16], t, ty, plane, mode)
    r = one(ctx, "coefficients", "write_coeffs_lv_map", {
        "coeffs_in": mk("ref", ("C", arr([K(v) for v in buf])), (), 0),
        "plane": K(plane), "bo": bo_of(c, K(x), K(y)), "eob": K(n),
        "pred_mode": en(c, "PredictionMode", mode), "tx_size": tsz(c, t),
        "tx_type": en(c, "TxType", ty), "plane_bsize": bsz(c, *t),
        "xdec": K(sx), "ydec": K(sy), "use_reduced_tx_set": K(red),
        "frame_clipped_txw": K(t[0]), "frame_clipped_txh": K(t[1])}, want,
        what, vals=st, steps=3000000, unroll=1100)
    if r is None:
        return
    f = fnamed(ctx, CW + "write_coeffs_lv_map")
    ctx.ob(r.o.ret is K(int(n > 0)), "has_coeff", "with %s it returns %s" % (
        what, show(r.o.ret)[:40]), f.loc())
    for i, j in [(0, 0), (W - 1, 1)]:
        g = r.at("self", "bc.above_coeff_context", plane, (x >> sx) + i)
        ctx.ob(g is K(cul), "level", "%s leave %s above, AV1 keeps %d" % (
            what, show(g)[:40], cul), f.loc())
    g = r.at("self", "bc.left_coeff_context", plane, (y >> sy) + H - 1)
    ctx.ob(g is K(cul), "level", "%s leave %s at left, AV1 keeps %d" % (
        what, show(g)[:40], cul), f.loc())


def coefs(ctx, t):
    w, h = min(t[0], 32), min(t[1], 32)
    area = w * h
    s = INTER_SETS[tx_set(t, 1, 0)]
    if area <= 64:
        for j, ty in enumerate(TYPES):
            if ty in s:
                for i, n in enumerate((area, area // 4 + 2, area // 2)):
                    coef_one(ctx, t, ty, (j + i) % 3, n, j * 5 + i)
        for n in range(0, area + 1, 1 if area < 64 else 5):
            coef_one(ctx, t, "DCT_DCT", n % 3, n, n)
    else:
        for i, ty in enumerate(q for q in ("DCT_DCT", "V_DCT", "H_DCT",
                                           "IDTX") if q in s):
            coef_one(ctx, t, ty, i % 2, (area, 100, area // 2, 40)[i]
                     if area < 512 or i else 96, i + 1)
        for i, n in enumerate((0, 1, area // 8 + 1, area // 8 + 2,
                               area // 4 + 1, area // 4 + 2)):
            if area < 512 or n < 200:
                coef_one(ctx, t, "DCT_DCT", i % 2, n, i)

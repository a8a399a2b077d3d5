"""Part of C24: the vectors the mode decision gives an inter mode."""
from sa.val import *
from sa.gate import *
from sa.prog import norm
from sa import ae as _ae
from checks.c18 import arr, last
from checks.c19 import fnamed
from checks.c21 import en, params, bo_of, bo_xy, place
from checks.c22 import mv_of, vec_like, val_of, bsz, elements, deref_k
from checks import c24

SKIP = {"rdo_tx_size_type", "rdo_partition_decision", "write_partition",
        "set_segmentation_idx", "encode_block_pre_cdef", "predict_inter",
        "get_satd", "save_block_motion", "subregion", "subregion_mut",
        "rdo_mode_decision", "update_partition_context", "checkpoint",
        "rollback", "tile_rect", "plane_offset"}
NEARK = {"NEAR0MV": 1, "NEAR1MV": 2, "NEAR2MV": 3, "NEAR_NEAR0MV": 1,
         "NEAR_NEAR1MV": 2, "NEAR_NEAR2MV": 3}


def yields(mode, stack, mvs):
    """The vectors AV1 derives, None where the mode cannot be coded."""
    z = (0, 0)

    def at(k):
        return stack[k] if k < len(stack) else (z, z)
    if mode in ("NEWMV", "NEW_NEWMV"):
        return mvs
    if mode in ("GLOBALMV", "GLOBAL_GLOBALMV"):
        return (z, z)
    if mode in ("NEARESTMV", "NEAREST_NEARESTMV"):
        return at(0)
    if mode in NEARK:
        k = NEARK[mode]
        return at(k) if k == 1 or k < len(stack) else None
    if mode == "NEAREST_NEWMV":
        return (at(0)[0], mvs[1])
    if mode == "NEW_NEARESTMV":
        return (mvs[0], at(0)[1])
    return None


def owned(v):
    """An iterator over the elements of a vector taken by value."""
    return agg("it", "iter", "val", (".pos", ".src"), (
        K(0), mk("ref", ("C", v), (), 0)))


class World:
    """The stubs of a run and what they saw."""

    def __init__(self, ctx, cands, me=None, cells=None):
        self.ctx, self.c = ctx, ctx.lib
        self.cands = cands          # refs -> (list of (mv, mv), context)
        self.me = me or {}
        self.cells = cells or {}
        self.calls = []

    def cand(self, this, comp):
        ad = self.c.adt("CandidateMV")
        d = {".this_mv": mv_of(self.c, *this), ".comp_mv": mv_of(
            self.c, *comp), ".weight": K(700)}
        fs = tuple("." + x[0] for x in ad["variants"][0][2])
        return agg("adt", ad["adt"], None, fs, tuple(d[x] for x in fs))

    def hook(self, ae, st, n, rn, rec, x, site, line):
        p = norm(rn or n)
        m = last(p)
        if m == "find_mvrefs":
            return self.found(ae, st, rn or n, x)
        if m == "luma_chroma_mode_rdo":
            return self.coded(ae, st, rn or n, x, line)
        if m == "estimate_motion":
            return self.motion(ae, st, rn or n, x)
        if m == "allowed_ref_frames":
            st.store[("T", "allowed")] = arr([self.rt(r) for r in
                                              self.cells["allowed"]])
            return [(st, mk("ref", ("T", "allowed"), (), 0))]
        if m == "default" and not x and rec.get("a"):
            t = self.c.types[rec["a"][0]] if type(rec["a"][0]) is int else {}
            if t.get("k") in ("int", "uint"):
                return [(st, K(0))]
        if m in SKIP or m.startswith("set_"):
            return [(st, mk("call", m, (), len(st.auto)))]
        if m in ("sort_by_key", "sort_by", "sort_unstable_by_key"):
            return [(st, UNIT)]
        if m in ("into_iter", "zip"):
            y = [owned(q) if vec_like(q) else q for q in x]
            if m == "into_iter" and y[0] is not x[0]:
                return [(st, y[0])]
            if m == "zip" and all(q.k == "agg" and q.a[0] == "it" for q in y):
                return [(st, agg("it", "zip", "val", (".a", ".b"),
                                 tuple(y)))]
        if m == "collect":
            r = elements(ae, st, x[0])
            if r is not None:
                return [(r[0], arr(r[1]))]
        if m == "contains" and len(x) == 2:
            vs, e = deref_k(st, x[0]), deref_k(st, x[1])
            if vec_like(vs) and all(isk(q) for q in vs.a[4]) and isk(e):
                return [(st, K(int(e in vs.a[4])))]
        if m == "from" and "ArrayVec" in p and vec_like(x[0]):
            return [(st, x[0])]
        if "ArrayVec" in norm(rec.get("rp") or rec["p"]) or \
                m in ("deref", "deref_mut", "first", "len", "is_empty") and x:
            return c24.vec(ae, st, m, x)
        return None

    def rt(self, r):
        return en(self.c, "RefType", c24.NAMES[r])

    def refs(self, v):
        try:
            return tuple(c24.NAMES.index(e.a[2]) for e in v.a[4])
        except (ValueError, AttributeError, IndexError):
            return None

    def args(self, name, x):
        f = fnamed(self.ctx, name)
        return dict(zip(params(f), x))

    def found(self, ae, st, n, x):
        d = self.args(n, x)
        r = self.refs(deref_k(st, d["ref_frames"]))
        pl = d["mv_stack"]
        v = st.load((pl.a[0], pl.a[1]))
        good = (r in self.cands and vec_like(v) and not v.a[4] and
                bo_xy(d["bo"]) == self.cells["bo"] and
                d["bsize"] is self.cells["bsize"] and
                val_of(d["is_compound"]) == int(0 < r[1] < 8))
        st.auto = st.auto + (("find", r, good),)
        if not good:
            return [(st, sym("ctx?"))]
        st.put((pl.a[0], pl.a[1]), arr([self.cand(*q)
                                        for q in self.cands[r][0]]))
        return [(st, K(self.cands[r][1]))]

    def motion(self, ae, st, n, x):
        d = self.args(n, x)
        r = d.get("ref_frame")
        i = c24.NAMES.index(r.a[2]) if r is not None and r.k == "agg" else None
        mv = self.me.get(i)
        if mv is None:
            return [(st, NONE)]
        ad = self.c.adt("MotionSearchResult")
        fs = tuple("." + q[0] for q in ad["variants"][0][2])
        return [(st, some(agg("adt", ad["adt"], None, fs, tuple(
            mv_of(self.c, *mv) if q == ".mv" else sym("me" + q)
            for q in fs))))]

    def coded(self, ae, st, n, x, line):
        d = self.args(n, x)
        g = {k: deref_k(st, d[k]) for k in ("luma_mode", "mvs", "ref_frames",
                                          "mode_context", "mv_stack", "bsize",
                                          "tile_bo") if k in d}
        vs = g["mv_stack"]
        fl = [dict(zip(e.a[3], e.a[4])) for e in vs.a[4]] \
            if vec_like(vs) and all(e.k == "agg" for e in vs.a[4]) else None
        st.auto = st.auto + (("code", (
            g["luma_mode"].a[2] if g["luma_mode"].k == "agg" else None,
            tuple(c24.pair(deref_k(st, q)) for q in g["mvs"].a[4])
            if vec_like(g["mvs"]) else None,
            self.refs(g["ref_frames"]), val_of(g["mode_context"]),
            tuple((c24.pair(q[".this_mv"]), c24.pair(q[".comp_mv"])) for q in fl)
            if fl is not None else None,
            g["bsize"] is self.cells["bsize"] and
            bo_xy(g["tile_bo"]) == self.cells["bo"]), line),)
        return [(st, agg("tuple", None, None, (0, 1), (
            sym("coded%d" % len(st.auto)), sym("dist%d" % len(st.auto)))))]


ALL = (1, 2, 3, 4, 5, 6, 7)
SLOTS = [(0,) * 7, (0, 1, 2, 3, 4, 5, 6), (0, 1, 2, 0, 4, 5, 4)]


def cells():
    for near in (0, 1):
        for full in (0, 1):
            for n in range(6):
                for comp in (0, 1):
                    yield near, full, n, max(n, 2) if comp else None


def decide(ctx, near, full, n, nc, me, small, slots):
    c = ctx.lib
    f = fnamed(ctx, "rdo::inter_frame_rdo_mode_decision")
    cands = {}
    for r in ALL:
        cands[(r, 8)] = ([((100 * r + 10 * k + 2, -20 * k - r * 2), (0, 0))
                          for k in range((n + r - 1) % 6)], 10 + r)
    for r in ALL[:4]:
        for q in ALL[4:]:
            cands[(r, q)] = ([((1000 + 10 * k, 2 * r), (2000 + 10 * k, 2 * q))
                              for k in range(nc or 2)], 30 + r + q)
    mv = {}
    for r in ALL:
        k = cands[(r, 8)][0]
        mv[r] = {0: (7000 + r, 8000 - r), 1: (0, 0), 3: None}.get(me) \
            if me != 2 else (k[min(1, len(k) - 1)][0] if k else (6, 6))
    bs = bsz(c, 4, 8) if small else bsz(c, 16, 8)
    w = World(ctx, cands, mv, {"allowed": ALL, "bo": (8, 12), "bsize": bs})
    pol = CellPolicy(None, None, w.hook)
    pol.count_unroll = 32
    pol.max_unroll = 64
    pol.recurse = 2
    pol.static_refs = True
    pol.max_steps = 100000
    pol.merge_on = False
    ae = _ae.AE(c, pol)
    args = [bs if p == "bsize" else bo_of(c, K(8), K(12)) if p == "tile_bo"
            else sym(p) for p in params(f)]
    st = ae.start(f, args, auto=())
    vals = {"reference_mode": en(c, "ReferenceMode", "SINGLE" if nc is None
                                 else "SELECT"),
            "config*.speed_settings.motion.include_near_mvs": K(near),
            "config*.speed_settings.prediction.prediction_modes": en(
                c, "PredictionModesSetting", "ComplexAll" if full else
                "Simple"),
            "ref_frames": arr([K(x) for x in slots])}
    for k, v in vals.items():
        st.put(place("fi", k), v)
    outs = [o for o in ae.run(st) if o.kind == "ret"]
    ctx.saw(*ae.fns_seen)
    return f, outs, cands


def cell(ctx, near, full, n, nc, me, small, slots):
    f, outs, cands = decide(ctx, near, full, n, nc, me, small, slots)
    what = "near %d, all modes %d, %d candidates, motion %d" % (
        near, full, n, me)
    ctx.count("mode decisions")
    if not ctx.ob(len(outs) == 1, "modes", "%d outcomes for %s" % (
            len(outs), what), f.loc()):
        return
    ev = outs[0].st.auto
    for e in ev:
        if e[0] == "find":
            ctx.ob(e[2], "modes:find", "%s: the candidates of references %s "
                   "are searched for another block or reference kind" % (
                       what, e[1]), f.loc())
    codes = [e for e in ev if e[0] == "code"]
    ctx.ob(bool(codes), "modes", "%s: no mode is tried" % what, f.loc())
    for _, (mode, mvs, r, cx, stack, here), line in codes:
        loc = "%s:%s" % (f.loc().rsplit(":", 1)[0], line)
        k = cands.get(r)
        if not ctx.ob(k is not None and mvs is not None and here, "modes:call",
                      "%s: %s is tried with references %s, vectors %s" % (
                          what, mode, r, mvs), loc):
            continue
        ctx.ob(stack == tuple(k[0]) and cx == k[1], "modes:list",
               "%s: %s for references %s is tried with the candidates of "
               "another search" % (what, mode, r), loc)
        comp = r[1] != 8
        if not ctx.ob(mode is not None and comp == (
                "_" in mode), "modes:kind", "%s: %s is tried with references "
                "%s" % (what, mode, r), loc):
            continue
        w = yields(mode, k[0], mvs)
        m = mvs if comp else mvs[:1]
        ctx.ob(w is not None and w[:len(m)] == m, "modes:vectors",
               "%s: %s with candidates %s predicts with %s, AV1's decoder "
               "with %s" % (what, mode, k[0], m, w and w[:len(m)]), loc)


def run(ctx, part, parts):
    i = 0
    for near, full, n, nc in cells():
        for me in range(4):
            for small in (0, 1):
                for slots in SLOTS[0 if n == 3 else 1:]:
                    i += 1
                    if i % parts == part:
                        cell(ctx, near, full, n, nc, me, small, slots)

"""C21: the mode info of every block follows AV1's block syntax."""
from sa.val import *
from sa.gate import *
from sa.prog import norm
from sa import ae as _ae
from sa import vecs
from checks.c18 import last, arr
from checks.c19 import fnamed

RULE = """encode_block_pre_cdef and encode_block_post_cdef are interpreted with
every syntax-element writer opaque, on every block size, prediction mode,
motion vector stack and frame switch; the sequence of elements written, with
the values they are given, must be AV1's intra_frame_mode_info /
inter_frame_mode_info followed by read_block_tx_size and residual.  The block
information the element contexts read must have been recorded before.  The
superblock, partition and writer choices around it are interpreted likewise."""
ASSUME = ["assertions hold (a failing one aborts the encoder)",
          "block sizes are those of the four partition types rav1e uses"]

PRIMS = {"write_segmentation", "write_skip", "write_block_deblock_deltas",
         "write_is_inter", "write_ref_frames", "write_compound_mode",
         "write_inter_mode", "write_drl_mode", "write_mv", "write_intra_mode",
         "write_intra_mode_kf", "write_angle_delta", "write_intra_uv_mode",
         "write_cfl_alphas", "write_use_palette_mode",
         "write_use_filter_intra", "write_tx_size_intra",
         "write_tx_size_inter", "fill_neighbours_ref_counts",
         "reset_skip_context", "update_tx_size_context", "write_partition",
         "write_cdef", "write_lrf", "write_coeffs_lv_map", "write_tx_type"}
SETS = {"set_skip", "set_block_size", "set_mode", "set_tx_size",
        "set_ref_frames", "set_motion_vectors", "set_segmentation_idx",
        "set_cdef"}
ZERO = {"<%s as std::default::Default>::default" % t for t in (
    "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "isize", "usize",
    "bool")}
SIZES = ["BLOCK_4X4", "BLOCK_4X8", "BLOCK_8X4", "BLOCK_8X8", "BLOCK_8X16",
         "BLOCK_16X8", "BLOCK_16X16", "BLOCK_16X32", "BLOCK_32X16",
         "BLOCK_32X32", "BLOCK_32X64", "BLOCK_64X32", "BLOCK_64X64"]
INTRA = ["DC_PRED", "V_PRED", "H_PRED", "D45_PRED", "D135_PRED", "D113_PRED",
         "D157_PRED", "D203_PRED", "D67_PRED", "SMOOTH_PRED", "SMOOTH_V_PRED",
         "SMOOTH_H_PRED", "PAETH_PRED"]
DIRECTIONAL = set(INTRA[1:9])
SINGLE = {"NEARESTMV": None, "NEAR0MV": 1, "NEAR1MV": 2, "NEAR2MV": 3,
          "GLOBALMV": None, "NEWMV": None}
COMPOUND = {"NEAREST_NEARESTMV": None, "NEAR_NEAR0MV": 1, "NEAR_NEAR1MV": 2,
            "NEAR_NEAR2MV": 3, "NEAREST_NEWMV": None, "NEW_NEARESTMV": None,
            "GLOBAL_GLOBALMV": None, "NEW_NEWMV": None}


def wh(b):
    w, h = b[6:].split("X")
    return int(w), int(h)


def run(ctx):
    pre(ctx)
    post(ctx)
    residual(ctx)
    blocks(ctx)
    partitions(ctx)
    queue(ctx)
    tile(ctx)


def en(c, ty, v):
    return agg("adt", c.adt(ty)["adt"], v, (), ())


def params(f):
    return [f.dbg_name(i + 1) or "arg%d" % i for i in range(f.nargs)]


def hook_of(over):
    def call(a, st, n, rn, rec, args, site, line):
        m = last(rn or n)
        if over:
            r = over(a, st, m, args, rec)
            if r is not None:
                return r
        if m in PRIMS and args:
            st.auto = st.auto + ((m,) + tuple(
                deref(st, x) for x in args[1:]),)
            return [(st, UNIT)]
        if m in SETS:
            st.auto = st.auto + ((m,) + tuple(
                deref(st, x) for x in args[1:]),)
            return [(st, UNIT)]
        if rn in ZERO:
            return [(st, K(0))]
        return None
    return call


def deref(st, x):
    if x.k == "ref" and x.a[0][0] == "X" and not x.a[1]:
        v = x.a[0][1]
        return v
    return x


def place(r, p):
    base = sym(r)
    *hops, q = p.split("->")
    for h in hops:
        base = _ae.State().load((("X", base), elems(h)))
    return ("X", base), elems(q) if q else ()


def explore(ctx, f, args, facts, over, vals=None, auto=(), planes=(),
            steps=60000, recs=()):
    c = ctx.lib
    pol = CellPolicy(None, None, hook_of(over))
    pol.count_unroll = 8
    pol.max_unroll = 16
    pol.max_steps = steps
    a = _ae.AE(c, pol)
    st = a.start(f, args, auto=auto)
    for (r, p), v in (vals or {}).items():
        st.put(place(r, p), v)
    for (r, p), i, sx, sy in planes:
        pl = place(r, p + "->planes")
        for n, v in (("xdec", sx), ("ydec", sy)):
            st.put((pl[0], pl[1] + (("i", K(i)), ".cfg", "." + n)), K(v))
    for i, sx, sy in recs:
        pl = place("ts", "rec.planes")
        cf = _ae.State().load((pl[0], pl[1] + (("i", K(i)), ".plane_cfg")))
        for n, v in (("xdec", sx), ("ydec", sy)):
            st.put((("X", cf), ("." + n,)), K(v))
    for s, v in facts.items():
        st.facts[s] = v
    outs = [o for o in a.run(st) if o.kind == "ret"]
    ctx.saw(*a.fns_seen)
    ctx.count("cells")
    return outs


def names(ev):
    return [e[0] for e in ev if e[0] not in SETS]


def text(ev):
    return " ".join(e[0].replace("write_", "") + "(" + ",".join(
        show(x)[:24] for x in e[1:]) + ")" for e in ev)


# ------------------------------------------------------------ before CDEF
def pre(ctx):
    c = ctx.lib
    f = fnamed(ctx, "encoder::encode_block_pre_cdef")
    ps = params(f)
    for en_, up, psk, skip, cdef, coded in (
            (a, b, d, s, e, g) for a in (0, 1) for b in (0, 1) for d in (0, 1)
            for s in (0, 1) for e in (0, 1) for g in (0, 1)):
        args = [K(skip) if p == "skip" else sym(p) for p in ps]
        vals = {("ts", "segmentation->enabled"): K(en_),
                ("ts", "segmentation->update_map"): K(up),
                ("ts", "segmentation->preskip"): K(psk),
                ("seq", "enable_cdef"): K(cdef),
                ("cw", "bc.cdef_coded"): K(coded)}
        outs = explore(ctx, f, args, {}, None, vals)
        key = "pre"
        if not ctx.ob(len(outs) == 1, key, "%d outcomes" % len(outs), f.loc()):
            return
        o = outs[0]
        seg = ("write_segmentation",)
        want = []
        lastseg = sym("ts.segmentation.last_active_segid")
        w, bo, bs = sym("w"), sym("tile_bo"), sym("bsize")
        if en_ and up and psk:
            want.append(("write_segmentation", w, bo, bs, K(0)))
        want.append(("write_skip", w, bo, K(skip)))
        if en_ and up and not psk:
            want.append(("write_segmentation", w, bo, bs, K(skip)))
        got = [e for e in o.st.auto if e[0] not in SETS]
        got = [e[:5] if e[0] == "write_segmentation" else e for e in got]
        ctx.ob(got == want, key, "with segmentation %d/%d/%d and skip %d a "
               "block writes %s, AV1 reads %s" % (
                   en_, up, psk, skip, text(got), text(want)), f.loc())
        sets = [e for e in o.st.auto if e[0] in SETS]
        i = [e[0] for e in o.st.auto]
        ctx.ob(("set_skip", bo, bs, K(skip)) in sets and
               i.index("set_skip") < i.index("write_skip"), "pre:skip",
               "the skip flag is not recorded for the contexts of later "
               "blocks", f.loc())
        exp = K(1 if coded or (cdef and not skip) else 0)
        v = o.st.load((("X", sym("cw")), (".bc", ".cdef_coded")))
        ctx.ob(v is exp and o.ret is exp, "pre:cdef", "with CDEF %d, skip %d "
               "and %d before, cdef_coded is %s (returned %s)" % (
                   cdef, skip, coded, show(v), show(o.ret)), f.loc())


# ------------------------------------------------------------ after CDEF
def mvstack(ctx, n, weights):
    c = ctx.lib
    ad = c.adt("CandidateMV")
    fs = [x[0] for x in ad["variants"][0][2]]
    els = []
    for i in range(n):
        els.append(agg("adt", ad["adt"], None, tuple("." + x for x in fs),
                       tuple(K(weights[i]) if x == "weight" else
                             sym("%s%d" % (x, i)) for x in fs)))
    return mk("ref", ("C", arr(els)), (), 0)


REF_CAT = 640


def post(ctx):
    c = ctx.lib
    f = fnamed(ctx, "encoder::encode_block_post_cdef")
    ps = params(f)
    need = ["fi", "ts", "cw", "w", "luma_mode", "chroma_mode", "angle_delta",
            "ref_frames", "mvs", "bsize", "tile_bo", "skip", "cfl", "tx_size",
            "tx_type", "mode_context", "mv_stack"]
    if not ctx.ob(all(n in ps for n in need), "post", "parameters are %s" % ps,
                  f.loc()):
        return
    ft = [v[0] for v in c.adt("FrameType")["variants"]]
    base = dict(frame="KEY", mode="DC_PRED", uv="DC_PRED", bs="BLOCK_16X16",
                skip=0, cs="Cs420", chroma=1, sct=0, fint=0, txsel=1, split=0,
                n=0, wts=(), code=0, dbl=0, intmv=0, hp=0, tx="TX_4X4")
    cells = []

    def cell(**kw):
        d = dict(base)
        d.update(kw)
        cells.append(d)
    for bs in SIZES:
        for mode in INTRA:
            for frame in ("KEY", "INTER"):
                uv = "UV_CFL_PRED" if mode in ("DC_PRED", "D67_PRED") and \
                    max(wh(bs)) <= 32 else mode
                cell(bs=bs, mode=mode, uv=uv, frame=frame,
                     fint=1, sct=1, skip=len(mode) % 2)
        for mode in ("NEWMV", "GLOBALMV"):
            for skip in (0, 1):
                for split in (0, 1):
                    cell(bs=bs, mode=mode, uv=mode, frame="INTER", skip=skip,
                         split=split, n=2, wts=(700, 600))
    for frame in ft:
        for mode in ("DC_PRED", "D45_PRED"):
            for chroma in (0, 1):
                for cs in ("Cs420", "Cs400"):
                    for sct in (0, 1):
                        for fint in (0, 1):
                            for txsel in (0, 1):
                                cell(frame=frame, mode=mode, uv="V_PRED",
                                     chroma=chroma, cs=cs, sct=sct, fint=fint,
                                     txsel=txsel, skip=sct ^ fint)
    for mode in list(SINGLE) + list(COMPOUND):
        for n in range(5):
            for lo in range(n + 1):
                wts = tuple(700 - i if i < lo else 300 - i for i in range(n))
                cell(frame="INTER", mode=mode, uv=mode, n=n, wts=wts,
                     bs="BLOCK_16X16", skip=n & 1)
        for intmv, hp in ((0, 1), (1, 0), (1, 1)):
            cell(frame="INTER", mode=mode, uv=mode, n=3, wts=(900, 800, 700),
                 intmv=intmv, hp=hp)
    for code in (0, 1):
        for dbl in (0, 1):
            for bs in ("BLOCK_64X64", "BLOCK_32X32"):
                for skip in (0, 1):
                    cell(code=code, dbl=dbl, bs=bs, skip=skip)
    for d in cells:
        one(ctx, f, ps, d)


def post_outs(ctx, f, ps, d, more=None):
    c = ctx.lib
    vals = {("fi", "frame_type"): en(c, "FrameType", d["frame"]),
            ("fi", "sequence*.chroma_sampling"): en(c, "ChromaSampling",
                                                   d["cs"]),
            ("fi", "sequence*.use_128x128_superblock"): K(0),
            ("fi", "sequence*.enable_filter_intra"): K(d["fint"]),
            ("fi", "sequence*.enable_intra_edge_filter"): K(d.get("edge", 0)),
            ("fi", "allow_screen_content_tools"): K(d["sct"]),
            ("fi", "tx_mode_select"): K(d["txsel"]),
            ("fi", "enable_inter_txfm_split"): K(d["split"]),
            ("fi", "force_integer_mv"): K(d["intmv"]),
            ("fi", "allow_high_precision_mv"): K(d["hp"]),
            ("cw", "bc.code_deltas"): K(d["code"]),
            ("ts", "deblock->block_deltas_enabled"): K(d["dbl"])}
    if "mi" in d:
        vals[("ts", "mi_width")] = K(d["mi"][0])
        vals[("ts", "mi_height")] = K(d["mi"][1])
    a = []
    for p in ps:
        if p == "luma_mode":
            a.append(en(c, "PredictionMode", d["mode"]))
        elif p == "chroma_mode":
            a.append(en(c, "PredictionMode", d["uv"]))
        elif p == "bsize":
            a.append(en(c, "BlockSize", d["bs"]))
        elif p == "skip":
            a.append(K(d["skip"]))
        elif p == "tx_size":
            a.append(en(c, "TxSize", d["tx"]))
        elif p == "mv_stack":
            a.append(mvstack(ctx, d["n"], d["wts"]))
        elif p == "mvs":
            a.append(arr([sym("mv0"), sym("mv1")]))
        elif p == "ref_frames":
            a.append(arr([sym("ref0"), sym("ref1")]))
        elif p == "tile_bo" and "pos" in d:
            a.append(d["pos"])
        elif p == "enc_stats":
            a.append(agg("adt", "std::option::Option", "None", (), ()))
        elif p == "angle_delta":
            a.append(agg("adt", c.adt("AngleDelta")["adt"], None,
                         (".y", ".uv"), (sym("ay"), sym("auv"))))
        else:
            a.append(sym(p))
    residual = ("write_tx_tree", "write_tx_blocks")

    def over(ae, st, m, args, rec):
        if m == "has_chroma":
            return [(st, K(d["chroma"]))]
        if m in residual:
            st.auto = st.auto + ((m,) + tuple(args),)
            return [(st, sym("residual"))]
        if m == "motion_compensate":
            st.auto = st.auto + (("predict",) + tuple(args),)
            return [(st, UNIT)]
        return more(ae, st, m, args, rec) if more else None
    return explore(ctx, f, a, {}, over, vals)


def one(ctx, f, ps, d):
    c = ctx.lib
    inter = d["mode"] in SINGLE or d["mode"] in COMPOUND
    outs = post_outs(ctx, f, ps, d)
    key = "post:" + ("inter:" + d["mode"] if inter else "intra:" + d["mode"])
    exp = expected(ctx, d)
    if not outs and inter and impossible(d):
        ctx.ob(True, key, "", f.loc())
        return
    if not ctx.ob(len(outs) >= 1, key, "no outcome for %s" % brief(d),
                  f.loc()):
        return
    for o in outs:
        ev = o.st.auto
        got = [canon(ctx, e) for e in ev if e[0] not in SETS and
               e[0] != "predict"]
        if got != exp:
            i = next((i for i in range(min(len(got), len(exp)))
                      if got[i] != exp[i]), min(len(got), len(exp)))
            ctx.ob(False, key, "a %s block writes %s as its element %d, AV1 "
                   "reads %s (%s)" % (
                       d["bs"], text([got[i]]) if i < len(got) else "nothing",
                       i, text([exp[i]]) if i < len(exp) else "nothing more",
                       brief(d)), f.loc())
        else:
            ctx.ob(True, key, "", f.loc())
        # what contexts read later
        bo, bs = sym("tile_bo"), en(c, "BlockSize", d["bs"])
        sets = {e[0]: (i, e) for i, e in enumerate(ev) if e[0] in SETS}
        firstw = next((i for i, e in enumerate(ev)
                       if e[0] not in SETS and e[0] not in (
                           "reset_skip_context", "predict")), len(ev))
        for s, v in (("set_mode", en(c, "PredictionMode", d["mode"])),
                     ("set_block_size", None),
                     ("set_tx_size", en(c, "TxSize", d["tx"])),
                     ("set_ref_frames", arr([sym("ref0"), sym("ref1")])),
                     ("set_motion_vectors", arr([sym("mv0"), sym("mv1")]))):
            g = sets.get(s)
            ctx.ob(g is not None and g[0] < firstw and g[1][1] is bo and
                   g[1][2] is bs and (v is None or g[1][3] is v),
                   "record:" + s, "the block's %s is not recorded for the "
                   "contexts before its elements are written: %s" % (
                       s[4:], text([g[1]]) if g else "never"), f.loc())
        v = o.st.load((("X", sym("cw")), (".bc", ".code_deltas")))
        ctx.ob(v is K(0), "record:deltas", "delta values can be coded again "
               "after the first block", f.loc())


def brief(d):
    return "%s frame, skip %d, %d vectors, chroma %d %s" % (
        d["frame"], d["skip"], d["n"], d["chroma"], d["cs"])


def impossible(d):
    """The mode needs more candidate vectors than there are."""
    m = d["mode"]
    idx = SINGLE.get(m) or COMPOUND.get(m)
    if m == "NEW_NEWMV":
        return d["n"] < 2
    if idx and m != "NEAR0MV":
        return d["n"] <= idx
    return m == "NEAR0MV" and d["n"] == 0


def canon(ctx, e):
    """Keep what the decoder's parsing depends on."""
    n = e[0]
    keep = {"write_is_inter": 4, "write_ref_frames": 2,
            "write_compound_mode": 4, "write_inter_mode": 4,
            "write_drl_mode": 4, "write_mv": 5, "write_intra_mode": 4,
            "write_intra_mode_kf": 4, "write_angle_delta": 4,
            "write_intra_uv_mode": 5, "write_cfl_alphas": 3,
            "write_use_palette_mode": 3, "write_use_filter_intra": 4,
            "write_tx_size_intra": 5, "write_tx_size_inter": 6,
            "fill_neighbours_ref_counts": 2, "reset_skip_context": 3,
            "update_tx_size_context": 5, "write_block_deblock_deltas": 2}
    if n in ("write_tx_tree", "write_tx_blocks"):
        return (n,)
    return e[:keep.get(n, len(e))]


def expected(ctx, d):
    c = ctx.lib
    w, bo = sym("w"), sym("tile_bo")
    bs = en(c, "BlockSize", d["bs"])
    W, H = wh(d["bs"])
    mode = en(c, "PredictionMode", d["mode"])
    uv = en(c, "PredictionMode", d["uv"])
    tx = en(c, "TxSize", d["tx"])
    inter = d["mode"] in SINGLE or d["mode"] in COMPOUND
    ge8 = W >= 8 and H >= 8
    out = []
    if d["skip"]:
        out.append(("reset_skip_context", bo, bs))
    if d["code"] and d["dbl"] and (d["bs"] != "BLOCK_64X64" or not d["skip"]):
        out.append(("write_block_deblock_deltas", w))
    if d["frame"] in ("INTER", "SWITCH"):
        out.append(("write_is_inter", w, bo, K(int(inter))))
        if inter:
            out.append(("fill_neighbours_ref_counts", bo))
            out.append(("write_ref_frames", w))
            m = d["mode"]
            ctxm = sym("mode_context")
            out.append(("write_compound_mode" if m in COMPOUND else
                        "write_inter_mode", w, mode, ctxm))
            n, wt = d["n"], d["wts"]
            idx = SINGLE.get(m) or COMPOUND.get(m)
            drl = []
            if m in ("NEWMV", "NEW_NEWMV"):
                rng, ref = (0, 1), 0
            elif idx:
                rng, ref = (1, 2), idx
            else:
                rng, ref = (), 0
            for i in rng:
                if n > i + 1:
                    k = (wt[i] < REF_CAT) + (wt[i + 1] < REF_CAT)
                    drl.append(("write_drl_mode", w, K(int(ref > i)), K(k)))
                    if ref <= i:
                        break
            mvs = []
            prec = en(c, "MvSubpelPrecision", "MV_SUBPEL_NONE" if d["intmv"]
                      else "MV_SUBPEL_HIGH_PRECISION" if d["hp"] else
                      "MV_SUBPEL_LOW_PRECISION")
            for k, ms in ((0, ("NEWMV", "NEW_NEWMV", "NEW_NEARESTMV")),
                          (1, ("NEW_NEWMV", "NEAREST_NEWMV"))):
                if m in ms:
                    if n:
                        r = sym("this_mv0" if k == 0 else "comp_mv0")
                    else:
                        r = agg("adt", c.adt("MotionVector")["adt"], None,
                                (".row", ".col"), (K(0), K(0)))
                    mvs.append(("write_mv", w, sym("mv%d" % k), r))
            out += drl + mvs
            if mvs:
                out[-len(mvs):] = [x[:4] + () for x in out[-len(mvs):]]
                out[-len(mvs):] = [x + (prec,) for x in out[-len(mvs):]]
        else:
            out.append(("write_intra_mode", w, bs, mode))
    else:
        out.append(("write_intra_mode_kf", w, bo, mode))
    if not inter:
        if d["mode"] in DIRECTIONAL and ge8:
            out.append(("write_angle_delta", w, sym("ay"), mode))
        if d["chroma"]:
            out.append(("write_intra_uv_mode", w, uv, mode, bs))
            out[-1] = out[-1][:5]
            if d["uv"] == "UV_CFL_PRED":
                out.append(("write_cfl_alphas", w, sym("cfl")))
            if d["uv"] in DIRECTIONAL and ge8:
                out.append(("write_angle_delta", w, sym("auv"), uv))
        if d["sct"] and ge8:
            out.append(("write_use_palette_mode", w, K(0)))
        if d["fint"] and d["mode"] == "DC_PRED" and W <= 32 and H <= 32:
            out.append(("write_use_filter_intra", w, K(0), bs))
    if d["txsel"]:
        if d["bs"] != "BLOCK_4X4" and not (inter and d["skip"]):
            if inter:
                lim = en(c, "TxSize", "TX_" + d["bs"][6:])
                split = int(bool(d["split"]) and d["bs"] != "BLOCK_4X4")
                out.append(("write_tx_size_inter", w, bo, bs, lim, K(split)))
            else:
                out.append(("write_tx_size_intra", w, bo, bs, tx))
                out.append(("update_tx_size_context", bo, bs, tx, K(0)))
        else:
            out.append(("update_tx_size_context", bo, bs, tx,
                        K(int(inter and d["skip"]))))
    out.append(("write_tx_tree",) if inter else ("write_tx_blocks",))
    return [e[:6] if e[0] == "write_tx_size_inter" else e for e in out]


# ------------------------------------------------------------ residual
UVTX = {"DC_PRED": "DCT_DCT", "V_PRED": "ADST_DCT", "H_PRED": "DCT_ADST",
        "D45_PRED": "DCT_DCT", "D135_PRED": "ADST_ADST",
        "D113_PRED": "ADST_DCT", "D157_PRED": "DCT_ADST",
        "D203_PRED": "DCT_ADST", "D67_PRED": "ADST_DCT",
        "SMOOTH_PRED": "ADST_ADST", "SMOOTH_V_PRED": "ADST_DCT",
        "SMOOTH_H_PRED": "DCT_ADST", "PAETH_PRED": "ADST_ADST",
        "UV_CFL_PRED": "DCT_DCT"}


def mi(b):
    w, h = wh(b)
    return w // 4, h // 4


def bo_of(c, x, y):
    ad, ib = c.adt("TileBlockOffset"), c.adt("BlockOffset")
    return agg("adt", ad["adt"], None, (".0",), (
        agg("adt", ib["adt"], None, (".x", ".y"), (x, y)),))


def bo_xy(v):
    """(x, y) of an offset value, when constant."""
    try:
        i = v.a[4][0]
        d = dict(zip(i.a[3], i.a[4]))
        return d[".x"].a[0], d[".y"].a[0]
    except (IndexError, KeyError, AttributeError, TypeError):
        return None


def split_once(w, h):
    """One level of AV1's transform split (Split_Tx_Size)."""
    if w == h:
        return max(w // 2, 4), max(h // 2, 4)
    if w > h:
        return max(w // 2, h), h
    return w, max(h // 2, w)


TXS = {(4, 4), (8, 8), (16, 16), (32, 32), (64, 64), (4, 8), (8, 4), (8, 16),
       (16, 8), (16, 32), (32, 16), (32, 64), (64, 32), (4, 16), (16, 4),
       (8, 32), (32, 8), (16, 64), (64, 16)}


def sub_tx(w, h):
    return split_once(w, h)


def tree(x, y, w, h, tx):
    if w <= tx[0] and h <= tx[1]:
        return [(x, y)]
    out = []
    if w > h:
        out = tree(x, y, w // 2, h, tx) + tree(x + w // 2, y, w // 2, h, tx)
    elif w < h:
        out = tree(x, y, w, h // 2, tx) + tree(x, y + h // 2, w, h // 2, tx)
    else:
        for yy in (y, y + h // 2):
            for xx in (x, x + w // 2):
                out += tree(xx, yy, w // 2, h // 2, tx)
    return out


def residual(ctx):
    c = ctx.lib
    for fname, inter in (("write_tx_tree", 1), ("write_tx_blocks", 0)):
        f = fnamed(ctx, "encoder::" + fname)
        ps = params(f)
        for bs in SIZES:
            W, H = wh(bs)
            sizes = [(W, H), split_once(W, H)]
            if not inter:
                sizes.append(split_once(*sizes[1]))
            for tx in dict.fromkeys(sizes):
                for cs, sx, sy in (("Cs420", 1, 1), ("Cs422", 1, 0),
                                   ("Cs444", 0, 0), ("Cs400", 1, 1)):
                    if cs == "Cs422" and H > W:
                        continue
                    if cs == "Cs422" and inter and (W < 8 or H < 8):
                        continue
                    for skip in (0, 1):
                        for px, py in ((0, 0), (W // 4, 0), (0, H // 4),
                                       (W // 4, H // 4)):
                            for ex, ey in ((64, 64), (px + max(W // 8, 1),
                                                      py + max(H // 8, 1))):
                                if ex % 2 or ey % 2:
                                    continue
                                if skip and (px or ex != 64):
                                    continue
                                res_one(ctx, f, ps, fname, inter, bs, tx, cs,
                                        sx, sy, skip, px, py, ex, ey)


def res_one(ctx, f, ps, fname, inter, bs, tx, cs, sx, sy, skip, px, py, ex,
            ey):
    c = ctx.lib
    W, H = wh(bs)
    args = []
    uvm = list(UVTX)[(px + py + W + H // 4 + tx[0] + sx) % len(UVTX)]
    ltx = "DCT_DCT" if inter else "ADST_DCT"
    for p in ps:
        v = {"bsize": lambda: en(c, "BlockSize", bs),
             "tx_size": lambda: en(c, "TxSize", "TX_%dX%d" % tx),
             "tx_type": lambda: en(c, "TxType", ltx),
             "skip": lambda: K(skip), "luma_only": lambda: K(0),
             "tile_bo": lambda: bo_of(c, K(px), K(py)),
             "luma_mode": lambda: en(c, "PredictionMode",
                                     "NEWMV" if inter else "D45_PRED"),
             "chroma_mode": lambda: en(c, "PredictionMode", uvm),
             "angle_delta": lambda: agg("adt", c.adt("AngleDelta")["adt"],
                                        None, (".y", ".uv"),
                                        (sym("ay"), sym("auv")))}.get(p)
        args.append(v() if v else sym(p))

    vals = {("fi", "sequence*.chroma_sampling"): en(c, "ChromaSampling", cs),
            ("ts", "mi_width"): K(ex), ("ts", "mi_height"): K(ey)}

    def over(ae, st, m, a, rec):
        if m == "encode_tx_block":
            st.auto = st.auto + ((m,) + tuple(a),)
            return [(st, agg("tuple", None, None, (".0", ".1"),
                             (K(1), sym("dist"))))]
        if m == "get_qidx":
            return [(st, K(40))]
        if m == "luma_ac":
            return [(st, sym("ac"))]
        if m == "update":
            return [(st, UNIT)]
        if m == "plane_offset":
            return [(st, agg("adt", c.adt("PlaneOffset")["adt"], None,
                             (".x", ".y"), (K(0), K(0))))]
        if m in ("add_assign", "zero") and "Distortion" in norm(rec["p"]) + \
                str(rec.get("rp")):
            return [(st, UNIT if m == "add_assign" else sym("d0"))]
        return None
    pl = [(("ts", "input"), i, sx if i else 0, sy if i else 0)
          for i in range(3)]
    outs = explore(ctx, f, args, {}, over, vals, planes=pl)
    key = "residual:" + fname
    if not ctx.ob(len(outs) == 1, key, "%d outcomes for %s" % (len(outs), bs),
                  f.loc()):
        return
    ev = [e for e in outs[0].st.auto if e[0] == "encode_tx_block"]
    q = fnamed(ctx, "encoder::encode_tx_block")
    qs = params(q)
    got, bad = [], None
    for e in ev:
        d = dict(zip(qs, e[1:]))
        xy = bo_xy(d["tx_bo"])
        t = d["tx_size"].a[2] if d["tx_size"].k == "agg" else None
        if xy is None or t is None or d["p"].k != "k":
            bad = e
            break
        if xy[0] >= ex or xy[1] >= ey:
            continue
        tw, th = (int(z) for z in t[3:].split("X"))
        got.append((d["p"].a[0], xy[0], xy[1], tw, th))
        p = d["p"].a[0]
        ty = ltx if not p else "DCT_DCT" if inter or max(tw, th) >= 32 else \
            UVTX[uvm]
        if d["tx_type"] is not en(c, "TxType", ty):
            ctx.ob(False, key + ":type", "plane %d of a %s block predicted "
                   "%s uses transform type %s, AV1 derives %s" % (
                       p, bs, uvm, show(d["tx_type"]), ty), f.loc())
        if d["skip"] is not K(skip) or d["bsize"] is not en(
                c, "BlockSize", bs):
            bad = e
    exp = []
    if not (inter and skip):
        hc = cs != "Cs400" and (px & 1 or W > 4 or not sx) and \
            (py & 1 or H > 4 or not sy)
        pts = tree(0, 0, W, H, tx) if inter else [
            (x, y) for y in range(0, H, tx[1]) for x in range(0, W, tx[0])]
        for x, y in pts:
            exp.append((0, px + x // 4, py + y // 4) + tx)
        if hc:
            cw, ch = max(W >> sx, 4), max(H >> sy, 4)
            tw, th = min(cw, 32), min(ch, 32)
            for p in (1, 2):
                for y in range(0, ch, th):
                    for x in range(0, cw, tw):
                        exp.append((p, ((px >> sx << sx) + (x << sx) // 4)
                                    if sx else px + x // 4,
                                    ((py >> sy << sy) + (y << sy) // 4)
                                    if sy else py + y // 4, tw, th))
        exp = [e for e in exp if e[1] < ex and e[2] < ey]
    ctx.ob(bad is None and got == exp, key, "a %s block at (%d,%d) of a "
           "%dx%d tile, transform %dx%d, %s, skip %d codes transform blocks "
           "%s, AV1 reads %s" % (bs, px, py, ex, ey, tx[0], tx[1], cs, skip,
                                 got if bad is None else "unknown", exp),
           f.loc())


# ------------------------------------------------------------ one block
FIELDS = ["pred_mode_luma", "pred_mode_chroma", "pred_cfl_params",
          "angle_delta", "ref_frames", "mvs", "sidx", "tx_size", "tx_type"]


def decision(ctx, over):
    c = ctx.lib
    ad = c.adt("PartitionParameters")
    fs = [x[0] for x in ad["variants"][0][2]]
    return agg("adt", ad["adt"], None, tuple("." + x for x in fs), tuple(
        over.get(x, sym("dec." + x)) for x in fs))


def block_over(ctx, stack, rdo=None):
    def over(ae, st, m, a, rec):
        if m in ("encode_block_pre_cdef", "encode_block_post_cdef",
                 "set_segmentation_idx", "rdo_tx_size_type",
                 "find_mvrefs", "rdo_mode_decision", "write_partition",
                 "save_block_motion", "update_partition_context"):
            st.auto = st.auto + ((m,) + tuple(a),)
            if m == "encode_block_pre_cdef":
                return [(st, sym("coded2"))]
            if m == "rdo_tx_size_type":
                return [(st, agg("tuple", None, None, (".0", ".1"),
                                 (sym("txs"), sym("txt"))))]
            if m == "find_mvrefs":
                r = a[3]
                lv = st.deref(r)
                st.put((lv[0], lv[1] + ("*",)), stack)
                return [(st, sym("mctx"))]
            if m == "rdo_mode_decision":
                return [(st, rdo)]
            return [(st, UNIT)]
        if m in ("len", "is_empty") and "ArrayVec" in norm(
                rec.get("rp") or rec["p"]):
            v = st.load(tuple_add(st.deref(a[0]), "*"))
            if v.k == "agg" and v.a[0] == "array":
                n = len(v.a[4])
                return [(st, K(n if m == "len" else int(not n)))]
        return None
    return over


def tuple_add(lv, e):
    return lv[0], lv[1] + (e,)


def same(v, name):
    return v is sym(name) or (v.k == "ref" and show(v) == "&" + name)


def one_block(ctx, f, o, dec, skip, tx, nmv, key, want_modes=None):
    """The events that code one block, in one outcome."""
    c = ctx.lib
    ev = list(o.st.auto)
    n = [e[0] for e in ev]
    what = ("set_segmentation_idx", "find_mvrefs", "encode_block_pre_cdef",
            "encode_block_post_cdef")
    if not ctx.ob(all(n.count(x) == 1 for x in what), key, "a block is coded "
                  "by %s" % n, f.loc()):
        return
    i = {x: n.index(x) for x in what}
    ctx.ob(i["set_segmentation_idx"] < i["encode_block_pre_cdef"] <
           i["encode_block_post_cdef"] and
           i["find_mvrefs"] < i["encode_block_post_cdef"], key + ":order",
           "a block's steps come in the order %s" % n, f.loc())
    e = ev[i["set_segmentation_idx"]]
    ctx.ob(e[2:] == (sym("tile_bo"), f_bs(ctx, o), dec[".sidx"]) or
           (e[4] is dec[".sidx"] and deref(o.st, e[2]) is o.env["tile_bo"]),
           key + ":segment", "the decided segment is not recorded: %s" %
           text([e]), f.loc())
    pre = dict(zip(params(fnamed(ctx, "encoder::encode_block_pre_cdef")),
                   ev[i["encode_block_pre_cdef"]][1:]))
    post = dict(zip(params(fnamed(ctx, "encoder::encode_block_post_cdef")),
                    ev[i["encode_block_post_cdef"]][1:]))
    fact = {show(k): v for k, v in o.st.facts.items()}
    co, c2 = fact.get("cw.bc.cdef_coded"), fact.get("coded2")
    for d, fact, nm in ((pre, co, "pre"), (post, c2, "post")):
        v = d["w"]
        w = "w_post_cdef" if one_of(fact) == 1 else "w_pre_cdef" \
            if one_of(fact) == 0 else None
        ctx.ob(w is not None and same(v, w), key + ":writer", "with "
               "cdef_coded = %s the elements %s CDEF go to %s" % (
                   one_of(fact), nm, show(v)), f.loc())
    env = o.env
    for d in (pre, post):
        ctx.ob(deref(o.st, d["bsize"]) is env["bsize"] and
               deref(o.st, d["tile_bo"]) is env["tile_bo"] and
               d["skip"] is skip, key + ":args", "the block is coded with "
               "%s %s skip %s" % (show(d["bsize"]), show(d["tile_bo"]),
                                  show(d["skip"])), f.loc())
    exp = {"angle_delta": dec[".angle_delta"], "mvs": dec[".mvs"],
           "ref_frames": dec[".ref_frames"], "cfl": dec[".pred_cfl_params"],
           "tx_size": tx[0], "tx_type": tx[1], "mode_context": sym("mctx")}
    if want_modes is None:
        exp["luma_mode"] = dec[".pred_mode_luma"]
        exp["chroma_mode"] = dec[".pred_mode_chroma"]
    for k, v in exp.items():
        ctx.ob(post[k] is v, key + ":args", "the block is coded with %s = %s "
               "instead of the decided %s" % (k, show(post[k]), show(v)),
               f.loc())
    ctx.ob(post["need_recon_pixel"] is K(1), key + ":recon", "a coded block "
           "is not reconstructed", f.loc())
    fm = dict(zip(params(fnamed(ctx, "context::ContextWriter::find_mvrefs"))
                  if 0 else ["self", "bo", "ref_frames", "mv_stack", "bsize",
                             "fi", "is_compound"],
                  ev[i["find_mvrefs"]][1:]))
    ctx.ob(fm["mv_stack"] is not None and
           post["mv_stack"].k == "ref" and fm["mv_stack"].k == "ref" and
           post["mv_stack"].a[0] == fm["mv_stack"].a[0] and
           fm["ref_frames"] is dec[".ref_frames"] and
           deref(o.st, fm["bo"]) is env["tile_bo"] and
           deref(o.st, fm["bsize"]) is env["bsize"], key + ":stack",
           "the candidate vectors the block is coded with are not those of "
           "its own position, size and references", f.loc())
    if want_modes is not None:
        want_modes(post["luma_mode"], post["chroma_mode"])


def f_bs(ctx, o):
    return o.env["bsize"]


def one_of(fact):
    if fact and fact[0] == "s" and len(fact[1]) == 1:
        return next(iter(fact[1]))
    return None


def fields(v):
    return dict(zip(v.a[3], v.a[4]))


def blocks(ctx):
    c = ctx.lib
    f = fnamed(ctx, "encoder::encode_block_with_modes")
    ps = params(f)
    env = {"bsize": sym("bsize"), "tile_bo": sym("tile_bo")}
    none, last_ = en(c, "RefType", "NONE_FRAME"), en(c, "RefType",
                                                     "LAST_FRAME")
    for skip, has in ((0, 0), (0, 1), (1, 0), (1, 1)):
        for r1 in (none, last_):
            dec = decision(ctx, {"skip": K(skip), "has_coeff": K(has),
                                 "ref_frames": arr([last_, r1])})
            args = [mk("ref", ("C", dec), (), 0) if p == "mode_decision" else
                    sym(p) for p in ps]
            outs = explore(ctx, f, args, {}, block_over(ctx, arr([])))
            ctx.ob(len(outs) == 4, "block", "%d outcomes" % len(outs),
                   f.loc())
            for o in outs:
                o.env = env
                empty = not skip and not has
                one_block(ctx, f, o, fields(dec), K(1 if skip or not has
                                                    else 0),
                          (sym("txs"), sym("txt")) if empty else
                          (sym("dec.tx_size"), sym("dec.tx_type")), 0,
                          "block")
                fm = [e for e in o.st.auto if e[0] == "find_mvrefs"][0]
                ctx.ob(fm[7] is K(int(r1 is last_)), "block:compound",
                       "compound is %s with a second reference %s" % (
                           show(fm[7]), show(r1)), f.loc())
                rd = [e for e in o.st.auto if e[0] == "rdo_tx_size_type"]
                if empty:
                    ctx.ob(len(rd) == 1 and rd[0][-1] is K(1), "block:tx",
                           "a block without coefficients keeps the transform "
                           "size of a coded one", f.loc())
    topdown_block(ctx)


def vec(c, r, q):
    return agg("adt", c.adt("MotionVector")["adt"], None, (".row", ".col"),
               (K(r), K(q)))


def topdown_block(ctx):
    c = ctx.lib
    f = fnamed(ctx, "encoder::encode_partition_topdown")
    ps = params(f)
    ad = c.adt("CandidateMV")
    fs = [x[0] for x in ad["variants"][0][2]]
    none, lst = en(c, "RefType", "NONE_FRAME"), en(c, "RefType", "LAST_FRAME")
    cells = []
    pats = [(0, 0), (1, 0), (0, 1), (9, 9)]      # offsets added to the vector
    import itertools
    for mv0 in ((5, 7), (0, 0)):
        for n in range(5):
            for pat in itertools.product((0, 1, 2), repeat=n):
                cells.append((0, (mv0, (0, 0)), [(pats[p], (0, 0))
                                                 for p in pat]))
    for mvs in (((5, 7), (3, 2)), ((0, 0), (0, 0)), ((0, 0), (3, 2))):
        for n in (2, 3, 4):
            for pat in list(itertools.product((0, 1, 2, 3), repeat=n))[
                    ::3 if n == 4 else 1]:
                k = [((0, 0) if p & 1 else pats[1 + i % 2],
                      (0, 0) if p & 2 else pats[2 - i % 2])
                     for i, p in enumerate(pat)]
                cells.append((1, mvs, k))
    for comp, mvs, offs in cells:
        m0, m1 = mvs
        st_ = [((m0[0] + a[0], m0[1] + a[1]), (m1[0] + b[0], m1[1] + b[1]))
               for a, b in offs]
        stack = arr([agg("adt", ad["adt"], None, tuple("." + x for x in fs),
                         tuple(K(700) if x == "weight" else
                               vec(c, *s[0 if x == "this_mv" else 1])
                               for x in fs)) for s in st_])
        dec = decision(ctx, {
            "skip": K(0), "has_coeff": K(1), "ref_frames": arr(
                [lst, lst if comp else none]),
            "mvs": arr([vec(c, *m0), vec(c, *m1)]),
            "pred_mode_luma": en(c, "PredictionMode", "NEW_NEWMV" if comp
                                 else "NEWMV"),
            "pred_mode_chroma": en(c, "PredictionMode", "NEW_NEWMV" if comp
                                   else "NEWMV")})
        td_cell(ctx, f, ps, dec, stack, comp, mvs, st_)
    for skip in (0, 1):
        for given in (0, 1):
            dec = decision(ctx, {
                "skip": K(skip), "has_coeff": K(1),
                "ref_frames": arr([en(c, "RefType", "INTRA_FRAME"), none]),
                "pred_mode_luma": en(c, "PredictionMode", "D45_PRED")})
            td_cell(ctx, f, ps, dec, arr([]), 0, None, (), skip, given)


def td_cell(ctx, f, ps, dec, stack, comp, mvs, st_, skip=0, given=0):
    c = ctx.lib
    key = "topdown"
    bs, bo = en(c, "BlockSize", "BLOCK_16X16"), bo_of(c, K(4), K(4))
    args = []
    for p in ps:
        if p == "bsize":
            args.append(bs)
        elif p == "tile_bo":
            args.append(bo)
        elif p == "block_output":
            args.append(mk("ref", ("C", agg("adt", "std::option::Option",
                                            "None", (), ())), (), 0))
        else:
            args.append(sym(p))
    vals = {("ts", "mi_width"): K(64), ("ts", "mi_height"): K(64),
            ("fi", "partition_range.min"): bs,
            ("fi", "frame_type"): en(c, "FrameType", "INTER"),
            ("fi", "sequence*.chroma_sampling"): en(c, "ChromaSampling",
                                                    "Cs420"),
            ("fi", "partition_range.max"): en(c, "BlockSize", "BLOCK_64X64")}
    base = block_over(ctx, stack, dec)

    def over(ae, st, m, a, rec):
        if m == "first":
            return [(st, agg("adt", "std::option::Option", "Some", (".0",),
                             (mk("ref", ("C", dec), (), 0),)) if given else
                     agg("adt", "std::option::Option", "None", (), ()))]
        return base(ae, st, m, a, rec)
    outs = explore(ctx, f, args, {}, over, vals)
    if not ctx.ob(len(outs) >= 2, key, "%d outcomes" % len(outs), f.loc()):
        return

    def modes(l, u):
        m = l.a[2] if l.k == "agg" else None
        ctx.ob(u is l, key + ":chroma", "luma is coded %s and chroma %s" % (
            show(l), show(u)), f.loc())
        if mvs is None:
            return
        n = len(st_)

        def cand(i, k):
            return st_[i][k] if n > i else (0, 0) if i < 2 else None
        z = (0, 0)
        if comp:
            i = COMPOUND.get(m) or 0
            near = m in COMPOUND
            ok = near and (m == "NEW_NEWMV" or (
                m == "GLOBAL_GLOBALMV" and mvs == (z, z)) or (
                m == "NEAREST_NEWMV" and cand(0, 0) == mvs[0]) or (
                m == "NEW_NEARESTMV" and cand(0, 1) == mvs[1]) or (
                m == "NEAREST_NEARESTMV" and (cand(0, 0), cand(0, 1)) == mvs)
                or (COMPOUND[m] and (cand(i, 0), cand(i, 1)) == mvs))
        else:
            i = SINGLE.get(m) or 0
            ok = m in SINGLE and (m == "NEWMV" or (
                m == "GLOBALMV" and mvs[0] == z) or (
                (m == "NEARESTMV" or SINGLE[m]) and cand(i, 0) == mvs[0]))
        ctx.ob(ok, key + ":mode", "the mode %s coded for vectors %s does not "
               "select them from the candidates %s" % (m, mvs, st_), f.loc())
    for o in outs:
        o.env = {"bsize": bs, "tile_bo": bo}
        one_block(ctx, f, o, fields(dec), K(skip), (sym("txs"), sym("txt")),
                  0, key, modes if mvs is not None else None)
        n = [e[0] for e in o.st.auto]
        wp = [e for e in o.st.auto if e[0] == "write_partition"]
        ctx.ob(len(wp) == 1 and n.index("write_partition") <
               n.index("encode_block_pre_cdef") and
               wp[0][4] is en(c, "PartitionType", "PARTITION_NONE") and
               wp[0][5] is bs and deref(o.st, wp[0][3]) is bo,
               key + ":partition", "a whole block's partition is coded as "
               "%s" % text(wp), f.loc())


# ------------------------------------------------------------ partitions
PART = {"PARTITION_NONE": lambda w, h: (w, h, [(0, 0)]),
        "PARTITION_HORZ": lambda w, h: (w, h // 2, [(0, 0), (0, h // 2)]),
        "PARTITION_VERT": lambda w, h: (w // 2, h, [(0, 0), (w // 2, 0)]),
        "PARTITION_SPLIT": lambda w, h: (w // 2, h // 2, [
            (0, 0), (w // 2, 0), (0, h // 2), (w // 2, h // 2)])}


def group(ctx, **kw):
    pg = ctx.lib.adt("PartitionGroupParameters")
    pf = [x[0] for x in pg["variants"][0][2]]
    return agg("adt", pg["adt"], None, tuple("." + x for x in pf),
               tuple(kw[x] for x in pf))


def effective(ev):
    """What remains coded: a rollback of the context undoes all after the
    checkpoint."""
    out, mark = [], 0
    for e in ev:
        if e[0] == "checkpoint":
            if len(e) > 2:
                mark = len(out)
            continue
        if e[0] == "rollback":
            if "cw" in show(e[1]):
                del out[mark:]
            continue
        out.append(e)
    return out


def name_of(v):
    return v.a[2] if v.k == "agg" else None


def part_over(ctx, recurse, rdo):
    def over(ae, st, m, a, rec):
        if m == recurse:
            d = dict(zip(params(fnamed(ctx, "encoder::" + recurse)), a))
            st.auto = st.auto + ((m,) + tuple(a),)
            k = sum(e[0] == m for e in st.auto)
            if recurse == "encode_partition_topdown":
                return [(st, UNIT)]
            dec = decision(ctx, {"bsize": deref(st, d["bsize"]),
                                 "bo": deref(st, d["tile_bo"]),
                                 "sidx": sym("child%d" % k)})
            return [(st, group(ctx, rd_cost=sym("cost"), part_modes=arr(
                [dec]), part_type=sym("pt%d" % k)))]
        if m in ("encode_block_with_modes", "update_partition_context",
                 "write_partition", "rdo_mode_decision", "rollback",
                 "checkpoint", "save_block_motion", "encode_block_pre_cdef",
                 "encode_block_post_cdef", "rdo_partition_decision"):
            ev = tuple(a)
            if m == "encode_block_with_modes":
                ev = ev[:7] + (st.load(st.deref(a[7])),) + ev[8:]
            st.auto = st.auto + ((m,) + ev,)
            if m == "rdo_mode_decision":
                return [(st, rdo)]
            if m == "rdo_partition_decision":
                return [(st, rdo)]
            return [(st, sym("chk") if m == "checkpoint" else UNIT)]
        if m in ("compute_rd_cost", "tell_frac"):
            # the price of each partition tried is its own
            k = sum(e[0] == "write_partition" for e in st.auto)
            return [(st, sym("%s%d" % (m, k)))]
        return vecs.model(ae, st, m, a, rec)
    return over


def partitions(ctx):
    c = ctx.lib
    f = fnamed(ctx, "encoder::encode_partition_bottomup")
    ps = params(f)
    for bs in SIZES:
        W, H = wh(bs)
        for mn, thr, ex, cs, early in (
                ("BLOCK_4X4", "BLOCK_64X64", (1, 1), "Cs420", 0),
                ("BLOCK_4X4", "BLOCK_8X8", (1, 1), "Cs420", 1),
                ("BLOCK_16X16", "BLOCK_8X8", (1, 1), "Cs420", 0),
                ("BLOCK_4X4", "BLOCK_8X8", (0, 1), "Cs420", 0),
                ("BLOCK_4X4", "BLOCK_64X64", (1, 0), "Cs420", 0),
                ("BLOCK_64X64", "BLOCK_8X8", (0, 0), "Cs420", 0),
                ("BLOCK_4X4", "BLOCK_64X64", (1, 1), "Cs422", 0),
                ("BLOCK_4X4", "BLOCK_64X64", (1, 0), "Cs422", 0)):
            if W * H <= 64 and ex != (1, 1):
                continue
            if cs == "Cs422" and H > W:
                continue
            bottomup(ctx, f, ps, bs, mn, thr, ex, cs, early)
    topdown_split(ctx)


def part_cell(ctx, bs, mn, thr, ex, cs):
    c = ctx.lib
    W, H = wh(bs)
    x0, y0 = W // 4 * 2, H // 4 * 2
    has_c, has_r = ex
    mw = 256 if has_c else x0 + max(W // 8, 1)
    mh = 256 if has_r else y0 + max(H // 8, 1)
    vals = {("ts", "mi_width"): K(mw), ("ts", "mi_height"): K(mh),
            ("fi", "partition_range.min"): en(c, "BlockSize", mn),
            ("fi", "partition_range.max"): en(c, "BlockSize", "BLOCK_64X64"),
            ("fi", "config*.speed_settings.partition."
             "non_square_partition_max_threshold"): en(c, "BlockSize", thr),
            ("fi", "frame_type"): en(c, "FrameType", "INTER"),
            ("fi", "sequence*.chroma_sampling"): en(c, "ChromaSampling",
                                                    cs)}
    return x0, y0, mw, mh, vals


def bottomup(ctx, f, ps, bs, mn, thr, ex, cs, early):
    c = ctx.lib
    W, H = wh(bs)
    x0, y0, mw, mh, vals = part_cell(ctx, bs, mn, thr, ex, cs)
    vals[("fi", "enable_early_exit")] = K(early)
    bsv, bo = en(c, "BlockSize", bs), bo_of(c, K(x0), K(y0))
    args = [bsv if p == "bsize" else bo if p == "tile_bo" else sym(p)
            for p in ps]
    whole = decision(ctx, {"bsize": bsv, "bo": bo, "sidx": sym("whole"),
                           "pred_mode_luma": en(c, "PredictionMode",
                                                "DC_PRED")})
    outs = explore(ctx, f, args, {}, part_over(
        ctx, "encode_partition_bottomup", whole), vals, steps=400000)
    key = "bottomup"
    if not ctx.ob(len(outs) >= 1, key, "no outcome for %s" % bs, f.loc()):
        return
    sq = W == H
    must = sq and not all(ex)
    can = must or (sq and W > wh(mn)[0] and not (cs != "Cs420" and W <= 8))
    tried, finals = set(), set()
    for o in outs:
        g = fields(o.ret)
        finals.add(name_of(g[".part_type"]))
        if can and bs != "BLOCK_4X4" and W >= 8:
            tried |= {name_of(e[4]) for e in o.st.auto
                      if e[0] == "write_partition" and
                      bo_xy(deref2(o.st, e[3])) == (x0, y0)}
    ctx.ob(tried <= finals, key + ":abort", "a %s block with columns/rows %s "
           "inside in %s tries %s, yet the search never ends with it: the "
           "final coding aborts" % (bs, ex, cs, sorted(tried - finals)),
           f.loc())
    for o in outs:
        g = fields(o.ret)
        best = name_of(g[".part_type"])
        if best not in PART:
            ctx.ob(False, key, "a %s block ends with partition %s" % (
                bs, show(g[".part_type"])), f.loc())
            continue
        ok = best == "PARTITION_SPLIT" or (
            best == "PARTITION_NONE" and not must) or (
            best == "PARTITION_HORZ" and ex[0]) or (
            best == "PARTITION_VERT" and ex[1] and cs != "Cs422")
        if not can:
            ok = best == "PARTITION_NONE"
        ctx.ob(ok, key + ":allowed", "a %s block with columns/rows %s inside "
               "in %s is coded %s" % (bs, ex, cs, best), f.loc())
        ev = effective(o.st.auto)
        sw, sh, offs = PART[best](W, H)
        sub = en(c, "BlockSize", "BLOCK_%dX%d" % (sw, sh))
        pos = [(x0 + dx // 4, y0 + dy // 4) for dx, dy in offs]
        pos = [p for p in pos if p[0] < mw and p[1] < mh]
        got, bad = [], None
        for e in ev:
            if e[0] == "write_partition":
                got.append(("partition", name_of(e[4]),
                            bo_xy(deref2(o.st, e[3])), deref2(o.st, e[5])))
                w = show(e[2])
                if w not in ("&w_pre_cdef", "&w_post_cdef"):
                    bad = "writes to " + w
            elif e[0] == "encode_partition_bottomup":
                got.append(("block", bo_xy(deref2(o.st, e[7])),
                            deref2(o.st, e[6])))
            elif e[0] == "encode_block_with_modes":
                d = fields(e[8])
                got.append(("block", bo_xy(deref2(o.st, e[7])),
                            deref2(o.st, e[6])))
                if d[".bo"] is not deref2(o.st, e[7]) or \
                        d[".bsize"] is not deref2(o.st, e[6]):
                    bad = "codes a decision made for another block"
            elif e[0] == "update_partition_context":
                got.append(("context", bo_xy(deref2(o.st, e[2])),
                            deref2(o.st, e[3]), deref2(o.st, e[4])))
        exp = []
        if sq and W >= 8:
            exp.append(("partition", best, (x0, y0), bsv))
        exp += [("block", p, sub) for p in pos]
        if sq and W >= 8 and (W == 8 or best != "PARTITION_SPLIT"):
            exp.append(("context", (x0, y0), sub, bsv))
        ctx.ob(bad is None and got == exp, key, "a %s block at (%d,%d) of a "
               "%dx%d tile decided %s finally codes %s%s, AV1 reads %s" % (
                   bs, x0, y0, mw, mh, best, pshow(got),
                   " (%s)" % bad if bad else "", pshow(exp)), f.loc())


def deref2(st, x):
    if x.k == "ref":
        return st.load((x.a[0], x.a[1]))
    return x


def pshow(evs):
    return "; ".join(" ".join(show(x).split("::")[-1] if isinstance(x, V)
                              else str(x) for x in e) for e in evs)


def topdown_split(ctx):
    c = ctx.lib
    f = fnamed(ctx, "encoder::encode_partition_topdown")
    ps = params(f)
    for bs in ("BLOCK_8X8", "BLOCK_16X16", "BLOCK_32X32", "BLOCK_64X64"):
        for ex in ((1, 1), (1, 0), (0, 1), (0, 0)):
            for pt in ("PARTITION_SPLIT", "PARTITION_HORZ",
                       "PARTITION_VERT"):
                W, H = wh(bs)
                if W == 8 and ex != (1, 1):
                    continue
                if ex != (1, 1) and pt != "PARTITION_SPLIT":
                    continue
                x0, y0, mw, mh, vals = part_cell(
                    ctx, bs, "BLOCK_4X4", "BLOCK_8X8", ex, "Cs420")
                bsv, bo = en(c, "BlockSize", bs), bo_of(c, K(x0), K(y0))
                sw, sh, offs = PART[pt](W, H)
                sub = en(c, "BlockSize", "BLOCK_%dX%d" % (sw, sh))
                pos = [(x0 + dx // 4, y0 + dy // 4) for dx, dy in offs]
                modes = [decision(ctx, {"bsize": sub, "bo": bo_of(
                    c, K(x), K(y)), "sidx": sym("child%d" % i)})
                    for i, (x, y) in enumerate(pos)]
                g = group(ctx, rd_cost=sym("cost"), part_modes=arr(modes),
                          part_type=en(c, "PartitionType", pt))
                args = [bsv if p == "bsize" else bo if p == "tile_bo" else
                        mk("ref", ("C", vecs.opt()), (), 0)
                        if p == "block_output" else sym(p) for p in ps]
                outs = explore(ctx, f, args, {}, part_over(
                    ctx, "encode_partition_topdown", g), vals)
                td_split(ctx, f, bs, ex, pt, x0, y0, mw, mh, pos, sub, bsv,
                         outs)


def td_split(ctx, f, bs, ex, pt, x0, y0, mw, mh, pos, sub, bsv, outs):
    key = "topdown:split"
    W = wh(bs)[0]
    ctx.ob(len(outs) >= 1, key, "no outcome for %s" % bs, f.loc())
    fn = params(f)
    for o in outs:
        got = []
        for e in o.st.auto:
            if e[0] == "write_partition":
                got.append(("partition", name_of(e[4]),
                            bo_xy(deref2(o.st, e[3])), deref2(o.st, e[5])))
            elif e[0] == "encode_partition_topdown":
                d = dict(zip(fn, e[1:]))
                xy = bo_xy(deref2(o.st, d["tile_bo"]))
                if xy is None or (xy[0] < mw and xy[1] < mh):
                    got.append(("block", xy, deref2(o.st, d["bsize"])))
            elif e[0] == "update_partition_context":
                got.append(("context", bo_xy(deref2(o.st, e[2])),
                            deref2(o.st, e[3]), deref2(o.st, e[4])))
            elif e[0].startswith("encode_block"):
                got.append((e[0],))
        exp = [("partition", pt, (x0, y0), bsv)]
        exp += [("block", p, sub) for p in pos if p[0] < mw and p[1] < mh]
        if W == 8 or pt != "PARTITION_SPLIT":
            exp.append(("context", (x0, y0), sub, bsv))
        ctx.ob(got == exp, key, "a %s block at (%d,%d) of a %dx%d tile "
               "decided %s codes %s, AV1 reads %s" % (
                   bs, x0, y0, mw, mh, pt, pshow(got), pshow(exp)), f.loc())


# ------------------------------------------------------------ superblocks
def queue(ctx):
    """check_lf_queue: what is put in the stream for one queued superblock."""
    c = ctx.lib
    f = fnamed(ctx, "encoder::check_lf_queue")
    ps = params(f)
    ad = c.adt("SBSQueueEntry")
    fs = [x[0] for x in ad["variants"][0][2]]
    need = ["sbs_q", "last_lru_ready", "last_lru_rdoed", "last_lru_coded",
            "w", "cw", "ts", "fi"]
    if not ctx.ob(all(n in ps for n in need), "queue", "parameters are %s" %
                  ps, f.loc()):
        return
    import itertools
    for cs, rest, coded, ibc in itertools.product(
            ("Cs420", "Cs400"), (0, 1), (0, 1), (0, 1)):
        for lru, ready in (((0, 0, 0), (0, 0, 0)), ((1, 0, 0), (1, 0, 0)),
                           ((1, 0, 0), (0, 0, 0)), ((-1, -1, -1), (0, 0, 0)),
                           ((2, 1, -1), (2, 1, 1)), ((2, 1, 1), (2, 0, 1))):
            for prev in ((-1, -1, -1), (0, 0, 0), (1, 0, 0)):
                q_one(ctx, f, ps, ad, fs, cs, rest, coded, ibc, lru, ready,
                      prev)


def q_one(ctx, f, ps, ad, fs, cs, rest, coded, ibc, lru, ready, prev):
    c = ctx.lib
    qs = []
    for i in (0, 1):
        qs.append(agg("adt", ad["adt"], None, tuple("." + x for x in fs),
                      tuple(arr([K(v) for v in lru]) if x == "lru_index" else
                            K(coded) if x == "cdef_coded" else
                            sym("%s%d" % (x, i)) for x in fs)))
    vals = {("fi", "sequence*.chroma_sampling"): en(c, "ChromaSampling", cs),
            ("fi", "sequence*.enable_restoration"): K(rest),
            ("fi", "allow_intrabc"): K(ibc), ("sbs_q", ""): arr(qs)}
    for n, v in (("last_lru_ready", ready), ("last_lru_rdoed", prev),
                 ("last_lru_coded", prev)):
        vals[(n, "")] = arr([K(x) for x in v])

    def over(ae, st, m, a, rec):
        if m in ("rdo_loop_decision", "write_lrf", "write_cdef", "replay"):
            st.auto = st.auto + ((m,) + tuple(
                deref2(st, x) if m == "replay" and i == 0 else deref(st, x)
                for i, x in enumerate(a)),)
            return [(st, UNIT)]
        if m == "get_cdef":
            return [(st, mk("call", "cdef_of", (a[1],), None))]
        if m == "pop_front":
            st.auto = st.auto + (("pop",),)
        return vecs.model(ae, st, m, a, rec, ("VecDeque",))
    outs = explore(ctx, f, [sym(p) for p in ps], {}, over, vals)
    key = "queue"
    planes = 1 if cs == "Cs400" else 3
    isready = all(lru[p] <= ready[p] for p in range(planes))
    exp = []
    if isready:
        for i in (0, 1):
            sbo = sym("sbo%d" % i)
            cur = prev if i == 0 else tuple(max(a, b) for a, b in zip(
                prev, lru))
            todo = [p for p in range(planes) if lru[p] != -1 and
                    cur[p] < lru[p]]
            done = any(lru[p] != -1 and cur[p] >= lru[p]
                       for p in range(planes))
            if rest and not ibc:
                exp += [("lrf", sbo, p) for p in todo]
            exp.append(("replay", sym("w_pre_cdef%d" % i)))
            if coded:
                exp += [("cdef", sbo),
                        ("replay", sym("w_post_cdef%d" % i))]
            exp.append(("pop",))
    for o in outs:
        got, rdo, bad = [], [], None
        for e in o.st.auto:
            if e[0] == "rdo_loop_decision":
                rdo.append((e[1], len([g for g in got if g[0] == "pop"]),
                            sum(g[0] in ("replay", "cdef") for g in got)))
            elif e[0] == "write_lrf":
                got.append(("lrf", deref2(o.st, e[4]), e[5].a[0]
                            if e[5].k == "k" else e[5]))
            elif e[0] == "write_cdef":
                i = e[3]
                got.append(("cdef", deref2(o.st, i.a[1][0])
                            if i.k == "call" and i.a[0] == "cdef_of"
                            else i))
                if show(e[4]) != "fi.cdef_bits":
                    bad = "CDEF index of %s bits" % show(e[4])
            elif e[0] == "replay":
                got.append(("replay", e[1]))
                if not same(e[2], "w"):
                    bad = "replayed into " + show(e[2])
            else:
                got.append(e)
        ctx.ob(bad is None and got == exp, key, "a superblock with units %s "
               "(ready %s, coded %s), cdef %d, restoration %d, intrabc %d is "
               "written as %s%s, AV1 reads %s" % (
                   lru[:planes], ready[:planes], prev[:planes], coded, rest,
                   ibc, pshow(got), " (%s)" % bad if bad else "", pshow(exp)),
               f.loc())
        # the filter parameters are decided before they are written
        if isready and (coded or rest):
            first = [x for x in range(planes)
                     if lru[x] != -1 and prev[x] < lru[x]]
            known = any(lru[x] != -1 and prev[x] >= lru[x]
                        for x in range(planes))
            if first and not known or all(lru[x] == -1
                                          for x in range(planes)):
                ctx.ob(any(r[0] is sym("sbo0") and r[1] == 0 and r[2] == 0
                           for r in rdo), key + ":rdo", "loop filter "
                       "parameters are written before they are decided",
                       f.loc())
    ctx.ob(len(outs) >= 1, key, "no outcome", f.loc())


def tile(ctx):
    c = ctx.lib
    f = fnamed(ctx, "encoder::encode_tile")
    ps = params(f)
    for cs in ("Cs420", "Cs400"):
        for delayed in (0, 1):
            for bu in (0, 1):
                for mwh in ((32, 32), (20, 32), (32, 20)):
                    tile_one(ctx, f, ps, cs, delayed, bu, mwh)


def tile_one(ctx, f, ps, cs, delayed, bu, mwh):
    c = ctx.lib
    vals = {("fi", "sequence*.chroma_sampling"): en(c, "ChromaSampling", cs),
            ("fi", "sequence*.enable_delayed_loopfilter_rdo"): K(delayed),
            ("fi", "delta_q_present"): sym("dqp"),
            ("fi", "config*.speed_settings.partition.encode_bottomup"): K(bu),
            ("ts", "sb_height"): K(2), ("ts", "sb_width"): K(2),
            ("ts", "mi_width"): K(mwh[0]), ("ts", "mi_height"): K(mwh[1])}

    def over(ae, st, m, a, rec):
        n = norm(rec.get("rp") or rec["p"])
        if m == "new" and "ContextWriter" in n:
            return [(st, mk("call", "cw", (), None))]
        if m == "new" and any(x in n for x in (
                "BlockContext", "WriterBase", "Writer")):
            return [(st, sym("fresh:" + n.split("::")[-2]))]
        if m == "default":
            return [(st, sym("default"))]
        if m in ("encode_partition_bottomup", "encode_partition_topdown"):
            d = dict(zip(params(fnamed(ctx, "encoder::" + m)), a))
            cw = st.deref(d["cw"])
            st.auto = st.auto + ((
                "partition", m, bo_xy(deref2(st, d["tile_bo"])),
                deref2(st, d["bsize"]),
                st.load((cw[0], cw[1] + (".bc", ".cdef_coded"))),
                st.load((cw[0], cw[1] + (".bc", ".code_deltas"))),
                deref2(st, d["w_pre_cdef"]), deref2(st, d["w_post_cdef"]),
                deref2(st, d["block_output"]) if "block_output" in d
                else None),)
            st.put((cw[0], cw[1] + (".bc", ".cdef_coded")),
                   sym("coded%d" % len(st.auto)))
            return [(st, sym("group"))]
        if m == "reset_left_contexts":
            st.auto = st.auto + (("left", a[1]),)
            return [(st, UNIT)]
        if m == "restoration_unit_index":
            return [(st, vecs.opt(agg("tuple", None, None, (".0", ".1"),
                                      (K(0), K(0)))))]
        if m == "restoration_unit_countable":
            return [(st, K(0))]
        if m == "restoration_unit_last_sb_for_rdo":
            n = sum(e[0] == "partition" for e in st.auto)
            return [(st, K(int(n == 4)))]
        if m == "clear":
            return [(st, UNIT)]
        if m == "push_back":
            e = fields(a[1])
            st.auto = st.auto + (("queue", e[".sbo"], e[".cdef_coded"],
                                  e[".w_pre_cdef"], e[".w_post_cdef"]),)
        if m == "is_empty" and "VecDeque" in n:
            return [(st, K(1))]
        if m == "check_lf_queue":
            d = dict(zip(params(fnamed(ctx, "encoder::" + m)), a))
            st.auto = st.auto + (("flush", deref(st, d["w"])),)
            return [(st, UNIT)]
        if m in ("done",):
            st.auto = st.auto + (("done",),)
            return [(st, sym("bytes"))]
        if m in ("deblock_filter_optimize", "deblock_filter_frame",
                 "scratch_copy", "as_const", "rows_iter", "rows_iter_mut"):
            return [(st, sym(m) if m != "deblock_filter_optimize" else
                     arr([K(0)] * 4))]
        return vecs.model(ae, st, m, a, rec, ("VecDeque",))
    outs = explore(ctx, f, [sym(p) for p in ps], {}, over, vals)
    key = "tile"
    planes = 1 if cs == "Cs400" else 3
    if not ctx.ob(len(outs) >= 1, key, "no outcome", f.loc()):
        return
    for o in outs:
        got = [e for e in o.st.auto]
        want = []
        for y in (0, 1):
            want.append(("left", None))
            for x in (0, 1):
                want += [("partition", (x * 16, y * 16)), ("queue", None)]
        if not delayed:
            want.append(("flush", None))
        else:
            want.append(("flush", None))
        want.append(("done", None))
        names_ = [e[0] for e in got]
        ctx.ob(names_ == [w[0] for w in want], key, "a tile of 2x2 "
               "superblocks is coded as %s" % " ".join(names_), f.loc())
        if names_ != [w[0] for w in want]:
            continue
        coded = None
        for i, (e, w) in enumerate(zip(got, want)):
            if e[0] == "left":
                ctx.ob(e[1] is K(planes), key + ":left", "the left contexts "
                       "of %s planes are reset at a superblock row of %s" % (
                           show(e[1]), cs), f.loc())
            elif e[0] == "partition":
                ctx.ob(e[2] == w[1] and e[3] is en(
                    c, "BlockSize", "BLOCK_64X64"), key + ":walk",
                    "superblock %s coded as %s %s" % (w[1], e[2],
                                                      show(e[3])), f.loc())
                ctx.ob(e[4] is K(0), key + ":cdef", "a superblock starts "
                       "with cdef_coded = %s" % show(e[4]), f.loc())
                ctx.ob(e[5] is sym("dqp"), key + ":delta", "a superblock "
                       "starts with code_deltas = %s instead of "
                       "delta_q_present" % show(e[5]), f.loc())
                ctx.ob(e[6] is not None and e[6].k == "sym" and
                       show(e[6]).startswith("fresh") and
                       show(e[7]).startswith("fresh"), key + ":recorder",
                       "a superblock does not start with empty recorders",
                       f.loc())
                coded = sym("coded%d" % (i + 1))
                coded = (e[2],)
            elif e[0] == "queue":
                xy = None
                try:
                    s = e[1].a[4][0]
                    dd = fields(s)
                    xy = (dd[".x"].a[0] * 16, dd[".y"].a[0] * 16)
                except (IndexError, KeyError, AttributeError, TypeError):
                    pass
                ctx.ob(xy == got[i - 1][2], key + ":queue", "superblock %s "
                       "is queued as %s" % (got[i - 1][2], xy), f.loc())
                ctx.ob(show(e[2]) == "coded%d" % i, key + ":flag",
                       "a superblock is queued with cdef_coded = %s instead "
                       "of what coding it left" % show(e[2]), f.loc())

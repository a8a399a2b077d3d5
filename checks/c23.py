"""C23: the reconstruction is computed from exactly what is coded."""
from sa.val import *
from sa.gate import *
from sa.prog import norm
from sa.bits import bits
from sa import ae as _ae
from sa import vecs
from checks.c18 import last, arr
from checks.c19 import fnamed
from checks.c21 import (en, params, explore, deref, deref2, bo_of, bo_xy,
                        split_once, wh, SIZES, fields, vec, UVTX, post_outs)

RULE = """encode_tx_block, the transform block loops, motion compensation and
the block coder are interpreted with prediction, transform, quantizer,
coefficient coder, dequantizer and inverse transform opaque, on every plane,
kind of block and outcome; each step's operands are compared with those of
the steps a decoder would repeat: same area, mode, coefficients, count,
transform, quantizer.  Helpers deriving those operands are interpreted and
compared with the AV1 formulas."""
ASSUME = ["assertions hold (a failing one aborts the encoder)",
          "prediction, transform and filter kernels are not interpreted"]

STEPS = ("get_intra_edges", "predict_intra", "diff", "forward_transform",
         "quantize", "write_coeffs_lv_map", "dequantize",
         "inverse_transform_add")


def run(ctx):
    txblock(ctx)
    loops(ctx)
    motion(ctx)
    post(ctx)
    qidx(ctx)
    scale(ctx)
    dequant(ctx)
    mvparams(ctx)
    inter_choice(ctx)
    neighbours(ctx)


def show_(x):
    return show(x).replace("transform::TxSize::", "").replace(
        "partition::BlockSize::", "").replace("predict::PredictionMode::", "")


# ------------------------------------------------------ one transform block
def txblock(ctx):
    c = ctx.lib
    f = fnamed(ctx, "encoder::encode_tx_block")
    ps = params(f)
    for p in (0, 1, 2):
        for mode in ("D45_PRED", "DC_PRED", "UV_CFL_PRED", "NEWMV"):
            if mode == "UV_CFL_PRED" and not p:
                continue
            for sx, sy in ((1, 1), (0, 0), (1, 0)):
                for skip in (0, 1):
                    for ief in (0, 1):
                        for bs, tx in (("BLOCK_16X16", (16, 16)),
                                       ("BLOCK_64X32", (64, 32)),
                                       ("BLOCK_8X8", (4, 4))):
                            for out in (0, 1):
                                if out and (ief or tx != (16, 16)):
                                    continue
                                if ief and tx != (16, 16):
                                    continue
                                if p and tx[0] == 64:
                                    continue
                                tx_one(ctx, f, ps, p, mode, sx, sy, skip, ief,
                                       bs, tx, out, "PixelDistRealRate")
                    if sx and sy:
                        for rdo in [v[0] for v in c.adt("RDOType")[
                                "variants"]]:
                            tx_one(ctx, f, ps, p, mode, sx, sy, skip, 0,
                                   "BLOCK_16X16", (16, 16), 0, rdo)


def leaf(v):
    """sym or read-only view of a term, without the reference."""
    s = show(v)
    return s[1:] if s.startswith("&") else s


def tx_one(ctx, f, ps, p, mode, sx, sy, skip, ief, bs, tx, out, rdo):
    c = ctx.lib
    bo = bo_of(c, K(4), K(64 if out else 4))
    m_, t_ = en(c, "PredictionMode", mode), en(c, "TxSize", "TX_%dX%d" % tx)
    T = en(c, "TxType", "ADST_DCT" if max(tx) < 32 else "DCT_DCT")
    args = []
    for n in ps:
        v = {"p": lambda: K(p), "tx_bo": lambda: bo, "mode": lambda: m_,
             "tx_size": lambda: t_, "bsize": lambda: en(c, "BlockSize", bs),
             "tx_type": lambda: T,
             "skip": lambda: K(skip), "need_recon_pixel": lambda: K(1),
             "rdo_type": lambda: en(c, "RDOType", rdo)}.get(n)
        args.append(v() if v else sym(n))
    vals = {("ts", "mi_width"): K(64), ("ts", "mi_height"): K(64),
            ("fi", "sequence*.enable_intra_edge_filter"): K(ief)}

    def over(ae, st, m, a, rec):
        if m in STEPS:
            st.auto = st.auto + ((m, tuple(a),
                                  tuple(deref2(st, x) for x in a)),)
            return [(st, {"quantize": sym("eob"), "get_intra_edges":
                          sym("edges"), "write_coeffs_lv_map":
                          sym("has")}.get(m, UNIT))]
        if m in ("subregion", "subregion_mut"):
            return [(st, mk("call", "region", (a[0], a[1]), None))]
        if m in ("as_const", "to_frame_block_offset"):
            return [(st, mk("call", m, (a[0],), None))] if m == "as_const" \
                else None
        if m == "slice_assume_init_mut":
            return [(st, a[0])]
        if m == "fill":
            st.auto = st.auto + ((m, tuple(a), ()),)
            return [(st, UNIT)]
        if m in ("above_block_info", "left_block_info"):
            return [(st, mk("call", m, tuple(a[1:]), None))]
        if m == "new" and "IntraEdgeFilterParameters" in norm(
                rec.get("rp") or rec["p"]):
            return [(st, mk("call", "ief", tuple(a), None))]
        if m == "decimated":
            return [(st, mk("call", m, tuple(deref2(st, x) for x in a),
                            None))]
        if m == "tile_rect":
            return [(st, mk("call", m, (a[0],), None))]
        if m in ("distortion_scale", "estimate_rate", "add_bits_frac", "sum"):
            return [(st, sym(m))]
        if m == "clip_visible_bsize":
            return [(st, agg("tuple", None, None, (".0", ".1"),
                             (sym("vw"), sym("vh"))))]
        return None
    pl = [(("ts", "input"), i, sx if i else 0, sy if i else 0)
          for i in range(3)]
    outs = explore(ctx, f, args, {}, over, vals, planes=pl)
    key = "tx"
    what = "plane %d, %s, %dx%d, skip %d" % (p, mode, tx[0], tx[1], skip)
    if not ctx.ob(len(outs) >= 1, key, "no outcome for " + what, f.loc()):
        return
    intra = mode != "NEWMV"
    for o in outs:
        ev = list(o.st.auto)
        n = [e[0] for e in ev]
        ctx.count("paths")
        r = o.ret.a[4][0] if o.ret.k == "agg" else None
        if out:
            ctx.ob(not n and r is K(0), key + ":outside", "a transform block "
                   "outside the tile is coded (%s)" % n, f.loc())
            continue
        fact = {show(k): v for k, v in o.st.facts.items()}
        eob0 = zero(fact.get("eob"))
        vis = not (one(fact.get("vw")) == 0 or one(fact.get("vh")) == 0)
        want = ["get_intra_edges", "predict_intra"] if intra else []
        if not skip:
            want += ["diff" if vis else "fill", "forward_transform",
                     "quantize", "write_coeffs_lv_map", "dequantize"]
            if not eob0:
                want.append("inverse_transform_add")
        n2 = [x for x in n if x != "fill" or not vis]
        if not ctx.ob(n2 == want, key + ":steps", "%s goes through %s, "
                      "a decoder through %s" % (what, n2, want), f.loc()):
            continue
        e = {x[0]: x[2] for x in ev}        # what the operands hold
        r_ = {x[0]: x[1] for x in ev}       # the operands themselves
        reg = "rec.planes[%d]" % p

        def region(v, root):
            if not (v.k == "call" and v.a[0] == "region"):
                return False
            pr, ar = v.a[1]
            d = fields(ar) if ar.k == "agg" and ar.a[3] else {}
            names = {x: y for x, y in d.items()}
            return leaf(pr) == "ts.%s.planes[%d]" % (root, p) and \
                ar.a[2] == "BlockRect" and \
                names.get(".width") is K(tx[0]) and \
                names.get(".height") is K(tx[1]) and \
                names.get(".bo") is bo.a[4][0]

        def chk(cond, k, msg):
            ctx.ob(bool(cond), key + ":" + k, "%s: %s" % (what, msg),
                   f.loc())
        bd = "fi.sequence.bit_depth"
        if intra:
            g = dict(zip(("buf", "dst", "part", "bx", "by", "bsize", "po",
                          "tx", "bd", "mode", "ief", "param"),
                         e["get_intra_edges"]))
            d = g["dst"]
            root = d.a[1][0] if d.k == "call" and d.a[0] == "as_const" else d
            chk(leaf(root) == "ts." + reg, "edges", "edges are read from %s"
                % show(root))
            chk(leaf(g["part"]) == "tile_partition_bo" and
                leaf(g["bx"]) == "bx" and leaf(g["by"]) == "by" and
                g["bsize"] is en(c, "BlockSize", bs) and
                leaf(g["po"]) == "po" and g["tx"] is t_ and
                show(g["bd"]) == bd and g["mode"] is vecs.opt(m_) and
                g["ief"] is K(ief) and leaf(g["param"]) ==
                "pred_intra_param", "edges", "edges are prepared for %s" %
                [show_(x) for x in e["get_intra_edges"][2:]])
            q = dict(zip(("mode", "rect", "dst", "tx", "bd", "ac", "param",
                          "ief", "edges", "cpu"), e["predict_intra"]))
            chk(q["mode"] is m_ and q["tx"] is t_ and show(q["bd"]) == bd and
                leaf(q["ac"]) == "ac" and leaf(q["param"]) ==
                "pred_intra_param", "intra", "predicted from %s" % [
                    show_(x)[:60] for x in e["predict_intra"]])
            chk(region(q["dst"], "rec"), "intra", "predicted into %s" %
                show(q["dst"]))
            d_ = q["rect"]
            chk(d_.k == "call" and d_.a[0] == "decimated" and
                d_.a[1][0].k == "call" and d_.a[1][0].a[0] == "tile_rect" and
                d_.a[1][1:] == (K(sx if p else 0), K(sy if p else 0)),
                "intra", "the tile's area is taken as %s" % show(d_)[:120])
            chk(q["edges"] is sym("edges"), "intra", "predicted from other "
                "edges")
            if ief and mode == "D45_PRED":
                v = q["ief"]
                v = v.a[4][0] if v.k == "agg" and v.a[2] == "Some" else v
                ok = v.k == "call" and v.a[0] == "ief"
                if ok:
                    pn, ab, le = v.a[1]
                    xy = (sym("tile_partition_bo"), K(sx if p else 0),
                          K(sy if p else 0))
                    ok = pn is K(p) and ab.k == "call" and le.k == "call" \
                        and ab.a[0] == "above_block_info" and \
                        le.a[0] == "left_block_info" and \
                        tuple(ab.a[1]) == xy and tuple(le.a[1]) == xy
                chk(ok, "filter", "the edge filter looks at %s" %
                    show(q["ief"])[:150])
            else:
                chk(q["ief"] is vecs.opt(), "filter", "an edge filter "
                    "applies: %s" % show(q["ief"])[:100])
        if skip:
            chk(r is K(0), "ret", "a skipped block reports coefficients")
            continue
        chk(r is sym("has"), "ret", "has_coeff is %s" % show(r))
        fw = r_["forward_transform"]
        if vis:
            di = e["diff"]
            chk(region(di[1], "input_tile") and region(di[2], "rec"),
                "residual", "the residual is %s minus %s" % (
                    show(di[1])[:120], show(di[2])[:120]))
            chk(same_buf(fw[0], r_["diff"][0]), "residual",
                "another buffer is transformed")
        qz, wr, dq = r_["quantize"], r_["write_coeffs_lv_map"], \
            r_["dequantize"]
        chk(same_buf(qz[1], fw[1]), "quantize", "the quantizer does "
            "not read the transform's output")
        chk(fw[3] is t_ and fw[4] is T and show(fw[5]) == bd, "transform",
            "the forward transform is %s" % [show_(x) for x in fw[2:6]])
        chk(qz[3] is t_ and qz[4] is T, "quantize", "quantized as %s" % [
            show_(x) for x in qz[3:]])
        w = dict(zip(("self", "w", "p", "bo", "co", "eob", "mode", "tx",
                      "ty", "pb", "xdec", "ydec", "red", "fw", "fh"), wr))
        pw, ph = wh(bs)
        px_, py_ = (sx, sy) if p else (0, 0)
        pb = en(c, "BlockSize", "BLOCK_%dX%d" % (
            max(pw >> px_, 4), max(ph >> py_, 4)))
        chk(leaf(w["w"]) == "w" and w["p"] is K(p) and w["bo"] is bo and
            w["eob"] is sym("eob") and w["mode"] is m_ and w["tx"] is t_ and
            w["ty"] is T and w["pb"] is pb and
            w["xdec"] is K(px_) and w["ydec"] is K(py_) and
            show(w["red"]) == "fi.use_reduced_tx_set", "coded",
            "coded as %s" % [show_(x)[:40] for x in wr[2:]])
        chk(same_buf(w["co"], qz[2]), "coded", "other coefficients are "
            "coded than were quantized")
        chk(show(dq[0]) == "qidx" and dq[2] is sym("eob") and dq[4] is t_ and
            show(dq[5]) == bd and show(dq[6]) == "fi.dc_delta_q[%d]" % p and
            show(dq[7]) == "fi.ac_delta_q[%d]" % p, "dequantize",
            "dequantized with %s" % [show_(x) for x in dq])
        chk(same_buf(dq[1], qz[2]), "dequantize", "other coefficients "
            "are dequantized than were coded")
        if not eob0:
            iv = e["inverse_transform_add"]
            chk(same_buf(r_["inverse_transform_add"][0], dq[3]), "inverse",
                "the inverse transform reads another buffer")
            chk(region(iv[1], "rec"), "inverse", "the inverse transform "
                "adds to %s" % show(iv[1])[:150])
            chk(iv[2] is sym("eob") and iv[3] is t_ and iv[4] is T and
                show(iv[5]) == bd, "inverse", "inverse transform of %s" % [
                    show_(x) for x in iv[2:6]])


def zero(fact):
    return bool(fact) and (one(fact) == 0 or
                           fact[0] == "i" and fact[2] == 0)


def one(fact):
    if fact and fact[0] == "s" and len(fact[1]) == 1:
        return next(iter(fact[1]))
    return None


def same_buf(a, b):
    def key(x):
        if x.k == "ref":
            return x.a[0], tuple(e for e in x.a[1] if not (
                type(e) is tuple and e[0] == "sl"))
        return x
    return key(a) == key(b)


# ------------------------------------------------------------ the loops
def loops(ctx):
    c = ctx.lib
    for fname, inter in (("write_tx_tree", 1), ("write_tx_blocks", 0)):
        f = fnamed(ctx, "encoder::" + fname)
        ps = params(f)
        for bs in SIZES:
            W, H = wh(bs)
            sizes = [(W, H), split_once(W, H)]
            for tx in dict.fromkeys(sizes):
                for cs, sx, sy in (("Cs420", 1, 1), ("Cs444", 0, 0),
                                   ("Cs422", 1, 0)):
                    if cs == "Cs422" and (H > W or inter and H < 8):
                        continue
                    for px, py in ((0, 0), (W // 4, H // 4)):
                        for uv in ("V_PRED", "UV_CFL_PRED"):
                            if uv != "V_PRED" and (inter or max(W, H) > 32):
                                continue
                            loop_one(ctx, f, ps, fname, inter, bs, tx, cs, sx,
                                     sy, px, py, uv)


def loop_one(ctx, f, ps, fname, inter, bs, tx, cs, sx, sy, px, py, uv):
    c = ctx.lib
    W, H = wh(bs)
    bo = bo_of(c, K(px), K(py))
    lm = en(c, "PredictionMode", "NEWMV" if inter else "D45_PRED")
    um = en(c, "PredictionMode", uv)
    bsv = en(c, "BlockSize", bs)
    args = []
    for p in ps:
        v = {"bsize": lambda: bsv,
             "tx_size": lambda: en(c, "TxSize", "TX_%dX%d" % tx),
             "tx_type": lambda: en(c, "TxType", "DCT_DCT"),
             "skip": lambda: K(0), "luma_only": lambda: K(0),
             "tile_bo": lambda: bo, "luma_mode": lambda: lm,
             "chroma_mode": lambda: um,
             "angle_delta": lambda: agg("adt", c.adt("AngleDelta")["adt"],
                                        None, (".y", ".uv"),
                                        (sym("ay"), sym("auv")))}.get(p)
        args.append(v() if v else sym(p))
    vals = {("fi", "sequence*.chroma_sampling"): en(c, "ChromaSampling", cs),
            ("ts", "mi_width"): K(64), ("ts", "mi_height"): K(64)}

    def over(ae, st, m, a, rec):
        n = norm(rec.get("rp") or rec["p"])
        if m == "encode_tx_block":
            st.auto = st.auto + ((m,) + tuple(deref2(st, x) for x in a),)
            return [(st, agg("tuple", None, None, (".0", ".1"),
                             (sym("hc%d" % len(st.auto)), sym("dist"))))]
        if m == "get_qidx":
            st.auto = st.auto + ((m,) + tuple(deref2(st, x) for x in a),)
            return [(st, sym("QIDX"))]
        if m == "luma_ac":
            st.auto = st.auto + ((m,) + tuple(deref2(st, x) for x in a),)
            return [(st, sym("AC"))]
        if m == "update" and "QuantizationContext" in n:
            st.auto = st.auto + (("update",) + tuple(a[1:]),)
            return [(st, UNIT)]
        if m == "alpha":
            return [(st, mk("call", "alpha", (deref2(st, a[0]), a[1]),
                            None))]
        if m in ("add_assign", "zero") and "Distortion" in norm(
                rec["p"]) + n:
            return [(st, UNIT if m == "add_assign" else sym("d0"))]
        return None
    pl = [(("ts", "input"), i, sx if i else 0, sy if i else 0)
          for i in range(3)]
    # block positions and sizes of the planes
    pl = [(r, i, x, y) for r, i, x, y in pl]
    outs = explore(ctx, f, args, {}, over, vals, planes=pl)
    key = "loop:" + fname
    what = "%s at (%d,%d), %s, transform %dx%d" % (bs, px, py, cs, tx[0],
                                                   tx[1])
    if not ctx.ob(1 <= len(outs), key, "%d outcomes for %s" % (
            len(outs), what), f.loc()):
        return
    qs = params(fnamed(ctx, "encoder::encode_tx_block"))
    us = ["qindex", "tx_size", "is_intra", "bit_depth", "dc", "ac"]
    for o in outs:
        upd, ac = None, None
        nluma = 0
        bx0 = {}
        for e in o.st.auto:
            if e[0] == "get_qidx":
                ctx.ob(bo in e and leaf(e[1]) == "fi", key + ":qidx",
                       "%s uses the quantizer of %s" % (
                           what, [show(x)[:40] for x in e[1:]]), f.loc())
            elif e[0] == "update":
                upd = dict(zip(us, e[1:]))
            elif e[0] == "luma_ac":
                ac = nluma
                ctx.ob(bo in e and bsv in e and en(
                    c, "TxSize", "TX_%dX%d" % tx) in e, key + ":cfl",
                    "the luma average is taken of another block: %s" % [
                        show_(x)[:40] for x in e[1:]], f.loc())
            elif e[0] == "encode_tx_block":
                d = dict(zip(qs, e[1:]))
                if d["p"].k != "k":
                    ctx.ob(False, key, "unknown plane", f.loc())
                    break
                p = d["p"].a[0]
                nluma += p == 0
                tn = d["tx_size"].a[2][3:].split("X")
                tw, th = int(tn[0]), int(tn[1])
                ok = upd is not None and upd["qindex"] is d["qidx"] and \
                    upd["tx_size"] is d["tx_size"] and \
                    show(upd["bit_depth"]) == "fi.sequence.bit_depth" and \
                    show(upd["dc"]) == "fi.dc_delta_q[%d]" % p and (
                        show(upd["ac"]) == "fi.ac_delta_q[%d]" % p or
                        (p == 0 and upd["ac"] is K(0)))
                ctx.ob(ok, key + ":quantizer", "plane %d of %s is quantized "
                       "for %s and coded with %s %s" % (
                           p, what, {k: show_(v) for k, v in (
                               upd or {}).items()}, show(d["qidx"]),
                           show_(d["tx_size"])), f.loc())
                ctx.ob(d["qidx"] is sym("QIDX"), key + ":qidx", "quantizer "
                       "index %s" % show(d["qidx"]), f.loc())
                md = lm if p == 0 or inter else um
                par = d["pred_intra_param"]
                pv = par.a[4][0] if par.k == "agg" and par.a[4] else par
                cfl = uv == "UV_CFL_PRED" and p and not inter
                if cfl:
                    okp = par.a[2] == "Alpha" and pv.k == "call" and \
                        pv.a[0] == "alpha" and show(pv.a[1][0]) == "cfl" \
                        and pv.a[1][1] is K(p - 1)
                else:
                    okp = inter or (par.a[2] == "AngleDelta" and pv is sym(
                        "ay" if not p else "auv"))
                ctx.ob(d["mode"] is md and okp, key + ":mode", "plane %d of "
                       "%s is predicted %s with %s" % (
                           p, what, show_(d["mode"]), show(par)[:80]),
                       f.loc())
                if cfl:
                    ctx.ob(d["ac"] is sym("AC") and ac == (W // tx[0]) *
                           (H // tx[1]), key + ":cfl", "chroma from luma of "
                           "%s uses %s taken after %s luma blocks" % (
                               what, show(d["ac"])[:40], ac), f.loc())
                # where the edges are read
                xy = bo_xy(d["tx_bo"])
                po = fields(d["po"]) if d["po"].k == "agg" else {}
                px4 = (xy[0] * 4 >> (sx if p else 0),
                       xy[1] * 4 >> (sy if p else 0))
                gp = tuple(plainint(po.get(k)) for k in (".x", ".y"))
                if not inter:
                    ctx.ob(gp == px4, key + ":edges", "plane %d of %s, the "
                           "transform block at %s reads its edges at %s "
                           "instead of %s" % (p, what, xy, gp, px4), f.loc())
                    b0 = bx0.setdefault(p, px4)
                    bx = plainint(d["bx"]), plainint(d["by"])
                    wb = (px4[0] - b0[0]) // tw, (px4[1] - b0[1]) // th
                    ctx.ob(bx == wb, key + ":edges", "plane %d of %s, "
                           "transform block %s is numbered %s" % (
                               p, what, wb, bx), f.loc())
                ctx.ob(d["bsize"] is bsv and d["tile_partition_bo"] is bo,
                       key + ":block", "the block passed is %s %s" % (
                           show_(d["bsize"]), show(d["tile_partition_bo"])),
                       f.loc())
                for k in ("rdo_type", "need_recon_pixel"):
                    ctx.ob(leaf(d[k]) == k, key + ":block", "%s becomes %s" %
                           (k, show(d[k])), f.loc())


def plainint(v):
    return v.a[0] if v is not None and v.k == "k" else None


# ------------------------------------------------------------ motion
def motion(ctx):
    c = ctx.lib
    f = fnamed(ctx, "encoder::motion_compensate")
    ps = params(f)
    for bs in SIZES:
        W, H = wh(bs)
        for cs, sx, sy in (("Cs420", 1, 1), ("Cs444", 0, 0),
                           ("Cs422", 1, 0), ("Cs400", 1, 1)):
            if cs != "Cs420" and cs != "Cs400" and min(W, H) < 8:
                continue
            if cs == "Cs422" and H > W:
                continue
            for only in (0, 1):
                for px, py in ((8, 8), (8 + W // 4, 8 + H // 4)):
                    mot_one(ctx, f, ps, bs, cs, sx, sy, only, px, py)


def mot_one(ctx, f, ps, bs, cs, sx, sy, only, px, py):
    c = ctx.lib
    W, H = wh(bs)
    bo = bo_of(c, K(px), K(py))
    args = []
    for p in ps:
        v = {"bsize": lambda: en(c, "BlockSize", bs),
             "luma_only": lambda: K(only), "tile_bo": lambda: bo,
             "luma_mode": lambda: en(c, "PredictionMode", "NEWMV")}.get(p)
        args.append(v() if v else sym(p))
    vals = {("fi", "sequence*.chroma_sampling"): en(c, "ChromaSampling", cs)}

    def over(ae, st, m, a, rec):
        if m == "predict_inter":
            st.auto = st.auto + ((m,) + tuple(deref2(st, x) for x in a),)
            return [(st, UNIT)]
        if m in ("subregion_mut",):
            return [(st, mk("call", "region", (a[0], a[1]), None))]
        if m in ("index", "index_mut") and "TileBlocks" in norm(
                rec.get("rp") or rec["p"]):
            xy = bo_xy(deref2(st, a[1]))
            return [(st, mk("ref", ("X", sym("B%s,%s" % (
                xy[0] - px, xy[1] - py))), (), 0))]
        if m == "is_intra":
            v = deref2(st, a[0])
            if v.k == "sym" or not (v.k == "agg"):
                return [(st, mk("call", "intra", (v,), None))]
        if m == "plane_offset":
            cf = a[1]
            return [(st, mk("call", "po", (deref2(st, a[0]), cf), None))] \
                if 0 else None
        return None
    pl = [(("ts", "input"), i, sx if i else 0, sy if i else 0)
          for i in range(3)]
    outs = explore(ctx, f, args, {}, over, vals, planes=pl, recs=[
        (i, sx if i else 0, sy if i else 0) for i in range(3)])
    key = "motion"
    what = "%s at (%d,%d), %s" % (bs, px, py, cs)
    if not ctx.ob(len(outs) >= 1, key, "no outcome for " + what, f.loc()):
        return
    qs = ["self", "fi", "rect", "p", "po", "dst", "w", "h", "refs", "mvs",
          "buf"]
    chroma = not only and cs != "Cs400" and (px & 1 or W > 4 or not sx) and \
        (py & 1 or H > 4 or not sy)
    for o in outs:
        fact = {show(k): v for k, v in o.st.facts.items()}
        known = {}
        for k, v in fact.items():
            b = k.split("(")[-1].split(".")[0]
            if k.startswith("intra(B"):
                known[b] = one(v)
            elif k.startswith("discr(B") and k.endswith("mode)"):
                s = v[1] if v[0] == "s" else ()
                known[b] = bool(s) and max(s) < 14
        w4, h4 = sx and W == 4, sy and H == 4
        asked = ["B%d,%d" % (dx, dy) for dy in ((-1, 0) if h4 else (0,))
                 for dx in ((-1, 0) if w4 else (0,)) if dx or dy]
        intra = any(known.get(b) == 1 for b in asked)
        if chroma and not intra:
            ctx.ob(all(known.get(b) == 0 for b in asked), key + ":asked",
                   "%s: chroma is predicted without knowing whether %s are "
                   "intra" % (what, [b for b in asked if b not in known]),
                   f.loc())
        want = []
        for p in range(3 if chroma else 1):
            x, y = (px * 4 >> (sx if p else 0)), (py * 4 >> (sy if p else 0))
            if p and sx and W == 4:
                x = (px - 1) * 4 >> sx
            if p and sy and H == 4:
                y = (py - 1) * 4 >> sy
            if not p:
                want.append((0, x, y, W, H, "ref_frames", "mvs"))
                continue
            w4, h4 = sx and W == 4, sy and H == 4
            if not (w4 or h4) or intra:
                want.append((p, x, y, max(W >> sx, 4) if w4 else W >> sx,
                             max(H >> sy, 4) if h4 else H >> sy,
                             "ref_frames", "mvs"))
                continue
            for dy in ((-1, 0) if h4 else (0,)):
                for dx in ((-1, 0) if w4 else (0,)):
                    b = "B%d,%d" % (dx, dy)
                    own = dx == 0 and dy == 0
                    want.append((
                        p, x + (2 if w4 and dx == 0 else 0),
                        y + (2 if h4 and dy == 0 else 0), W >> sx, H >> sy,
                        "ref_frames" if own else b + ".ref_frames",
                        "mvs" if own else b + ".mv"))
        got = []
        for e in o.st.auto:
            d = dict(zip(qs, e[1:]))
            po = fields(d["po"]) if d["po"].k == "agg" else {}
            xy = plainint(po.get(".x")), plainint(po.get(".y"))
            got.append((plainint(d["p"]),) + xy + (
                plainint(d["w"]), plainint(d["h"]), leaf(d["refs"]),
                leaf(d["mvs"])))
            ok = d["dst"].k == "call" and d["dst"].a[0] == "region"
            if ok:
                pr, ar = d["dst"].a[1]
                ok = leaf(pr) == "ts.rec.planes[%s]" % got[-1][0]
                af = fields(ar)
                if ar.a[2] == "StartingAt":
                    ok = ok and (plainint(af[".x"]), plainint(
                        af[".y"])) == xy
                elif ar.a[2] == "BlockStartingAt":
                    i = fields(af[".bo"])
                    p = got[-1][0]
                    ok = ok and ((plainint(i[".x"]) >> (sx if p else 0)) * 4,
                                 (plainint(i[".y"]) >> (sy if p else 0)) * 4
                                 ) == xy
                else:
                    ok = False
            ctx.ob(ok, key + ":dst", "%s: the prediction for %s is stored in "
                   "%s" % (what, got[-1], show(d["dst"])[:160]), f.loc())
        ctx.ob(got == want, key, "%s (neighbour intra: %s) is predicted as "
               "%s, AV1 predicts %s" % (what, intra, got, want), f.loc())


# ------------------------------------------------------------ the whole block
def post(ctx):
    """encode_block_post_cdef hands prediction and residual what it coded."""
    c = ctx.lib
    f = fnamed(ctx, "encoder::encode_block_post_cdef")
    ps = params(f)
    mc = params(fnamed(ctx, "encoder::motion_compensate"))
    tt = params(fnamed(ctx, "encoder::write_tx_tree"))
    tb = params(fnamed(ctx, "encoder::write_tx_blocks"))
    for inter in (0, 1):
        for frame in ("INTER", "KEY"):
            if inter and frame == "KEY":
                continue
            for skip in (0, 1):
                for bs in ("BLOCK_8X8", "BLOCK_64X64", "BLOCK_4X16",
                           "BLOCK_16X8"):
                    for edge in (0, 1, 2):
                        for n in (0, 2) if inter else (0,):
                            m = "NEWMV" if inter else "D45_PRED"
                            d = dict(frame=frame, mode=m,
                                     uv=m if inter else "V_PRED", bs=bs,
                                     skip=skip, cs="Cs420", chroma=1, sct=0,
                                     fint=0, txsel=1, split=0, n=n,
                                     wts=(700, 600)[:n], code=0, dbl=0,
                                     intmv=0, hp=0, tx="TX_4X4", edge=edge)
                            post_one(ctx, f, ps, d, mc, tt, tb)


def post_one(ctx, f, ps, d, mc, tt, tb):
    c = ctx.lib
    px, py = 4, 4
    W, H = wh(d["bs"])
    if d["edge"]:
        # where the block straddles the tile's corner, the loop that records
        # it must stop at the edge
        mw, mh = px + max(W // 8, 1), py + max(H // 8, 1)
        if d["edge"] == 2:
            mw = mh = 99
    stores = {}

    def more(ae, st, m, a, rec):
        if m in ("index", "index_mut") and "MiTileState" in norm(
                rec.get("rp") or rec["p"]):
            i = plainint(deref2(st, a[1]))
            return [(st, mk("ref", ("X", sym("row%s" % i)), (), 0))]
        return None
    d = dict(d)
    d["pos"] = bo_of(c, K(px), K(py))
    if d["edge"]:
        d["mi"] = (mw, mh)
        d["edge"] = 1
    outs = post_outs(ctx, f, ps, d, more)
    key = "block"
    what = "%s %s block of a %s frame, skip %d, %d vectors" % (
        d["mode"], d["bs"], d["frame"], d["skip"], d["n"])
    inter = d["mode"] == "NEWMV"
    if not ctx.ob(len(outs) >= 1, key, "no outcome for " + what, f.loc()):
        return
    mode = en(c, "PredictionMode", d["mode"])
    uv = en(c, "PredictionMode", d["uv"])
    bs = en(c, "BlockSize", d["bs"])
    refs = arr([sym("ref0"), sym("ref1")])
    mvs = arr([sym("mv0"), sym("mv1")])
    bo = d["pos"]
    common = dict(fi=sym("fi"), ts=sym("ts"), cw=sym("cw"), w=sym("w"),
                  luma_mode=mode, chroma_mode=uv, tile_bo=bo, bsize=bs,
                  tx_size=en(c, "TxSize", d["tx"]), tx_type=sym("tx_type"),
                  skip=K(d["skip"]), luma_only=K(0), cfl=sym("cfl"),
                  ref_frames=refs, mvs=mvs, rdo_type=sym("rdo_type"),
                  need_recon_pixel=sym("need_recon_pixel"),
                  angle_delta_y=sym("ay"), angle_delta=agg(
                      "adt", c.adt("AngleDelta")["adt"], None,
                      (".y", ".uv"), (sym("ay"), sym("auv"))))
    for o in outs:
        ev = [e for e in o.st.auto if e[0] in (
            "predict", "write_tx_tree", "write_tx_blocks")]
        want = ["predict", "write_tx_tree"] if inter else ["write_tx_blocks"]
        if not ctx.ob([e[0] for e in ev] == want, key, "a %s is reconstructed "
                      "by %s, not %s" % (what, [e[0] for e in ev], want),
                      f.loc()):
            continue
        for e in ev:
            names = {"predict": mc, "write_tx_tree": tt,
                     "write_tx_blocks": tb}[e[0]]
            for n, v in zip(names, e[1:]):
                v = deref2(o.st, v) if v.k == "ref" and n not in (
                    "fi", "ts", "cw", "w") else v
                if n not in common:
                    continue
                ok = v is common[n] or leaf(v) == leaf(common[n])
                ctx.ob(ok, key + ":" + n, "the %s of a %s is computed with "
                       "%s %s, but %s is coded" % (
                           "prediction" if e[0] == "predict" else "residual",
                           what, n, show(v)[:80], show(common[n])[:80]),
                       f.loc())
        # what later intra edges are told about this block
        if not d["edge"]:
            continue
        for y in range(py, py + H // 4 + 1):
            for x in range(px, px + W // 4 + 1):
                base = ("X", sym("row%d" % y))
                el = (("i", K(x)),)
                got = [o.st.load((base, el + (n,))) for n in (
                    ".luma_mode", ".chroma_mode", ".reference_types")]
                inside = px + W // 4 > x < mw and py + H // 4 > y < mh
                done = [g is w for g, w in zip(got, (mode, uv, refs))]
                ctx.ob(all(done) if inside else not any(done),
                       key + ":info", "a %s at (%d,%d) of a %dx%d tile leaves "
                       "%s recorded for intra edges at (%d,%d)" % (
                           what, px, py, mw, mh, [show(g)[:60] for g in got],
                           x, y), f.loc())


# ------------------------------------------------------------- small helpers
def run_fn(ctx, path, args=None, over=None, vals=None, **k):
    f = fnamed(ctx, path)
    ps = params(f)
    a = [(args or {}).get(p, sym(p)) for p in ps]
    return f, explore(ctx, f, a, {}, over or (lambda *x: None), vals, **k)


def qidx(ctx):
    from sa.cterm import compile_
    from sa.tev import atoms
    c = ctx.lib
    f = fnamed(ctx, "encoder::get_qidx")
    ps = params(f)
    B = sym("B")

    def over(ae, st, m, a, rec):
        if m in ("index", "index_mut") and "TileBlocks" in norm(
                rec.get("rp") or rec["p"]):
            st.auto = st.auto + (("block", deref2(st, a[1])),)
            return [(st, mk("ref", ("X", B), (), 0))]
        return None
    outs = explore(ctx, f, [sym(p) for p in ps], {}, over)
    ctx.ob(len(outs) >= 2, "qidx", "the segment's quantizer is never "
           "consulted", f.loc())
    data = None
    for o in outs:
        ctx.ob(all(e[1] is sym("tile_bo") for e in o.st.auto), "qidx",
               "the segment is read of another block", f.loc())
        fs = {show(k): v for k, v in o.st.facts.items()}
        on = [one(v) for k, v in fs.items()
              if k == "ts.segmentation.features[B.segmentation_idx][0]"]
        base, d = sym("fi.base_q_idx"), None
        ats = {show(t): t for t in atoms(o.ret)}
        want = {"fi.base_q_idx"} | (
            {"ts.segmentation.data[B.segmentation_idx][0]"}
            if on == [1] else set())
        if not ctx.ob(set(ats) == want and on in ([0], [1]), "qidx",
                      "the quantizer index is %s when the segment's quantizer "
                      "feature is %s" % (show(o.ret)[:160], on), f.loc()):
            continue
        names = sorted(want)
        g = compile_(o.ret, [ats[n] for n in names])
        bad = None
        for q in range(256):
            for dl in range(-255, 256) if on == [1] else (0,):
                r = g(q, dl) if on == [1] else g(q)
                if r != min(max(q + dl, 0), 255):
                    bad = (q, dl, r)
                    break
        ctx.ob(bad is None, "qidx", "base index %s with segment delta %s "
               "gives %s" % (bad or ("", "", "")), f.loc())


def scale(ctx):
    c = ctx.lib
    for tx in [v[0] for v in c.adt("TxSize")["variants"]]:
        w, h = (int(x) for x in tx[3:].split("X"))
        f, outs = run_fn(ctx, "quantize::get_log_tx_scale",
                         {"tx_size": en(c, "TxSize", tx)})
        want = (w * h > 256) + (w * h > 1024)
        ctx.ob([plainint(o.ret) for o in outs] == [want], "scale",
               "coefficients of %s are scaled by %s bits, AV1 by %d" % (
                   tx, [show(o.ret) for o in outs], want), f.loc())


def dequant(ctx):
    from sa.cterm import compile_
    c = ctx.lib
    want_q = {"dc_q": ("qindex", "dc_delta_q", "bit_depth"),
              "ac_q": ("qindex", "ac_delta_q", "bit_depth")}
    for s in (0, 1, 2):
        cs = [sym("c%d" % i) for i in range(3)]

        def over(ae, st, m, a, rec):
            if m in want_q:
                st.auto = st.auto + ((m,) + tuple(a),)
                return [(st, sym(m))]
            if m == "get":
                return [(st, deref2(st, a[0]))]
            if m == "get_log_tx_scale":
                st.auto = st.auto + ((m,) + tuple(a),)
                return [(st, K(s))]
            if m in ("cast_from", "as_"):
                return [(st, a[0])]
            if m == "write":
                t = st.deref(a[0])
                st.put(t, a[1])
                return [(st, a[0])]
            return None
        f, outs = run_fn(ctx, "quantize::rust::dequantize", over=over, vals={
            ("coeffs", ""): arr(cs), ("rcoeffs", ""): arr(
                [sym("r%d" % i) for i in range(3)])})
        if not ctx.ob(len(outs) >= 1, "dequant", "%d outcomes" % len(outs),
                      f.loc()):
            continue
        for e in outs[0].st.auto:
            exp = want_q.get(e[0], ("tx_size",))
            ctx.ob(tuple(show(x) for x in e[1:]) == exp, "dequant:" + e[0],
                   "%s is asked for %s" % (e[0], [show(x) for x in e[1:]]),
                   f.loc())
        for i in range(3):
            q = sym("ac_q" if i else "dc_q")
            bad = None
            try:
                g = pieces([(o, o.st.load((("X", sym("rcoeffs")), (
                    ("i", K(i)),)))) for o in outs], [cs[i], q])
                for cv in list(range(-40, 41)) + [-4095, 4095, -1023, 1022]:
                    for qv in (4, 5, 8, 9, 127, 1336, 1828):
                        w = abs(cv) * qv >> s
                        r = g(cv, qv)
                        if r != (-w if cv < 0 else w):
                            bad = (cv, qv, r, w)
                            break
            except (KeyError, TypeError, NotImplementedError, SyntaxError,
                    ValueError) as x:
                bad = "not a function of the coefficient and its quantizer: "\
                    + str(x)[:120]
            ctx.ob(bad is None, "dequant", "coefficient %d at scale %d: %s" % (
                i, s, bad if isinstance(bad, str) else
                "%d times %d gives %s, AV1 %d" % bad if bad else ""), f.loc())


def pieces(cases, atoms):
    """A function given by cases (outcome, value term): the value of the
    cases whose conditions on the atoms hold; conditions on anything else do
    not select.  More than one value: inconsistent."""
    from sa.cterm import compile_
    from sa.tev import atoms as leaves
    fs = []
    for o, v in cases:
        conds = []
        for t, fact in o.st.facts.items():
            if all(x in atoms for x in leaves(t)) and leaves(t):
                conds.append((compile_(t, atoms), fact))
        fs.append((conds, compile_(v, atoms)))

    def holds(fact, x):
        if fact[0] == "s":
            return int(x) in {int(y) for y in fact[1]}
        lo, hi, no = fact[1], fact[2], fact[3]
        return (lo is None or x >= lo) and (hi is None or x <= hi) and \
            x not in no

    def g(*xs):
        r = {h(*xs) for conds, h in fs
             if all(holds(fc, cf(*xs)) for cf, fc in conds)}
        return r.pop() if len(r) == 1 else None if not r else tuple(r)
    return g


def mvparams(ctx):
    from sa.cterm import compile_
    c = ctx.lib
    px = [sym("mv.row"), sym("mv.col"), sym("po.x"), sym("po.y")]
    for sx, sy in ((0, 0), (1, 0), (1, 1)):
        f, outs = run_fn(ctx, "predict::PredictionMode::get_mv_params", vals={
            ("rec_plane", "cfg.xdec"): K(sx), ("rec_plane", "cfg.ydec"): K(sy)
        })
        if not ctx.ob(len(outs) >= 1, "vectors", "no outcome", f.loc()):
            continue
        for o in outs:
            g = fields(o.ret)
            row, col, sl = g[".0"], g[".1"], g[".2"]
            ox = oy = 0
            pos = clamp = None
            ats = {}
            while sl.k == "call":
                m = sl.a[0].split("::")[-1]
                if m == "subslice":
                    ox += plainint(sl.a[1][1])
                    oy += plainint(sl.a[1][2])
                    sl = sl.a[1][0]
                elif m == "clamp":
                    clamp = True
                    sl = sl.a[1][0]
                elif m == "slice":
                    pos = fields(sl.a[1][1])
                    ctx.ob(leaf(sl.a[1][0]) == "rec_plane", "vectors",
                           "the reference is %s" % show(sl.a[1][0])[:80],
                           f.loc())
                    sl = sl.a[1][1]
                else:
                    break
            if not ctx.ob(pos is not None, "vectors", "the reference block is "
                          "%s" % show(g[".2"])[:160], f.loc()):
                continue
            at = {}
            from sa.tev import atoms
            for t in (row, col, pos[".x"], pos[".y"]):
                for x in atoms(t):
                    at[show(x)] = x
            if not ctx.ob(set(at) <= {"mv.row", "mv.col", "po.x", "po.y"},
                          "vectors", "the reference position depends on %s" %
                          sorted(at), f.loc()):
                continue
            names = sorted(at)
            gs = [compile_(t, [at[n] for n in names]) for t in (
                row, col, pos[".x"], pos[".y"])]
            bad = None
            for v in range(-600, 601):
                for w in (v, -v, 3, -16384, 16383):
                    for bx, by in ((0, 0), (40, 24)):
                        e = {"mv.row": v, "mv.col": w, "po.x": bx, "po.y": by}
                        r = [h(*(e[n] for n in names)) for h in gs]
                        k = [(v << (1 - sy)) & 15, (w << (1 - sx)) & 15,
                             bx + (w >> (3 + sx)), by + (v >> (3 + sy))]
                        r[2] += ox
                        r[3] += oy
                        if r != k:
                            bad = (v, w, bx, by, r, k)
            ctx.ob(bad is None, "vectors", "vector (%s,%s) of a block at "
                   "(%s,%s): row and column fraction, x, y are %s, AV1's are "
                   "%s" % (bad or ("",) * 6), f.loc())


def inter_choice(ctx):
    c = ctx.lib
    R = arr([sym("ref0"), sym("ref1")])
    M = arr([sym("mv0"), sym("mv1")])
    single = fnamed(ctx, "predict::PredictionMode::predict_inter_single")
    comp = fnamed(ctx, "predict::PredictionMode::predict_inter_compound")
    mvp = ("get_mv_params",)
    kern = ("put_8tap", "prep_8tap", "mc_avg")

    def over(ae, st, m, a, rec):
        if m in mvp:
            k = sum(e[0] in mvp for e in st.auto)
            st.auto = st.auto + ((m,) + tuple(deref2(st, x)
                                              for x in a),)
            return [(st, agg("tuple", "tuple", None, (".0", ".1", ".2"), tuple(
                sym("%s%d" % (n, k)) for n in ("row", "col", "src"))))]
        if m in kern:
            st.auto = st.auto + ((m,) + tuple(a),)
            return [(st, UNIT)]
        if m == "is_intra":
            return [(st, K(0))]
        return None
    vn = [v[0] for v in c.adt("RefType")["variants"]]
    for r1 in vn:
        f, outs = run_fn(ctx, "predict::PredictionMode::predict_inter", {
            "ref_frames": arr([en(c, "RefType", "LAST_FRAME"),
                               en(c, "RefType", r1)]), "mvs": M}, over)
        two = r1 not in ("INTRA_FRAME", "NONE_FRAME")
        n = 0
        for o in outs:
            miss = sum(one(v) == 0 for k, v in o.st.facts.items()
                       if show(k).startswith("discr(fi.rec_buffer"))
            if miss:
                continue
            n += 1
            ctx.ob([e[0] for e in o.st.auto] == (
                ["get_mv_params", "prep_8tap"] * 2 + ["mc_avg"] if two else
                ["get_mv_params", "put_8tap"]), "inter:kind",
                "with references LAST and %s the prediction runs %s" % (
                    r1, [e[0] for e in o.st.auto]), f.loc())
            used = []
            bufs = {}
            ev = o.st.auto
            for i, e in enumerate(ev):
                if e[0] == "get_mv_params":
                    pl = show(e[1])
                    used.append(pl)
                    k = len(used) - 1
                    r = ["LAST_FRAME", r1][k] if k < 2 else "?"
                    ix = vn.index(r) - 1
                    ctx.ob(pl == "fi.rec_buffer.frames[fi.ref_frames[%d]]"
                           "@Some.0.frame.planes[p]" % ix, "inter:reference",
                           "the %s reference is read from %s" % (r, pl),
                           f.loc())
                    po = fields(e[2]) if e[2].k == "agg" else {}
                    ctx.ob({n_: lin2(v) for n_, v in po.items()} == {
                        ".x": ("po.x", "tile_rect.x"),
                        ".y": ("po.y", "tile_rect.y")}, "inter:position",
                        "the block's place in the reference is %s" %
                        show(e[2])[:160], f.loc())
                    ctx.ob(show(e[3]) == "mv%d" % k, "inter:vector",
                           "reference %d is read with vector %s" % (
                               k, show(e[3])), f.loc())
                elif e[0] in ("put_8tap", "prep_8tap"):
                    k = len(used) - 1
                    s = [leaf(x) for x in e[1:]]
                    ctx.ob(s[1:8] == ["src%d" % k, "width", "height",
                                      "col%d" % k, "row%d" % k,
                                      "fi.default_filter",
                                      "fi.default_filter"] and
                           s[8] == "fi.sequence.bit_depth".replace(
                               "sequence", "sequence") or
                           s[8].replace("*", "") == "fi.sequence.bit_depth" and
                           s[1:8] == ["src%d" % k, "width", "height",
                                      "col%d" % k, "row%d" % k,
                                      "fi.default_filter",
                                      "fi.default_filter"],
                           "inter:filter", "%s is run with %s" % (e[0], s[1:]),
                           f.loc())
                    bufs[k] = s[0]
                    if e[0] == "put_8tap":
                        ctx.ob(s[0] == "dst", "inter:dst", "the prediction is "
                               "stored in " + s[0], f.loc())
                else:
                    s = [leaf(x) for x in e[1:]]
                    ctx.ob(s[0] == "dst" and bufs.get(0) != bufs.get(1) and
                           sorted(s[1:3]) == sorted(bufs.values()) and
                           s[3:5] == ["width", "height"], "inter:average",
                           "the two predictions %s are combined by %s" % (
                               bufs, s), f.loc())
        ctx.ob(n >= 1, "inter", "no prediction when the references exist",
               f.loc())
    for g in (single, comp):
        ctx.saw(g)


def lin2(v):
    """the leaves of a sum, ignoring casts"""
    if v.k == "cast":
        return lin2(v.a[1])
    if v.k == "op" and v.a[0] == "Add":
        a = v.a[1:] if not isinstance(v.a[1], tuple) else v.a[1]
        return tuple(sorted(sum((lin2(x) for x in a), ())))
    return (show(v),)


def neighbours(ctx):
    c = ctx.lib
    for name, dx, dy in (("above_block_info", 0, -1),
                         ("left_block_info", -1, 0)):
        for sx, sy in ((0, 0), (1, 0), (1, 1)):
            for x in (0, 1, 2, 3, 6):
                for y in (0, 1, 2, 3, 6):
                    # the last cell of a chroma block whose first is outside
                    # cannot be asked about
                    def over(ae, st, m, a, rec):
                        if m in ("index", "index_mut") and "MiTileState" in \
                                norm(rec.get("rp") or rec["p"]):
                            i = plainint(deref2(st, a[1]))
                            return [(st, mk("ref", ("X", sym("row%s" % i)),
                                            (), 0))]
                        return None
                    f, outs = run_fn(
                        ctx, "tiling::tile_state::TileStateMut::" + name,
                        {"bo": bo_of(c, K(x), K(y)), "xdec": K(sx),
                         "ydec": K(sy)}, over)
                    # 7.11.2.3 get_filter_type
                    if name[0] == "a":
                        r, k = y - 1, x
                        if sx and not x & 1:
                            k += 1
                        if sy and y & 1:
                            r -= 1
                    else:
                        r, k = y, x - 1
                        if sx and x & 1:
                            k -= 1
                        if sy and not y & 1:
                            r += 1
                    want = "row%d[%d]" % (r, k) if r >= 0 and k >= 0 else None
                    got = [show(fields(o.ret)[".0"]) if o.ret.k == "agg" and
                           o.ret.a[2] == "Some" else None for o in outs]
                    ctx.ob(got == [want], "edge:" + name, "for a block at "
                           "(%d,%d), subsampling %d%d, the neighbour is %s, "
                           "AV1's is %s" % (x, y, sx, sy, got, want), f.loc())
    pm = [v[0] for v in c.adt("PredictionMode")["variants"]]
    for p in (0, 1, 2):
        f, outs = run_fn(ctx, "predict::IntraEdgeFilterParameters::new",
                         {"plane": K(p)})
        ctx.ob(len(outs) >= 4, "edge:params", "neighbours ignored", f.loc())
        for o in outs:
            fs = {show(k): one(v) for k, v in o.st.facts.items()}
            g = fields(o.ret)
            for side in ("above", "left"):
                have = fs.get("discr(%s_ctx)" % side)
                for n, w in ((".%s_mode", "chroma_mode" if p else
                              "luma_mode"),
                             (".%s_ref_frame_types", "reference_types")):
                    v = g[n % side]
                    s = show(v)
                    leafn = "%s_ctx@Some.0.%s" % (side, w)
                    ok = s.endswith("None") if have == 0 else s in (
                        "From::from(%s)" % leafn,
                        "option::Option::Some{.0:%s}" % leafn)
                    ctx.ob(ok, "edge:params", "plane %d: %s is %s" % (
                        p, n % side, s[:120]), f.loc())
            ctx.ob(g[".plane"] is K(p), "edge:params", "plane %d recorded as "
                   "%s" % (p, show(g[".plane"])), f.loc())
    # which neighbours call for the smoother filter
    smooth = ("SMOOTH_PRED", "SMOOTH_V_PRED", "SMOOTH_H_PRED")
    a = c.adt("IntraEdgeFilterParameters")
    some = lambda v: agg("adt", "std::option::Option", "Some", (".0",), (v,))
    none = agg("adt", "std::option::Option", "None", (), ())
    intra = pm[:pm.index("UV_CFL_PRED") + 1]
    pairs = [(a_, b_) for a_ in [None, "NEWMV"] + intra
             for b_ in (None, "V_PRED", "SMOOTH_PRED")]
    pairs += [(b_, a_) for a_, b_ in pairs]
    pairs += [(a_, b_) for a_ in smooth for b_ in smooth]
    for p in (0, 1, 2):
        if True:
            for am, lm in dict.fromkeys(pairs):
                for ar in ("INTRA_FRAME", "LAST_FRAME"):
                    lr = "LAST_FRAME" if ar == "INTRA_FRAME" else \
                        "INTRA_FRAME"
                    vs = {"plane": K(p)}
                    for s, m, r in (("above", am, ar), ("left", lm, lr)):
                        vs[s + "_mode"] = some(en(
                            c, "PredictionMode", m)) if m else none
                        vs[s + "_ref_frame_types"] = some(arr([
                            en(c, "RefType", r), sym("r2")])) if m else none
                    flds = [x[0] for x in a["variants"][0][2]]
                    if not ctx.ob(set(flds) == set(vs), "edge:smooth",
                                  "fields are %s" % flds):
                        return
                    me = agg("adt", a["adt"], None,
                             tuple("." + x for x in flds),
                             tuple(vs[x] for x in flds))
                    f, outs = run_fn(ctx, "predict::IntraEdgeFilterParameters"
                                     "::use_smooth_filter", {"self": me})
                    want = any(m in smooth and (p == 0 or r == "INTRA_FRAME")
                               for m, r in ((am, ar), (lm, lr)))
                    ctx.ob([o.ret is K(int(want)) or o.ret is K(want)
                            for o in outs] == [True], "edge:smooth",
                           "plane %d, above %s %s, left %s %s: smooth %s, "
                           "AV1 %s" % (p, am, ar, lm, lr,
                                       [show(o.ret) for o in outs], want),
                           f.loc())

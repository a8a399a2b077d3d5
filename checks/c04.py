"""C04: frame header syntax."""
from sa.val import *
from sa.gram import *
from sa import query

RULE = """Lock-step abstract interpretation of the frame header writer against
the AV1 uncompressed_header() grammar (5.9), in cells over frame type, reduced
header, sampling and tile layout: every field must appear with the width,
position, presence condition and value the grammar gives it."""
ASSUME = ["tools the sequence header switches off (C03) are off",
          "the bit writer stores the low bits of a value most significant "
          "first (bitstream_io)"]

I = lambda a, b: ("i", a, b, frozenset())
FT = {"KEY": 0, "INTER": 1, "INTRA_ONLY": 2, "SWITCH": 3}
SEG_BITS = (8, 6, 6, 6, 6, 3, 0, 0)
SEG_SIGNED = (1, 1, 1, 1, 1, 0, 0, 0)
LR_NONE = 0


def width_bits(v):
    """number of bits of max_frame_{width,height} - 1"""
    return op("Add", op("Sub", K(31), op("min", mk("cast", "u8", mk(
        "call", "u32::leading_zeros", (mk("cast", "u32", op(
            "Add", v, K(-1))),), None)), K(31))), K(1))


def refs(T, fi, size, i):
    """frame_size_with_refs()"""
    if i == 7:
        return size
    r = proj(fi("rec_buffer.frames"), ("i", idx(fi("ref_frames"), i)))
    rec = lambda n: proj(proj(proj(proj(r, "@Some"), ".0"), "*"), "." + n)
    same = And(T.is_(r, "Option", "Some"),
               op("Eq", rec("width"), fi("width")),
               op("Eq", rec("height"), fi("height")),
               op("Eq", rec("render_width"), fi("render_width")),
               op("Eq", rec("render_height"), fi("render_height")))
    return [If(same, [F("found_ref", 1, 1)],
               [F("found_ref", 1, 0)] + refs(T, fi, size, i + 1))]


def grammar(c, ft, reduced, mono, tile, film):
    T = Types(c)
    fi = lambda p: fld("fi", p)
    s = lambda p: fld("fi", "sequence*." + p)
    fs = lambda p: fld("fs", p)
    intra = ft in ("KEY", "INTRA_ONLY")
    er = fi("error_resilient")
    ohb = op("Add", s("order_hint_bits_minus_1"), K(1))

    def hint(v):
        return op("BitAnd", v, op("Sub", op("Shl", K(1), ohb), K(1)))
    ovr = fi("frame_size_override_flag")
    size = [
            If(ovr, [
                F("frame_width_minus_1", width_bits(fi("width")),
                  op("Add", fi("width"), K(-1))),
                F("frame_height_minus_1", width_bits(fi("height")),
                  op("Add", fi("height"), K(-1)))]),
            F("render_and_frame_size_different", 1,
              fi("render_and_frame_size_different")),
            If(fi("render_and_frame_size_different"), [
                F("render_width_minus_1", 16,
                  op("Add", fi("render_width"), K(-1))),
                F("render_height_minus_1", 16,
                  op("Add", fi("render_height"), K(-1)))])]
    sct = fi("allow_screen_content_tools")
    g = []
    if not reduced:
        existing = T.is_(fi("coded_frame_data"), "Option", "None")
        g.append(F("show_existing_frame", 1, existing))
        head = [F("frame_type", 2, FT[ft]),
                F("show_frame", 1, fi("show_frame")),
                If(fi("show_frame"), [],
                   [F("showable_frame", 1, fi("showable_frame"))])]
        if ft == "KEY":
            head.append(If(fi("show_frame"), [],
                           [F("error_resilient_mode", 1, er)]))
        elif ft != "SWITCH":
            head.append(F("error_resilient_mode", 1, er))
    else:
        existing = None
        head = []
    head += [
        F("disable_cdf_update", 1, fi("disable_cdf_update")),
        If(op("Eq", s("force_screen_content_tools"), K(2)),
           [F("allow_screen_content_tools", 1, op("Ne", sct, K(0)))]),
        If(op("Gt", sct, K(0)), [
            If(op("Eq", s("force_integer_mv"), K(2)),
               [F("force_integer_mv", 1, op("Ne", fi("force_integer_mv"),
                                            K(0)))])]),
    ]
    if ft != "SWITCH" and not reduced:
        head.append(F("frame_size_override_flag", 1, ovr))
    head.append(If(s("enable_order_hint"), [
        F("order_hint", ohb, hint(fi("order_hint")))]))
    if not intra:
        head.append(If(er, [], [F("primary_ref_frame", 3,
                                  fi("primary_ref_frame"))]))
    if ft in ("INTER", "INTRA_ONLY"):
        head.append(F("refresh_frame_flags", 8, fi("refresh_frame_flags")))
    if ft != "KEY":
        hints = []
        for i in range(8):
            r = idx(fi("rec_buffer.frames"), i)
            oh = proj(proj(proj(proj(r, "@Some"), ".0"), "*"),
                      ".order_hint")
            hints.append(If(T.is_(r, "Option", "Some"),
                            [F("ref_order_hint[%d]" % i, ohb, hint(oh))],
                            [F("ref_order_hint[%d]" % i, ohb, 0)]))
        head.append(If(And(er, s("enable_order_hint")), hints))
    if intra:
        head.append(size)
        head.append(If(op("Ne", sct, K(0)), [F("allow_intrabc", 1, 0)]))
    else:
        head.append(If(s("enable_order_hint"),
                       [F("frame_refs_short_signaling", 1, 0)]))
        for i in range(7):
            head.append(F("ref_frame_idx[%d]" % i, 3,
                          idx(fi("ref_frames"), i)))
        head.append(If(And(Not(er), ovr), refs(T, fi, size, 0), size))
        head.append(If(op("Eq", fi("force_integer_mv"), K(0)),
                       [F("allow_high_precision_mv", 1,
                          fi("allow_high_precision_mv"))]))
        head.append(F("is_filter_switchable", 1, fi("is_filter_switchable")))
        head.append(If(fi("is_filter_switchable"), [],
                       [F("interpolation_filter", 2,
                          T.discr(fi("default_filter"), "FilterMode"))]))
        head.append(F("is_motion_mode_switchable", 1,
                      fi("is_motion_mode_switchable")))
        head.append(If(And(Not(er), s("enable_ref_frame_mvs")),
                       [F("use_ref_frame_mvs", 1, fi("use_ref_frame_mvs"))]))
    if not reduced:
        head.append(If(fi("disable_cdf_update"), [],
                       [F("disable_frame_end_update_cdf", 1,
                          fi("disable_frame_end_update_cdf"))]))
    # tile_info
    t = lambda p: s("tiling." + p)
    if tile is None:
        uni = And(
            op("Eq", op("Shr", op("Add", fi("sb_width"), op(
                "Add", op("Shl", K(1), t("tile_cols_log2")), K(-1))),
                t("tile_cols_log2")), t("tile_width_sb")),
            op("Eq", op("Shr", op("Add", fi("sb_height"), op(
                "Add", op("Shl", K(1), t("tile_rows_log2")), K(-1))),
                t("tile_rows_log2")), t("tile_height_sb")))
        head.append(If(uni, [
            F("uniform_tile_spacing_flag", 1, 1),
            Rep(F("increment_tile_cols_log2", 1, 1)),
            If(op("Lt", t("tile_cols_log2"), t("max_tile_cols_log2")),
               [F("increment_tile_cols_log2", 1, 0)]),
            Rep(F("increment_tile_rows_log2", 1, 1)),
            If(op("Lt", t("tile_rows_log2"), t("max_tile_rows_log2")),
               [F("increment_tile_rows_log2", 1, 0)])],
            [F("uniform_tile_spacing_flag", 1, 0),
             Rep(E("write_quniform", None, None))]))
        log2 = op("Add", t("tile_cols_log2"), t("tile_rows_log2"))
        head.append(If(op("Gt", log2, K(0)), [
            F("context_update_tile_id", log2, fs("context_update_tile_id")),
            F("tile_size_bytes_minus_1", 2,
              op("Add", fs("max_tile_size_bytes"), K(-1)))]))
    else:
        head.extend(tile_fields(tile, fs))
    # quantization_params
    dq = lambda n, i: idx(fi(n), i)

    def delta(n, i):
        v = dq(n, i)
        nm = "%s[%d]" % (n, i)
        return [F("delta_coded:" + nm, 1, op("Ne", v, K(0))),
                If(op("Ne", v, K(0)), [SF("delta:" + nm, 7, v)])]
    head.append(F("base_q_idx", 8, fi("base_q_idx")))
    head.append(delta("dc_delta_q", 0))
    if not mono:
        diff = Or(op("Ne", dq("dc_delta_q", 1), dq("dc_delta_q", 2)),
                  op("Ne", dq("ac_delta_q", 1), dq("ac_delta_q", 2)))
        head += [F("diff_uv_delta", 1, diff), delta("dc_delta_q", 1),
                 delta("ac_delta_q", 1),
                 If(diff, [delta("dc_delta_q", 2), delta("ac_delta_q", 2)])]
    head.append(F("using_qmatrix", 1, 0))
    # segmentation_params
    seg = lambda p: fs("segmentation." + p)
    feats = []
    for i in range(8):
        for j in range(8):
            fe = idx(idx(seg("features"), i), j)
            da = idx(idx(seg("data"), i), j)
            nm = "feature[%d][%d]" % (i, j)
            feats.append(F(nm + "_enabled", 1, fe))
            if SEG_SIGNED[j]:
                feats.append(If(fe, [SF(nm + "_value", SEG_BITS[j] + 1, da)]))
            else:
                feats.append(If(fe, [F(nm + "_value", SEG_BITS[j], da)]))
    prim = op("Eq", fi("primary_ref_frame"), K(7))
    head.append(F("segmentation_enabled", 1, fi("enable_segmentation")))
    head.append(If(fi("enable_segmentation"), [
        If(prim, [], [
            F("segmentation_update_map", 1, seg("update_map")),
            If(seg("update_map"), [F("segmentation_temporal_update", 1, 0)]),
            F("segmentation_update_data", 1, seg("update_data"))]),
        If(seg("update_data"), feats)]))
    head.append(F("delta_q_present", 1, 0))
    # loop_filter_params
    db = lambda p: fs("deblock." + p)
    lv = lambda i: idx(db("levels"), i)
    head += [F("loop_filter_level[0]", 6, lv(0)),
             F("loop_filter_level[1]", 6, lv(1))]
    if not mono:
        head.append(If(Or(op("Gt", lv(0), K(0)), op("Gt", lv(1), K(0))), [
            F("loop_filter_level[2]", 6, lv(2)),
            F("loop_filter_level[3]", 6, lv(3))]))
    head += [F("loop_filter_sharpness", 3, db("sharpness")),
             F("loop_filter_delta_enabled", 1, db("deltas_enabled"))]
    prev = proj(fi("rec_buffer.deblock"), ("i", proj(
        fi("ref_frames"), ("i", fi("primary_ref_frame")))))
    DEF = {"ref_deltas": (1, 0, 0, 0, 0, -1, -1, -1), "mode_deltas": (0, 0)}
    upd_ = []
    for n, k in (("ref_deltas", 8), ("mode_deltas", 2)):
        for i in range(k):
            cur = idx(db(n), i)
            ch1 = op("Ne", cur, K(DEF[n][i]))
            ch2 = op("Ne", cur, idx(proj(prev, "." + n), i))
            for p, ch in ((prim, ch1), (Not(prim), ch2)):
                upd_.append(If(p, [
                    F("update_%s[%d]" % (n, i), 1, ch),
                    If(ch, [SF("loop_filter_%s[%d]" % (n, i), 7, cur)])]))
    head.append(If(db("deltas_enabled"), [
        F("loop_filter_delta_update", 1, db("delta_updates_enabled")),
        If(db("delta_updates_enabled"), upd_)]))
    # cdef_params
    cd = [F("cdef_damping_minus_3", 2, op("Add", fi("cdef_damping"), K(-3))),
          F("cdef_bits", 2, fi("cdef_bits"))]
    for n in range(4):
        body = []
        for i in range(1 << n):
            body.append(F("cdef_y_strength[%d]" % i, 6,
                          idx(fi("cdef_y_strengths"), i)))
            if not mono:
                body.append(F("cdef_uv_strength[%d]" % i, 6,
                              idx(fi("cdef_uv_strengths"), i)))
        cd.append(If(op("Eq", fi("cdef_bits"), K(n)), body))
    head.append(If(s("enable_cdef"), cd))
    # lr_params
    pl = lambda i, f: proj(proj(idx(fs("restoration.planes"), i), ".cfg"),
                           "." + f)
    nz = lambda i: op("Ne", pl(i, "lrf_type"), K(LR_NONE))
    lr = [F("lr_type[%d]" % i, 2, pl(i, "lrf_type"))
          for i in range(1 if mono else 3)]
    uses = nz(0) if mono else Or(nz(0), nz(1), nz(2))
    us = pl(0, "unit_size")
    lr.append(If(uses, [
        F("lr_unit_shift", 1, op("Gt", us, K(64))),
        If(op("Gt", us, K(64)), [
            F("lr_unit_extra_shift", 1, op("Gt", us, K(128)))]),
        [] if mono else If(
            And(Or(nz(1), nz(2)),
                T.is_(s("chroma_sampling"), "ChromaSampling", "Cs420")),
            [F("lr_uv_shift", 1, op("Gt", us, pl(1, "unit_size")))])]))
    head.append(If(s("enable_restoration"), lr))
    head.append(F("tx_mode_select", 1, fi("tx_mode_select")))
    if not intra:
        single = T.is_(fi("reference_mode"), "ReferenceMode", "SINGLE")
        head.append(F("reference_select", 1, Not(single)))
    head.append(If(sym("skip_mode_allowed"), [F("skip_mode_present", 1, 0)]))
    if not intra:
        head.append(If(And(Not(er), s("enable_warped_motion")),
                       [F("allow_warped_motion", 1,
                          fi("allow_warped_motion"))]))
    head.append(F("reduced_tx_set", 1, fi("use_reduced_tx_set")))
    if not intra:
        for i in range(7):
            m = idx(fi("globalmv_transformation_type"), i)
            is_ = lambda v: T.is_(m, "GlobalMVMode", v)
            head.append(F("is_global[%d]" % i, 1, Not(is_("IDENTITY"))))
            head.append(If(is_("IDENTITY"), [], [
                F("is_rot_zoom[%d]" % i, 1, is_("ROTZOOM")),
                If(is_("ROTZOOM"), [], [
                    F("is_translation[%d]" % i, 1, is_("TRANSLATION"))]),
                E("write_s_refsubexpfin", None, 3, None, None),
                E("write_s_refsubexpfin", None, 3, None, None)]))
    if film:
        head.append(film_grammar(c, ft, mono, film))
    head.append(E("align"))
    if existing is not None:
        g.append(If(existing, [
            F("frame_to_show_map_idx", 3, fi("frame_to_show_map_idx")),
            F("trailing_one_bit", 1, 1), E("align")], head))
    else:
        g += head
    return g


def tile_fields(t, fs):
    """Exact tile_info() for a concrete layout."""
    out = []
    al = lambda x, n: (x + (1 << n) - 1) >> n
    uni = al(t["sbw"], t["cl"]) == t["tw"] and al(t["sbh"], t["rl"]) == t["th"]
    out.append(F("uniform_tile_spacing_flag", 1, int(uni)))
    if uni:
        for nm, mn, l, mx in (("cols", t["minc"], t["cl"], t["maxc"]),
                              ("rows", t["minr"], t["rl"], t["maxr"])):
            for _ in range(l - mn):
                out.append(F("increment_tile_%s_log2" % nm, 1, 1))
            if l < mx:
                out.append(F("increment_tile_%s_log2" % nm, 1, 0))
    else:
        start, widest = 0, 0
        while start < t["sbw"]:
            mx = min(t["sbw"] - start, 64)
            w = min(t["tw"], t["sbw"] - start)
            out.append(E("write_quniform", mx, w - 1))
            widest = max(widest, w)
            start += w
        area = t["sbw"] * t["sbh"]
        if t["mint"] > 0:
            area >>= t["mint"] + 1
        mh = max(area // widest, 1)
        start = 0
        while start < t["sbh"]:
            mx = min(t["sbh"] - start, mh)
            h = min(t["th"], t["sbh"] - start)
            out.append(E("write_quniform", mx, h - 1))
            start += h
    if t["cl"] + t["rl"] > 0:
        out.append(F("context_update_tile_id", t["cl"] + t["rl"],
                     fs("context_update_tile_id")))
        out.append(F("tile_size_bytes_minus_1", 2,
                     op("Add", fs("max_tile_size_bytes"), K(-1))))
    return out


def film_grammar(c, ft, mono, film):
    T = Types(c)
    g = lambda p: fld("grain", p)
    ny, ncb, ncr, cfl, lag, sub420, present = film
    if not present:
        return [F("apply_grain", 1, 0)]
    out = [F("apply_grain", 1, 1), F("grain_seed", 16, g("random_seed"))]
    if ft == "INTER":
        out.append(F("update_grain", 1, 1))

    def points(n, k):
        r = [F("num_%s_points" % n, 4, k)]
        for i in range(k):
            p = idx(g("scaling_points_" + n), i)
            r += [F("point_%s_value[%d]" % (n, i), 8, idx(p, 0)),
                  F("point_%s_scaling[%d]" % (n, i), 8, idx(p, 1))]
        return r
    out += points("y", ny)
    if mono:
        cfl = 0
    else:
        out.append(F("chroma_scaling_from_luma", 1, cfl))
    if mono or cfl or (sub420 and ny == 0):
        ncb = ncr = 0
    else:
        out += points("cb", ncb) + points("cr", ncr)
    out += [F("grain_scaling_minus_8", 2, op("Add", g("scaling_shift"),
                                             K(-8))),
            F("ar_coeff_lag", 2, lag)]
    luma = 2 * lag * (lag + 1)
    chroma = luma + 1 if ny else luma
    b = lambda n, i: op("Add", idx(g("ar_coeffs_" + n), i), K(128))
    if ny:
        out += [F("ar_coeffs_y_plus_128[%d]" % i, 8, b("y", i))
                for i in range(luma)]
    if cfl or ncb:
        out += [F("ar_coeffs_cb_plus_128[%d]" % i, 8, b("cb", i))
                for i in range(chroma)]
    if cfl or ncr:
        out += [F("ar_coeffs_cr_plus_128[%d]" % i, 8, b("cr", i))
                for i in range(chroma)]
    out += [F("ar_coeff_shift_minus_6", 2, op("Add", g("ar_coeff_shift"),
                                              K(-6))),
            F("grain_scale_shift", 2, g("grain_scale_shift"))]
    for n, k in (("cb", ncb), ("cr", ncr)):
        if k:
            out += [F(n + "_mult", 8, g(n + "_mult")),
                    F(n + "_luma_mult", 8, g(n + "_luma_mult")),
                    F(n + "_offset", 9, g(n + "_offset"))]
    out += [F("overlap_flag", 1, g("overlap_flag")),
            F("clip_to_restricted_range", 1,
              T.is_(fld("fi", "sequence*.pixel_range"), "PixelRange",
                    "Limited"))]
    return out


def base_cell(c, ft, reduced, cs):
    FTP = c.adt("FrameType")["adt"]
    CS = c.adt("ChromaSampling")["adt"]
    intra = ft in ("KEY", "INTRA_ONLY")
    cell = {
        "frame_type": agg("adt", FTP, ft, (), ()),
        "intra_only": K(int(intra)),
        "sequence*.reduced_still_picture_hdr": K(int(reduced)),
        "sequence*.enable_superres": K(0),
        "sequence*.frame_id_numbers_present_flag": K(0),
        "sequence*.decoder_model_info_present_flag": K(0),
        "sequence*.use_128x128_superblock": K(0),
        "sequence*.chroma_sampling": agg("adt", CS, cs, (), ()),
        "delta_q_present": K(0), "allow_intrabc": K(0),
        "large_scale_tile": K(0), 
        "frame_size_override_flag": K(1) if ft == "SWITCH" else f_set(0, 1),
        "width": I(1, 65535), "height": I(1, 65535),
        "error_resilient": K(1) if ft == "SWITCH" else f_set(0, 1),
        "primary_ref_frame": I(0, 7),
        "cdef_bits": K(1), "allow_screen_content_tools": I(0, 2),
        "sequence*.order_hint_bits_minus_1": I(0, 7),
        "sequence*.force_screen_content_tools": I(0, 2),
        "force_integer_mv": K(int(intra)),
    }
    cell["fs:segmentation.enabled"] = fld("fi", "enable_segmentation")
    if ft in ("KEY", "SWITCH"):
        cell["refresh_frame_flags"] = K(255)
    if ft == "INTRA_ONLY":
        cell["refresh_frame_flags"] = I(0, 254)
    if intra:
        cell["primary_ref_frame"] = K(7)
    return cell


def go(ctx, key, f, ft, reduced, cs, tile=None, film=None, extra=None):
    c = ctx.lib
    mono = cs == "Cs400"
    g = lambda: grammar(c, ft, reduced, mono, tile, film)
    cell = base_cell(c, ft, reduced, cs)
    if film is None:
        cell["sequence*.film_grain_params_present"] = K(0)
    else:
        cell["sequence*.film_grain_params_present"] = K(1)
        ny, ncb, ncr, cfl, lag, sub420, present = film

        def arr(n, k):
            b = fld("grain", n)
            return agg("array", None, None, (), [idx(b, i) for i in range(k)])
        for n, k in (("scaling_points_y", ny), ("scaling_points_cb", ncb),
                     ("scaling_points_cr", ncr), ("ar_coeffs_y", 24),
                     ("ar_coeffs_cb", 25), ("ar_coeffs_cr", 25)):
            cell["grain:" + n] = arr(n, k)
        cell["grain:chroma_scaling_from_luma"] = K(cfl)
        cell["grain:ar_coeff_lag"] = K(lag)
    if tile:
        for n, k in (("tile_cols_log2", "cl"), ("tile_rows_log2", "rl"),
                     ("tile_width_sb", "tw"), ("tile_height_sb", "th"),
                     ("min_tile_cols_log2", "minc"), ("cols", "cols"),
                     ("max_tile_cols_log2", "maxc"), ("rows", "rows"),
                     ("min_tile_rows_log2", "minr"),
                     ("max_tile_rows_log2", "maxr"),
                     ("min_tiles_log2", "mint")):
            cell["sequence*.tiling." + n] = K(tile[k])
        cell["sb_width"] = K(tile["sbw"])
        cell["sb_height"] = K(tile["sbh"])
    cell.update(extra or {})

    def call(a, st, nm, rnm, rec, args, site, line):
        last = nm.rsplit("::", 1)[-1]
        if last == "get_skip_mode_allowed":
            return [(st, sym("skip_mode_allowed"))]
        if last == "film_grain_params" or last == "get_film_grain_at":
            if film is None or not film[6]:
                return [(st, NONE)]
            return [(st, some(mk("ref", ("X", sym("grain")), (), 0)))]
        return None
    rel = set()
    m = check(ctx, "frame header", f, g, rel=rel, cell=cell, call=call,
              prims=("write_quniform", "write_s_refsubexpfin"),
              args=[sym("self"), sym("fi"), sym("fs"), sym("inter_cfg")],
              max_steps=600000)
    ctx.count("header_cells")
    ctx.sample("%s: %d fields of the grammar matched" % (key, len(m.hit)))
    return m


def quiet_cell(ft):
    """Settings that fix the parts of the header not under examination."""
    z = ["enable_segmentation", "sequence*.enable_cdef",
         "sequence*.enable_restoration", "fs:deblock.deltas_enabled",
         "render_and_frame_size_different", "allow_screen_content_tools",
         "disable_cdf_update", "fs:segmentation.enabled",
         "sequence*.force_screen_content_tools", "error_resilient"]
    r = {k: K(0) for k in z}
    r["show_frame"] = K(1)
    for i in range(3):
        r["dc_delta_q"] = agg("array", None, None, (), [K(0)] * 3)
        r["ac_delta_q"] = agg("array", None, None, (), [K(0)] * 3)
    return r


def run(ctx):
    f = ctx.fn("write_frame_header_obu")
    for ft, red in (("KEY", 0), ("KEY", 1), ("INTER", 0), ("INTRA_ONLY", 0),
                    ("SWITCH", 0)):
        for cs in ("Cs420", "Cs444", "Cs400"):
            if cs == "Cs444" and ft != "INTER":
                continue
            go(ctx, "%s reduced=%d %s" % (ft, red, cs), f, ft, red, cs)

    # every number of CDEF strengths
    for bits in (0, 2, 3):
        for ft, cs in (("KEY", "Cs420"), ("INTER", "Cs420"),
                       ("INTER", "Cs400")):
            q = quiet_cell(ft)
            q["cdef_bits"] = K(bits)
            q["sequence*.enable_cdef"] = K(1)
            go(ctx, "cdef bits %d %s %s" % (bits, ft, cs), f, ft, 0, cs,
               extra=q)
    # tile layouts, exactly
    tiles = []
    for minc, cl, maxc in ((0, 0, 0), (0, 0, 2), (0, 1, 2), (0, 2, 2),
                           (1, 1, 3), (1, 3, 3), (2, 3, 5)):
        for minr, rl, maxr in ((0, 0, 0), (0, 1, 3), (1, 2, 2), (0, 0, 1)):
            sbw, sbh = 40, 24
            tw = (sbw + (1 << cl) - 1) >> cl
            th = (sbh + (1 << rl) - 1) >> rl
            tiles.append(dict(sbw=sbw, sbh=sbh, cl=cl, rl=rl, tw=tw, th=th,
                              minc=minc, maxc=maxc, minr=minr, maxr=maxr,
                              mint=0))
    for sbw, sbh, tw, th, mint in ((10, 7, 4, 3, 0), (9, 8, 8, 8, 0),
                                   (200, 100, 60, 30, 3), (66, 5, 64, 2, 1),
                                   (30, 17, 8, 6, 0)):
        lg = lambda n: max(0, (n - 1).bit_length())
        cols, rows = -(-sbw // tw), -(-sbh // th)
        tiles.append(dict(sbw=sbw, sbh=sbh, tw=tw, th=th, cl=lg(cols),
                          rl=lg(rows), minc=0, maxc=6, minr=0, maxr=6,
                          mint=mint))
    for t in tiles:
        t["cols"] = -(-t["sbw"] // t["tw"])
        t["rows"] = -(-t["sbh"] // t["th"])
        go(ctx, "tiles %(cols)dx%(rows)d" % t, f, "KEY", 0, "Cs420", tile=t,
           extra=quiet_cell("KEY"))
    # film grain
    for cs in ("Cs420", "Cs444", "Cs400"):
        for ft in ("KEY", "INTER"):
            for ny, ncb, ncr, cfl, lag in (
                    (0, 0, 0, 0, 0), (2, 0, 0, 0, 1), (1, 1, 2, 0, 2),
                    (0, 2, 1, 0, 1), (2, 0, 0, 1, 1), (2, 1, 1, 1, 3),
                    (0, 1, 0, 0, 0), (1, 0, 1, 0, 0), (14, 10, 10, 0, 3)):
                go(ctx, "film grain %s %s %s" % (cs, ft, (
                    ny, ncb, ncr, cfl, lag)), f, ft, 0, cs,
                    film=(ny, ncb, ncr, cfl, lag, cs == "Cs420", 1),
                    extra=quiet_cell(ft))
            go(ctx, "no grain", f, ft, 0, cs,
               film=(0, 0, 0, 0, 0, cs == "Cs420", 0), extra=quiet_cell(ft))

    # the tools the cells assume to be off are never switched on
    for fld_ in ("allow_intrabc", "delta_q_present", "large_scale_tile"):
        n = 0
        for g, line, rv in query.field_writes(ctx.lib, "FrameInvariants",
                                              fld_):
            last = g.nname.rsplit("::", 1)[-1]
            if last in ("clone", "clone_without_coded_data"):
                continue
            n += 1
            v = query.const_of(ctx.lib, g, rv[1]) if rv[0] == "use" else None
            ctx.ob(v is False, "unsupported:" + fld_, "%s is enabled in %s "
                   "although the frame header writer does not signal it" % (
                       fld_, g.nname), g.loc(line))
        ctx.floor("writes of " + fld_, n, 1)

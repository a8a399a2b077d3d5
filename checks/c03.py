"""C03: sequence header syntax."""
from sa.val import *
from sa.gram import *
from sa.gate import run_cell

RULE = """Lock-step abstract interpretation of the sequence header writer
against the AV1 sequence_header_obu() grammar (5.5): on every path each field
must be written with the width, in the position and with the value the grammar
gives it, and nothing else."""
ASSUME = ["the bit writer stores the low bits of a value most significant "
          "first (bitstream_io)"]


def sequence_grammar(c, fi="fi"):
    T = Types(c)
    s = lambda p: fld(fi, "sequence*." + p)
    w = op("Add", fld(fi, "width"), K(-1))
    h = op("Add", fld(fi, "height"), K(-1))

    def log2(v):   # index of the most significant set bit
        return op("Sub", K(31), op("min", mk("cast", "u8", mk(
            "call", "u32::leading_zeros", (mk("cast", "u32", v),), None)),
            K(31)))
    reduced = s("reduced_still_picture_hdr")
    lvl = idx(s("level_idx"), 0)
    cs = s("chroma_sampling")
    mono, c420, c444 = (T.is_(cs, "ChromaSampling", n) for n in (
        "Cs400", "Cs420", "Cs444"))
    cd = s("color_description")
    EN = {"color_primaries": "ColorPrimaries",
          "transfer_characteristics": "TransferCharacteristics",
          "matrix_coefficients": "MatrixCoefficients"}
    cdp = lambda f: T.discr(
        fld(fi, "sequence*.color_description@Some.0." + f), EN[f])
    has_cd = T.is_(cd, "Option", "Some")
    srgb = And(has_cd, op("Eq", cdp("color_primaries"), K(1)),
               op("Eq", cdp("transfer_characteristics"), K(13)),
               op("Eq", cdp("matrix_coefficients"), K(0)))
    rng = T.is_(s("pixel_range"), "PixelRange", "Full")
    prof = s("profile")
    bd = s("bit_depth")
    color = [
        F("high_bitdepth", 1, op("Gt", bd, K(8))),
        If(And(op("Eq", prof, K(2)), op("Gt", bd, K(8))),
           [F("twelve_bit", 1, op("Eq", bd, K(12)))]),
        If(op("Ne", prof, K(1)), [F("mono_chrome", 1, mono)]),
        F("color_description_present_flag", 1, has_cd),
        If(has_cd, [
            F("color_primaries", 8, cdp("color_primaries")),
            F("transfer_characteristics", 8,
              cdp("transfer_characteristics")),
            F("matrix_coefficients", 8, cdp("matrix_coefficients"))]),
        If(mono, [F("color_range", 1, rng)],
           [If(srgb, [], [
               F("color_range", 1, rng),
               If(And(op("Eq", prof, K(2)), op("Eq", bd, K(12))), [
                   F("subsampling_x", 1, Not(c444)),
                   If(Not(c444), [F("subsampling_y", 1, c420)])]),
               If(c420, [F("chroma_sample_position", 2,
                           T.discr(s("chroma_sample_position"),
                                   "ChromaSamplePosition"))])]),
            F("separate_uv_delta_q", 1, 1)]),
    ]
    sct, imv = s("force_screen_content_tools"), s("force_integer_mv")
    return [
        F("seq_profile", 3, prof),
        F("still_picture", 1, s("still_picture")),
        F("reduced_still_picture_header", 1, reduced),
        If(reduced, [F("seq_level_idx", 5, lvl)], [
            F("timing_info_present_flag", 1, s("timing_info_present")),
            If(s("timing_info_present"), [
                F("num_units_in_display_tick", 32, s("time_base.num")),
                F("time_scale", 32, s("time_base.den")),
                F("equal_picture_interval", 1, 1),
                F("num_ticks_per_picture_minus_1", 1, 1),
                F("decoder_model_info_present_flag", 1, 0)]),
            F("initial_display_delay_present_flag", 1, 0),
            F("operating_points_cnt_minus_1", 5, 0),
            F("operating_point_idc", 12, 0),
            F("seq_level_idx", 5, lvl),
            If(op("Gt", lvl, K(7)), [F("seq_tier", 1, 0)])]),
        F("frame_width_bits_minus_1", 4, log2(w)),
        F("frame_height_bits_minus_1", 4, log2(h)),
        F("max_frame_width_minus_1", op("Add", log2(w), K(1)), w),
        F("max_frame_height_minus_1", op("Add", log2(h), K(1)), h),
        If(reduced, [], [
            F("frame_id_numbers_present_flag", 1,
              s("frame_id_numbers_present_flag")),
            If(s("frame_id_numbers_present_flag"), [
                F("delta_frame_id_length_minus_2", 4,
                  op("Add", s("delta_frame_id_length"), K(-2))),
                F("additional_frame_id_length_minus_1", 3,
                  op("Add", op("Sub", s("frame_id_length"),
                               s("delta_frame_id_length")), K(-1)))])]),
        F("use_128x128_superblock", 1, s("use_128x128_superblock")),
        F("enable_filter_intra", 1, s("enable_filter_intra")),
        F("enable_intra_edge_filter", 1, s("enable_intra_edge_filter")),
        If(reduced, [], [
            F("enable_interintra_compound", 1,
              s("enable_interintra_compound")),
            F("enable_masked_compound", 1, s("enable_masked_compound")),
            F("enable_warped_motion", 1, s("enable_warped_motion")),
            F("enable_dual_filter", 1, s("enable_dual_filter")),
            F("enable_order_hint", 1, s("enable_order_hint")),
            If(s("enable_order_hint"), [
                F("enable_jnt_comp", 1, s("enable_jnt_comp")),
                F("enable_ref_frame_mvs", 1, s("enable_ref_frame_mvs"))]),
            F("seq_choose_screen_content_tools", 1, op("Eq", sct, K(2))),
            If(op("Eq", sct, K(2)), [],
               [F("seq_force_screen_content_tools", 1,
                  op("Ne", sct, K(0)))]),
            If(op("Gt", sct, K(0)), [
                F("seq_choose_integer_mv", 1, op("Eq", imv, K(2))),
                If(op("Eq", imv, K(2)), [],
                   [F("seq_force_integer_mv", 1, op("Ne", imv, K(0)))])]),
            If(s("enable_order_hint"), [
                F("order_hint_bits_minus_1", 3,
                  s("order_hint_bits_minus_1"))])]),
        F("enable_superres", 1, s("enable_superres")),
        F("enable_cdef", 1, s("enable_cdef")),
        F("enable_restoration", 1, s("enable_restoration")),
        color,
        F("film_grain_params_present", 1, s("film_grain_params_present")),
    ]


def run(ctx):
    f = ctx.fn("write_sequence_header_obu")
    check(ctx, "sequence header", f, sequence_grammar(ctx.lib),
          cell={"width": ("i", 1, 65535, frozenset()),
                "height": ("i", 1, 65535, frozenset()),
                "sequence*.bit_depth": ("s", frozenset((8, 10, 12))),
                "sequence*.profile": ("i", 0, 2, frozenset()),
                "sequence*.force_screen_content_tools":
                    ("i", 0, 2, frozenset()),
                "sequence*.force_integer_mv": ("i", 0, 2, frozenset())},
          rel={"frame_id_numbers_present_flag", "chroma_sampling",
               "color_description", "color_primaries",
               "transfer_characteristics", "matrix_coefficients", "Some"},
          args=[sym("self"), sym("fi")])

    sequence_values(ctx)


COPIED = ("bit_depth", "chroma_sampling", "chroma_sample_position",
          "pixel_range", "color_description", "mastering_display",
          "content_light", "time_base")
OFF = ("frame_id_numbers_present_flag", "use_128x128_superblock",
       "enable_filter_intra", "enable_interintra_compound",
       "enable_masked_compound", "enable_dual_filter", "enable_jnt_comp",
       "enable_ref_frame_mvs", "enable_warped_motion", "enable_superres",
       "decoder_model_info_present_flag")


def sequence_values(ctx):
    """The fields of the sequence describe the validated configuration."""
    c = ctx.lib
    f = ctx.fn("Sequence::new")
    CS = c.adt("ChromaSampling")["adt"]
    I = lambda a, b: ("i", a, b, frozenset())

    def res(cell, rel):
        base = {"width": I(1, 65535), "height": I(1, 65535)}
        base.update(cell)
        outs, a = run_cell(
            c, f, base, rel=set(rel), root="config", ctx=ctx,
            inline=lambda a, st, g: g.is_closure or g.is_ext)
        ctx.ob(bool(outs), "seq:reach", "no sequence can be built", f.loc())
        return outs

    def want(o, field, v, key, what):
        got = proj(o.ret, "." + field)
        ctx.ob(same_value(o.st, v, got, 32) is True or got is v,
               "seq:%s:%s" % (field, key),
               "sequence field %s is %s, not %s (%s)" % (
                   field, show(got)[:100], show(v)[:60], what), f.loc())

    for bd in (8, 10, 12):
        for cs in ("Cs420", "Cs422", "Cs444", "Cs400"):
            p = 2 if bd == 12 or cs == "Cs422" else int(cs == "Cs444")
            for o in res({"bit_depth": f_set(bd),
                          "chroma_sampling": agg("adt", CS, cs, (), ())},
                         {"bit_depth"}):
                want(o, "profile", K(p), "%d %s" % (bd, cs),
                     "AV1 profile of %s at %d bits" % (cs, bd))
                want(o, "bit_depth", K(bd), "cell", "configured depth")
    for o in res({}, set()):
        for n in COPIED:
            got = proj(o.ret, "." + n)
            ctx.ob(path(got) == "config." + n, "seq:copied:" + n,
                   "sequence field %s is %s instead of the configured value"
                   % (n, show(got)[:80]), f.loc())
        for n in OFF:
            want(o, n, K(0), "off", "the coding tool is not implemented")
        want(o, "enable_intra_edge_filter", K(1), "on",
             "edge filtering is always applied")
        for n, q in (("max_frame_width", "width"),
                     ("max_frame_height", "height"),
                     ("timing_info_present", "enable_timing_info")):
            ctx.ob(path(proj(o.ret, "." + n)) == "config." + q,
                   "seq:copied:" + n, "sequence field %s is not the "
                   "configured %s" % (n, q), f.loc())
    for still in (0, 1):
        for o in res({"still_picture": f_set(still)}, {"still_picture"}):
            want(o, "still_picture", K(still), str(still), "still picture")
            want(o, "reduced_still_picture_hdr", K(still), str(still),
                 "reduced header only for still pictures")
            want(o, "enable_order_hint", K(1 - still), str(still),
                 "order hints for video only")
            want(o, "force_screen_content_tools", K(2 if still else 0),
                 str(still), "screen content tools selectable")
            want(o, "force_integer_mv", K(2), str(still), "selectable")
            want(o, "order_hint_bits_minus_1", K(5), str(still),
                 "order hints use 6 bits")
    for lv, w in ((some(sym("lv")), sym("lv")), (NONE, K(31))):
        for o in res({"level_idx": lv}, {"lv"}):
            got = proj(proj(o.ret, ".level_idx"), ("i", K(0)))
            ctx.ob(got is w, "seq:level:" + show(w), "the signalled level is "
                   "%s for a requested level of %s" % (show(got)[:60],
                                                       show(lv)[:40]), f.loc())
    for w, h in ((31, 32), (32, 31), (32, 32), (31, 31)):
        for cd in (0, 1):
            for lr in (0, 1):
                for o in res({"width": f_set(w), "height": f_set(h),
                              "speed_settings.cdef": f_set(cd),
                              "speed_settings.lrf": f_set(lr)},
                             {"width", "height", "cdef", "lrf"}):
                    big = int(w >= 32 and h >= 32)
                    k = "%dx%d %d %d" % (w, h, cd, lr)
                    want(o, "enable_cdef", K(cd & big), k, "requested and "
                         "large enough")
                    want(o, "enable_restoration", K(lr & big), k,
                         "requested and large enough")

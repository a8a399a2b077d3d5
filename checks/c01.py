"""C01: the configuration gate accepts exactly the encodable configurations."""
from sa.val import *
from sa.gate import *

RULE = """Partitioned abstract interpretation of the configuration validator
(all callees inlined).  For every documented constraint the input space is cut
into interval cells; a must-reject cell may not reach an Ok return, a
must-accept cell may not reach that constraint's error return.  Relational
level limits are decided on the comparison atoms that hold at each return."""
ASSUME = ["integer arithmetic is mathematical (no wrap-around) in comparisons",
          "floating point rounding of the render size is opaque; only the "
          "bounds applied to it are decided"]

I = lambda lo, hi=None: ("i", lo, hi, frozenset())
U64 = (1 << 64) - 1


def run(ctx):
    c = ctx.lib
    f = ctx.fn("Config::validate")
    IC = c.adt("InvalidConfig")
    variants = {v[0] for v in IC["variants"]}

    def outs(cell, rel, key):
        os_, a = run_cell(c, f, cell, rel=rel, ctx=ctx)
        return os_

    def enum(ty, v):
        return agg("adt", c.adt(ty)["adt"], v, (), ())

    def reject(key, cell, rel, errs):
        """No Ok outcome; the constraint's own error is reachable."""
        os_ = outs(cell, rel, key)
        names_ = {err_name(o.ret) for o in os_}
        ctx.ob("Ok" not in names_, "accepts:" + key,
               "an invalid configuration is accepted: " + key, f.loc())
        ctx.ob(bool(names_ & {"Err:" + e for e in errs}),
               "wrong-error:" + key, "rejected without the documented error "
               "%s (got %s)" % (errs, sorted(map(str, names_))[:8]), f.loc())
        ctx.sample("reject %s -> %s" % (key, sorted(map(str, names_))[:4]))

    def accept(key, cell, rel, errs):
        """Ok reachable, and never rejected with this constraint's error."""
        os_ = outs(cell, rel, key)
        names_ = {err_name(o.ret) for o in os_}
        ctx.ob("Ok" in names_, "rejects-all:" + key,
               "no configuration in a valid cell is accepted: " + key, f.loc())
        bad = names_ & {"Err:" + e for e in errs}
        ctx.ob(not bad, "rejects:" + key, "a valid configuration may be "
               "rejected with %s: %s" % (sorted(bad), key), f.loc())

    # --- picture dimensions
    for dim, E in (("width", "InvalidWidth"), ("height", "InvalidHeight")):
        for still, lo in ((0, 16), (1, 1)):
            b = {"enc.still_picture": f_set(still)}
            rel = {"still_picture", dim}
            n = "%s,still=%d" % (dim, still)
            p = "enc." + dim
            reject(n + " below", {**b, p: I(0, lo - 1)}, rel, [E])
            accept(n + " in range", {**b, p: I(lo, 65535)}, rel, [E])
            reject(n + " above", {**b, p: I(65536, U64)}, rel, [E])
    # --- aspect ratio
    for fld, E in (("num", "InvalidAspectRatioNum"),
                   ("den", "InvalidAspectRatioDen")):
        p = "enc.sample_aspect_ratio." + fld
        rel = {"sample_aspect_ratio." + fld, "self." + p, fld}
        reject("sar.%s=0" % fld, {p: f_set(0)}, rel, [E])
        accept("sar.%s>0" % fld, {p: I(1, U64)}, rel, [E])
    # --- plain ranges
    for p, lo, hi, top, E in (
            ("enc.speed_settings.rdo_lookahead_frames", 1, U64 - 1, U64,
             "InvalidRdoLookaheadFrames"),
            ("enc.max_key_frame_interval", 0, ((1 << 31) - 1) // 3, U64,
             "InvalidMaxKeyFrameInterval"),
            ("enc.time_base.num", 1, (1 << 32) - 1, U64, "InvalidFrameRateNum"),
            ("enc.time_base.den", 1, (1 << 32) - 1, U64, "InvalidFrameRateDen"),
            ):
        rel = {p.rsplit(".", 1)[1]}
        if lo:
            reject(p + " below", {p: I(0, lo - 1)}, rel, [E])
        accept(p + " in range", {p: I(lo, hi)}, rel, [E])
        if hi < top:
            reject(p + " above", {p: I(hi + 1, top)}, rel, [E])
    # --- tiles: 0 or a power of two up to 64
    for p, E in (("enc.tile_cols", "InvalidTileCols"),
                 ("enc.tile_rows", "InvalidTileRows")):
        for v in list(range(0, 18)) + [31, 32, 33, 63, 64, 65, 96, 128, 255]:
            okv = v == 0 or (v & (v - 1)) == 0
            (accept if okv else reject)(
                "%s=%d" % (p, v), {p: K(v)}, {p.split(".")[1]}, [E])
    # --- reservoir
    p = "enc.reservoir_frame_delay"
    for key, v, good in (("none", NONE, True), ("-1..11", (-(1 << 31), 11), False),
                         ("12..131072", (12, 131072), True),
                         (">131072", (131073, (1 << 31) - 1), False)):
        cell = {p: v} if isinstance(v, V) else {p: some(sym("delay"))}
        E = ["InvalidReservoirFrameDelay"]
        if not isinstance(v, V):
            cell = dict(cell)
            facts = I(*v)
        else:
            facts = None
        os_ = cellf(ctx, c, f, cell, {"delay"}, facts)
        names_ = {err_name(o.ret) for o in os_}
        if good:
            ctx.ob("Ok" in names_ and "Err:" + E[0] not in names_,
                   "rejects:reservoir " + key, "valid reservoir delay "
                   "rejected: " + key, f.loc())
        else:
            ctx.ob("Ok" not in names_ and "Err:" + E[0] in names_,
                   "accepts:reservoir " + key, "invalid reservoir delay "
                   "accepted: " + key, f.loc())
    # --- switch frames
    rel = {"switch_frame_interval", "low_latency"}
    E = ["InvalidSwitchFrameInterval"]
    for sw, ll in ((0, 0), (0, 1), (1, 0), (1, 1)):
        cell = {"enc.switch_frame_interval": I(1, U64) if sw else f_set(0),
                "enc.low_latency": f_set(ll)}
        (reject if sw and not ll else accept)(
            "switch=%d,low_latency=%d" % (sw, ll), cell, rel, E)
    # --- still picture + timing info
    rel = {"still_picture", "enable_timing_info"}
    for sp, ti in ((0, 0), (0, 1), (1, 0), (1, 1)):
        cell = {"enc.still_picture": f_set(sp),
                "enc.enable_timing_info": f_set(ti)}
        (reject if sp and ti else accept)(
            "still=%d,timing=%d" % (sp, ti), cell, rel,
            ["InvalidOptionWithStillPicture"])
    # --- colour configuration
    CDp = c.adt("ColorDescription")["adt"]

    def cd(cp, tc, mc):
        return some(agg("adt", CDp, c.adt("ColorDescription")["variants"][0][0],
                        (".color_primaries", ".transfer_characteristics",
                         ".matrix_coefficients"),
                        (enum("ColorPrimaries", cp),
                         enum("TransferCharacteristics", tc),
                         enum("MatrixCoefficients", mc))))
    rel = {"pixel_range", "chroma_sampling", "color_description"}
    E = ["ColorConfigurationMismatch"]
    for cs in ("Cs420", "Cs422", "Cs444", "Cs400"):
        for pr in ("Limited", "Full"):
            for trip in (("BT709", "SRGB", "Identity"),
                         ("BT709", "BT709", "Identity"),
                         ("BT709", "SRGB", "BT709"),
                         ("BT2020", "SRGB", "Identity"), None):
                cell = {"enc.chroma_sampling": enumv(c, "ChromaSampling", cs),
                        "enc.pixel_range": enum("PixelRange", pr),
                        "enc.color_description": cd(*trip) if trip else NONE}
                srgb = trip == ("BT709", "SRGB", "Identity")
                bad = srgb and cs != "Cs400" and (pr != "Full" or cs != "Cs444")
                (reject if bad else accept)(
                    "color %s,%s,%s" % (cs, pr, trip), cell, rel, E)
    # --- bitrate for multi-pass
    rel = {"bitrate", "emit_pass_data", "summary"}
    for emit in (0, 1):
        for summ in (0, 1):
            for br in (0, 1):
                cell = {"rate_control.emit_pass_data": f_set(emit),
                        "rate_control.summary": some(sym("summary"))
                        if summ else NONE,
                        "enc.bitrate": I(1, (1 << 31) - 1) if br else f_set(0)}
                (reject if (emit or summ) and not br else accept)(
                    "emit=%d,summary=%d,bitrate=%d" % (emit, summ, br), cell,
                    rel, ["TargetBitrateNeeded"])
    # --- levels
    rel = {"level_idx"}
    DEF = {0, 1, 4, 5, 8, 9, 12, 13, 14, 15, 16, 17, 18, 19}
    for lv in list(range(0, 41)) + [63, 255]:
        okv = lv in DEF or lv == 31
        (accept if okv else reject)(
            "level=%d" % lv, {"enc.level_idx": some(K(lv))}, rel,
            ["LevelUndefined"])
    accept("level=none", {"enc.level_idx": NONE}, rel,
           ["LevelUndefined", "LevelConstraintsExceeded"])
    accept("level=31", {"enc.level_idx": some(K(31))}, rel,
           ["LevelUndefined", "LevelConstraintsExceeded"])
    render(ctx, c, f)
    level_relation(ctx, c, f)
    # --- every variant is one we have a rule for
    known = {"InvalidWidth", "InvalidHeight", "InvalidAspectRatioNum",
             "InvalidAspectRatioDen", "InvalidRenderWidth",
             "InvalidRenderHeight", "InvalidRdoLookaheadFrames",
             "InvalidMaxKeyFrameInterval", "InvalidTileCols",
             "InvalidTileRows", "InvalidFrameRateNum", "InvalidFrameRateDen",
             "InvalidReservoirFrameDelay", "InvalidSwitchFrameInterval",
             "InvalidOptionWithStillPicture", "TargetBitrateNeeded",
             "RateControlConfigurationMismatch", "ColorConfigurationMismatch",
             "LevelUndefined", "LevelConstraintsExceeded"}
    os_, _ = run_cell(c, f, {}, rel=set(), ctx=ctx)
    got = {err_name(o.ret) for o in os_}
    want = {"Err:" + x for x in known - {"RateControlConfigurationMismatch"}}
    ctx.ob(got - {"Ok"} == want, "error-set", "the validator returns %s; the "
           "documented errors are %s" % (sorted(map(str, got - want))[:5],
                                         sorted(want - got)[:5]), f.loc())
    ctx.floor("cells", ctx.counts["cells"], 190)


def enumv(c, ty, v):
    for n, a in c.adts.items():
        if n.endswith("::" + ty):
            return agg("adt", n, v, (), ())
    raise KeyError(ty)


def cellf(ctx, c, f, cell, rel, fact):
    import sa.ae as _ae
    pol = CellPolicy(rel)
    a = _ae.AE(c, pol)
    st = a.start(f, [sym("self")])
    for p, v in cell.items():
        st.put((("X", sym("self")), elems(p)), v)
    if fact:
        st.facts[sym("delay")] = fact
    ctx.count("cells")
    return [o for o in a.run(st) if o.kind == "ret"]


def render(ctx, c, f):
    """Bounds on the render size: the validator consults render_size() and
    rejects 0 and anything above 65535 in both coordinates."""
    def call(a, st, name, rname, rec, args, site, line):
        if norm(name).endswith("EncoderConfig::render_size"):
            seen.append(1)
            return [(st, tup(sym("RW"), sym("RH")))]
        return None
    from sa.prog import norm
    seen = []
    for v, E in (("RW", "InvalidRenderWidth"), ("RH", "InvalidRenderHeight")):
        for key, fact, good in (("zero", f_set(0), False),
                                ("ok", I(1, 65535), True),
                                ("big", I(65536, U64), False)):
            import sa.ae as _ae
            pol = CellPolicy({"RW", "RH"}, call=call)
            a = _ae.AE(c, pol)
            st = a.start(f, [sym("self")])
            st.facts[sym(v)] = fact
            ns = {err_name(o.ret) for o in a.run(st) if o.kind == "ret"}
            ctx.count("cells")
            if good:
                ctx.ob("Ok" in ns and "Err:" + E not in ns,
                       "rejects:render %s %s" % (v, key),
                       "a valid render size is rejected", f.loc())
            else:
                ctx.ob("Ok" not in ns and "Err:" + E in ns,
                       "accepts:render %s %s" % (v, key),
                       "an unrepresentable render size is accepted", f.loc())
    ctx.ob(bool(seen), "render-size-unused",
           "the validator does not consult the render size", f.loc())


def level_relation(ctx, c, f):
    """At every Ok return with a limiting level the picture size, width,
    height and display rate have been compared with that level's limits."""
    import sa.ae as _ae
    enc = proj(proj(sym("self"), "*"), ".enc")
    w, h = proj(enc, ".width"), proj(enc, ".height")
    tb = proj(enc, ".time_base")
    num, den = proj(tb, ".num"), proj(tb, ".den")
    n = 0
    for lv in (0, 1, 4, 5, 8, 9, 12, 13, 14, 15, 16, 17, 18, 19):
        def tab(nm):
            t = c.const(nm)["val"]
            return t[lv]
        lim = {"pic": tab("AV1_LEVEL_MAX_PIC_SIZE"),
               "w": tab("AV1_LEVEL_MAX_H_SIZE"),
               "h": tab("AV1_LEVEL_MAX_V_SIZE"),
               "rate": tab("AV1_LEVEL_MAX_DISPLAY_RATE")}
        pol = CellPolicy({"width", "height", "num", "den", "time_base"})
        a = _ae.AE(c, pol)
        st = a.start(f, [sym("self")])
        st.put((("X", sym("self")), (".enc", ".level_idx")), some(K(lv)))
        oks = 0
        for o in a.run(st):
            if o.kind != "ret":
                continue
            nm = err_name(o.ret)
            s = o.st
            pic = op("Mul", w, h)
            ex = {"pic": s.decide(op("Gt", pic, K(lim["pic"]))),
                  "w": s.decide(op("Gt", w, K(lim["w"]))),
                  "h": s.decide(op("Gt", h, K(lim["h"]))),
                  "rate": rate_exceeded(s, w, h, num, den, lim["rate"])}
            if nm == "Ok":
                oks += 1
                for k, v in ex.items():
                    ctx.ob(v is False, "level-limit-unchecked:" + k,
                           "level %d: accepted without the %s limit %d being "
                           "enforced" % (lv, k, lim[k]), f.loc())
            elif nm == "Err:LevelConstraintsExceeded":
                ctx.ob(any(v is True for v in ex.values()),
                       "level-limit-spurious", "level %d: rejected although "
                       "no limit is exceeded" % lv, f.loc())
        n += oks
    ctx.floor("level_ok_returns", n, 14)


def rate_exceeded(s, w, h, num, den, lim):
    """Display rate = samples per second = w*h*den/num (time base is seconds
    per frame), compared rounding up or cross-multiplied."""
    wh = op("Mul", w, h)
    alts = []
    for prod in (op("Mul", wh, den), op("Mul", op("Mul", w, den), h),
                 op("Mul", op("Mul", h, den), w)):
        q = mk("call", "core::num::<impl u64>::div_ceil", (prod, num), None)
        alts.append(op("Gt", q, K(lim)))
        alts.append(op("Gt", prod, op("Mul", num, K(lim))))
    for v in list(s.facts):
        if v.k == "op" and v.a[0] in ("Le", "Ge", "Lt"):
            a = v.a[1][0]
            b = v.a[1][1]
            for x, y in ((a, b), (b, a)):
                if x.k == "call" and x.a[0].endswith("div_ceil"):
                    p, d = x.a[1]
                    if isk(y) and set(factors(p)) == {w, h, den} and d is num:
                        return s.decide(op("Gt", x, K(lim)))
        if v.k == "call" and v.a[0].endswith("div_ceil"):
            p, d = v.a[1]
            if set(factors(p)) == {w, h, den} and strip(d) is num:
                return s.decide(op("Gt", v, K(lim)))
    for x in alts:
        r = s.decide(x)
        if r is not None:
            return r
    return None


def factors(v):
    v = strip(v)
    if v.k == "op" and v.a[0] == "Mul":
        return factors(v.a[1][0]) + factors(v.a[1][1])
    return [v]

"""C12: reference state and in-loop filters follow the decoder's process."""
from sa.val import *
from sa.gate import *
from sa.ae import mklist, _fv
from sa.query import field_writes, field_borrows

RULE = """Cell-wise abstract interpretation: every refresh mask, primary
reference, filter switch and level combination is run through the code that
saves, propagates and loads reference state and orders the in-loop filters; the
final state and call trace must be the ones of the decoding process."""
ASSUME = ["the filter kernels themselves are not judged here",
          "closures handed to rayon run once per tile"]
S, FI, FS, N = sym("self"), sym("fi"), sym("fs"), sym("n")


def run(ctx):
    save(ctx)
    load(ctx)
    sign(ctx)
    filters(ctx)
    tiles(ctx)
    frame(ctx)
    coded(ctx)
    shown(ctx)
    owners(ctx)


WANT = {"order_hint": "fi.order_hint", "width": "fi.width",
        "height": "fi.height", "render_width": "fi.render_width",
        "render_height": "fi.render_height", "frame": "fs.rec",
        "input_hres": "fs.input_hres", "input_qres": "fs.input_qres",
        "cdfs": "fs.cdfs", "frame_me_stats": "fs.frame_me_stats",
        "output_frameno": "n", "segmentation": "fs.segmentation"}


def uncast(v):
    while v.k == "op" and str(v.a[0]).startswith("cast"):
        v = v.a[1]
    return v


def save(ctx):
    c = ctx.lib
    f = ctx.fn("encoder::update_rec_buffer")
    for m in range(256):
        outs, a = run_cell(c, f, {"fi:refresh_frame_flags": K(m)}, rel=set(),
                           args=[N, FI, FS], ctx=ctx)
        ctx.ob(bool(outs), "save-path", "update_rec_buffer never returns",
               f.loc())
        for o in outs:
            for i in range(8):
                v = o.st.load((("X", FI), (".rec_buffer", ".frames",
                                           ("i", K(i)))))
                d = o.st.load((("X", FI), (".rec_buffer", ".deblock",
                                           ("i", K(i)))))
                if not m >> i & 1:
                    ctx.ob(show(v) == "fi.rec_buffer.frames[%d]" % i and
                           show(d) == "fi.rec_buffer.deblock[%d]" % i,
                           "save-keep", "with refresh flags %d slot %d is "
                           "changed" % (m, i), f.loc())
                    continue
                ctx.ob(show(d) == "fs.deblock", "save-deblock", "with refresh "
                       "flags %d slot %d keeps loop filter state %s" % (
                           m, i, show(d)[:60]), f.loc())
                k, p = variant(v)
                if k != "Some":
                    ctx.violate("save-slot", "with refresh flags %d slot %d "
                                "is not replaced" % (m, i), f.loc())
                    continue
                p = strip_arc(p)
                if m in (1, 128, 255):
                    for n, w in WANT.items():
                        g = show(uncast(proj(p, "." + n)))
                        g = g.split("cast:u32(")[-1].rstrip(")")
                        ctx.ob(g == w, "save-field:" + n, "the saved frame's "
                               "%s is %s" % (n, g[:60]), f.loc())


def strip_arc(v):
    while v.k == "arc":
        v = v.a[0]
    return v


def load(ctx):
    c = ctx.lib
    for name, fld_ in (("get_initial_cdfcontext", "cdfs"),
                       ("get_initial_segmentation", "segmentation")):
        fs = c.find("encoder::" + name)
        if len(fs) != 1:
            ctx.violate("anchor:" + name, "%d functions named %s" % (
                len(fs), name))
            continue
        f = fs[0]
        for p in (0, 1, 2, 3, 4, 5, 6, 7):
            outs, a = run_cell(c, f, {"fi:primary_ref_frame": K(p)},
                               rel=None, args=[FI], ctx=ctx,
                               call=fresh_hook)
            ctx.ob(bool(outs), "load-path:" + name, name + " never returns",
                   f.loc())
            slot = "fi.rec_buffer.frames[fi.ref_frames[%d]]" % p
            for o in outs:
                g = show(o.ret)
                if p == 7:
                    ctx.ob(g.startswith("FRESH"), "load-none:" + fld_,
                           "without a primary reference %s starts from %s" % (
                               fld_, g[:80]), f.loc())
                elif g.startswith("FRESH"):
                    e = sym_opt(o.st, slot)
                    ctx.ob(e is False, "load-empty:" + fld_, "%s of primary "
                           "reference %d is ignored" % (fld_, p), f.loc())
                else:
                    ctx.ob(g == slot + "@Some.0." + fld_, "load:" + fld_,
                           "with primary reference %d %s starts from %s" % (
                               p, fld_, g[:80]), f.loc())
                if fld_ == "cdfs" and g.startswith("FRESH"):
                    ctx.ob(g == "FRESH(fi.base_q_idx)", "load-q", "fresh "
                           "probabilities are chosen for quantizer %s" %
                           g[:60], f.loc())


def sym_opt(st, name):
    """False when the path assumed the option to be None"""
    for k, f in st.facts.items():
        if k.k == "discr" and show(k.a[0]) == name or \
                name in show(k) and show(k).startswith("discr"):
            d = st.decide(k)
            return None if d is None else bool(d)
    return None


def fresh_hook(a, st, nm, rnm, rec, args, site, line):
    if rnm.endswith("CDFContext::new"):
        return [(st, mk("call", "FRESH", (a.value_of(st, args[0]),), None))]
    if nm.endswith("Default::default"):
        return [(st, sym("FRESH"))]
    return None


def sign(ctx):
    c = ctx.lib
    f = ctx.fn("FrameInvariants::set_ref_frame_sign_bias")
    for oh in (0, 1):
        for d in (-3, -1, 0, 1, 5):
            def call(a, st, nm, rnm, rec, args, site, line):
                if rnm.endswith("get_relative_dist"):
                    x = [show(a.value_of(st, y)) for y in args[-2:]]
                    ok_.append(x[1] == "self.order_hint" and x[0].endswith(
                        "@Some.0.order_hint"))
                    return [(st, K(d))]
                return None
            ok_ = []
            outs, a = run_cell(c, f, {"sequence*.enable_order_hint": K(oh)},
                               rel=None, ctx=ctx, call=call,
                               inline=lambda a, st, g: g.is_closure)
            ctx.ob(bool(outs), "sign-path", "set_ref_frame_sign_bias never "
                   "returns", f.loc())
            ctx.ob(all(ok_), "sign-dist", "the sign bias compares something "
                   "other than the reference's and the frame's order hints",
                   f.loc())
            for o in outs:
                for i in range(7):
                    v = o.st.load((("X", S), (".ref_frame_sign_bias",
                                              ("i", K(i)))))
                    slot = "self.rec_buffer.frames[self.ref_frames[%d]]" % i
                    e = sym_opt(o.st, slot)
                    w = int(bool(oh and d > 0 and e))
                    if oh and d > 0 and e is None:
                        ctx.violate("sign-slot", "the sign bias of reference "
                                    "%d does not depend on its slot" % i,
                                    f.loc())
                        continue
                    ctx.ob(v is K(w), "sign:%d%d" % (oh, d > 0),
                           "with %s and distance %d the sign bias of "
                           "reference %d is %s" % (
                               "order hints" if oh else "no order hints", d,
                               i, show(v)[:40]), f.loc())


# ---------------------------------------------------------------- filters
PASS = ("apply_tile_state", )


def filters(ctx):
    c = ctx.lib
    f = ctx.fn("encoder::encode_tile_group")
    for cdef in (0, 1):
        for lr in (0, 1):
            for lv in ((0, 0, 0, 0), (0, 0, 9, 9), (3, 0, 1, 1), (0, 4, 0, 0),
                       (5, 6, 0, 7)):
                one(ctx, c, f, cdef, lr, lv, 0)
    for dis in (0, 1):
        one(ctx, c, f, 1, 1, (3, 3, 0, 0), dis)


def one(ctx, c, f, cdef, lr, lv, dis):
    bad = []

    def ev(st, e):
        st.auto = (st.auto or ()) + (e,)

    def stage(st):
        return "+".join(e for e in st.auto or () if e in (
            "tiles", "deblock", "cdef", "restore"))

    def call(a, st, nm, rnm, rec, args, site, line):
        l = rnm.rsplit("::", 1)[-1]
        if l == "tile_iter_mut":
            if show(a.value_of(st, args[1])) != "fs":
                bad.append("tiles are coded into another frame state")
            ev(st, "tiles")
            return [(st, sym("TILES"))]
        if l == "deblock_filter_optimize":
            ev(st, "choose")
            return [(st, agg("array", None, None, tuple(
                "[%d]" % i for i in range(4)), tuple(K(x) for x in lv)))]
        if l == "deblock_filter_frame":
            d = a.value_of(st, args[0])
            if show(d) == "TS.deblock":
                d = st.load((("X", FS), (".deblock",)))
            got = [proj(proj(d, ".levels"), ("i", K(i))) for i in range(4)]
            if [x.a[0] if isk(x) else None for x in got] != list(lv):
                bad.append("the deblocking filter runs with levels %s" % [
                    show(x)[:40] for x in got])
            if show(a.value_of(st, args[1])) != "TS.rec":
                bad.append("the deblocking filter runs on %s" % show(
                    a.value_of(st, args[1]))[:60])
            ev(st, "deblock")
            return [(st, UNIT)]
        if l == "cdef_filter_tile":
            if show(a.value_of(st, args[1])) != want_copy:
                bad.append("cdef reads %s" % show(a.value_of(st, args[1]))[:60])
            if show(a.value_of(st, args[3])) != "TS.rec":
                bad.append("cdef writes %s" % show(
                    a.value_of(st, args[3]))[:60])
            ev(st, "cdef")
            return [(st, UNIT)]
        if l == "lrf_filter_frame":
            if show(args[0]) != "&fs.restoration":
                bad.append("restoration uses parameters %s" % show(
                    args[0])[:60])
            if show(a.value_of(st, args[2])) != want_copy:
                bad.append("restoration reads %s as the deblocked frame" %
                           show(a.value_of(st, args[2]))[:60])
            if "fs.rec" not in show(args[1]):
                bad.append("restoration writes %s" % show(args[1])[:60])
            ev(st, "restore")
            return [(st, UNIT)]
        if l == "clone" and args and show(args[0]) == "&fs.rec" or \
                l == "clone" and args and show(
                    a.value_of(st, args[0])) == "fs.rec":
            return [(st, sym("COPY(%s)" % stage(st)))]
        if rnm.endswith("TileStateMut::new"):
            st.put((("X", sym("TS")), (".deblock",)),
                   mk("ref", ("X", FS), (".deblock",), 1))
            return [(st, sym("TS"))]
        if l == "build_raw_tile_group":
            return [(st, sym("GROUP"))]
        if l == "next" and "IntoIter" in rnm:
            return [(st, NONE)]
        if l == "reset_counts":
            st.put(st.deref(args[0]), mk("call", "RESET", (
                a.value_of(st, args[0]),), None))
            return [(st, UNIT)]
        if l == "max_by_key" or l == "max_by":
            return [(st, some(agg("tuple", None, None, (".0", ".1"),
                                  (sym("IDX"), sym("LEN")))))]
        if l in ("as_tile", "as_const", "as_tile_blocks", "expect", "write",
                 "add_assign", "tile_count", "get_mut", "unwrap",
                 "into_par_iter", "collect", "zip"):
            v = a.value_of(st, args[0])
            if l == "write":
                return [(st, ok(sym("LOCK")))]
            if l in ("expect", "unwrap"):
                return None
            if l == "get_mut" and "Arc" in rnm:
                return [(st, some(args[0]))]
            if l == "add_assign":
                return [(st, UNIT)]
            return [(st, mk("call", l, (v,), None))]
        return None
    want_copy = "COPY(tiles%s)" % ("+deblock" if lv[0] or lv[1] else "")
    outs, a = run_cell(
        c, f, {"fi:sequence*.enable_restoration": K(lr),
               "fi:sequence*.enable_cdef": K(cdef),
               "fi:disable_frame_end_update_cdf": K(dis)}, rel=set(),
        args=[FI, FS, sym("ic")], ctx=ctx, call=call,
        inline=lambda a, st, g: "get_initial" not in g.nname and
        "FrameBlocks" not in g.nname and "TilingInfo" not in g.nname)
    want = ["tiles", "choose"] + ["deblock"] * bool(lv[0] or lv[1]) + \
        ["cdef"] * cdef + ["restore"] * lr
    nm = "cdef=%d restoration=%d levels=%s" % (cdef, lr, lv)
    ctx.ob(bool(outs), "filter-path", "encode_tile_group never returns",
           f.loc())
    for b in sorted(set(bad)):
        ctx.violate("filter-arg:" + b[:30], "with %s %s" % (nm, b), f.loc())
    for o in outs:
        ctx.ob(list(o.st.auto or ()) == want, "filter-order", "with %s the "
               "reconstruction goes through %s" % (nm, " > ".join(
                   o.st.auto or ())), f.loc())
        got = [o.st.load((("X", FS), (".deblock", ".levels", ("i", K(i)))))
               for i in range(4)]
        ctx.ob([x.a[0] if isk(x) else None for x in got] == list(lv),
               "filter-levels", "the chosen levels %s are recorded as %s" % (
                   lv, [show(x)[:30] for x in got]), f.loc())
        cd = o.st.load((("X", FS), (".cdfs",)))
        ix = o.st.load((("X", FS), (".context_update_tile_id",)))
        if dis:
            ctx.ob(show(cd) == "fs.cdfs", "cdf-disabled", "with the frame-end "
                   "update disabled the probabilities become %s" % show(
                       cd)[:60], f.loc())
            continue
        ctx.ob(show(ix) == "IDX", "cdf-tile", "the signalled context update "
               "tile is %s" % show(ix)[:80], f.loc())
        s = show(cd)
        ctx.ob(s.startswith("RESET(") and s.endswith("[IDX])"), "cdf-end",
               "the saved probabilities are %s instead of the signalled "
               "tile's with counters reset" % s[:120], f.loc())
        ctx.ob(ok_init(cd), "cdf-start", "the tiles start from %s" % s[:160],
               f.loc())


def ok_init(v):
    return any(x.k == "call" and str(x.a[0]).endswith(
        "get_initial_cdfcontext") and show(x.a[1][0]) == "fi"
        for x in subterms(v))


def tiles(ctx):
    """Each tile is coded once, with its own probabilities."""
    c = ctx.lib
    top = ctx.fn("encoder::encode_tile_group")
    n = 0
    for f in c.fns.values():
        if f.is_ext or not any(r["p"].endswith("encoder::encode_tile")
                               for _, r, _, _ in calls(f)):
            continue
        n += 1
        seen = []

        def call(a, st, nm, rnm, rec, args, site, line):
            if rnm.endswith("encoder::encode_tile"):
                b = [base(a, st, x) for x in args]
                seen.append(b)
                return [(st, sym("CODED"))]
            return None
        outs, a = run_cell(c, f, {}, rel=set(), call=call, ctx=ctx,
                           args=[sym("env"), sym("item")],
                           inline=lambda a, st, g: False)
        ctx.ob(len(seen) == 1 and all(show(o.ret) == "CODED" for o in outs),
               "tile-once", "a tile is coded %d times" % len(seen), f.loc())
        for s in seen:
            src = {"item.0"} if f.is_closure else set()
            ctx.ob(s[1] == s[3] != "?" and (not src or s[1] in src) and
                   (not src or s[2] == "item.1"), "tile-args", "a tile is coded with %s" %
                   s, f.loc())
    ctx.floor("tile_closures", n, 1)


def base(a, st, v):
    """The object a (reference to a) field belongs to."""
    import re
    if v.k == "ref":
        w = st.load((v.a[0], ()))
        s = show(w) if v.a[0][0] == "L" else show(v)
    else:
        s = show(v)
    m = re.search(r"item\.[01]", s)
    return m.group(0) if m else s[:40]


def frame(ctx):
    """encode_frame: segmentation is loaded before it is decided."""
    c = ctx.lib
    f = ctx.fn("encoder::encode_frame")
    for en in (0, 1):
        def call(a, st, nm, rnm, rec, args, site, line):
            l = rnm.rsplit("::", 1)[-1]
            if l == "get_initial_segmentation":
                return [(st, sym("INITSEG"))]
            if l == "segmentation_optimize":
                s = show(a.value_of(st, args[1]))
                v = proj(a.value_of(st, args[1]), ".segmentation")
                st.auto = (st.auto or ()) + ("seg:" + show(v),)
                st.put((("X", FS), (".segmentation",)), sym("SEG"))
                return [(st, UNIT)]
            if l == "encode_tile_group":
                v = proj(a.value_of(st, args[1]), ".segmentation")
                st.auto = (st.auto or ()) + ("tiles:" + show(v),)
                return [(st, sym("TG"))]
            if l in ("write_frame_header_obu",):
                v = st.load((("X", FS), (".segmentation",))) if \
                    show(args[2]) in ("fs", "&fs") else args[2]
                st.auto = (st.auto or ()) + ("header:" + show(v),)
                return [(st, ok(UNIT))]
            if "write" in l or l in ("unwrap", "next"):
                return [(st, ok(UNIT) if "write" in l else
                         NONE if l == "next" else UNIT)]
            return None
        outs, a = run_cell(c, f, {"fi:enable_segmentation": K(en),
                                  "fi:show_existing_frame": K(0)}, rel=set(),
                           args=[FI, FS, sym("ic")], ctx=ctx, call=call,
                           inline=lambda a, st, g: g.is_closure)
        want = ("seg:INITSEG", "tiles:SEG", "header:SEG") if en else (
            "tiles:fs.segmentation", "header:fs.segmentation")
        ctx.ob(bool(outs), "frame-path", "encode_frame never returns",
               f.loc())
        for o in outs:
            ctx.ob(o.st.auto == want, "frame-order:%d" % en, "encode_frame "
                   "goes through %s" % (o.st.auto,), f.loc())


# ------------------------------------------------- after a frame is coded
FT = "encoder::FrameType"
KINDS = ("none", "sef", "key", "coded")


def coded(ctx):
    c = ctx.lib
    f = ctx.fn("ContextInner::encode_normal_packet")
    for x in KINDS:
        for y in KINDS:
            for z in KINDS:
                propagate(ctx, c, f, (x, y, z))
    sequence(ctx, c, f)


def hooks(evs, kinds, bad):
    def call(a, st, nm, rnm, rec, args, site, line):
        l = rnm.rsplit("::", 1)[-1]
        if l == "remove" and show(args[0]) == "&self.frame_data":
            return [(st, some(some(sym("FD"))))]
        if l in ("encode_frame",):
            t = "CODED@%d" % site[1]
            if "CODED" in show(a.value_of(st, args[1])):
                bad.append("codes a frame on the state a trial left behind")
            st.put(st.deref(args[1]), sym(t))
            return [(st, sym("bytes:" + t))]
        if l in ("extend", "extend_from_slice", "append") and \
                show(args[0]) == "&self.packet_data":
            evs(st, "packet:" + show(a.value_of(st, args[1])))
            return [(st, UNIT)]
        if l == "pad":
            v = a.value_of(st, args[0])
            evs(st, "pad:%s:%s" % (show(v)[:80], ",".join(
                show(a.value_of(st, q))[:60] for q in args[1:])))
            return [(st, UNIT)]
        if l == "get_mut" and "Arc" in rnm:
            return [(st, some(args[0]))]
        if l == "update_rec_buffer":
            evs(st, "save:%s" % show(a.value_of(st, args[2])))
            v = a.value_of(st, args[1])
            st.put(st.deref(args[1]) + (), sym("FI2"))
            if show(args[0]) != "n":
                bad.append("saves the frame under number " + show(args[0]))
            return [(st, UNIT)]
        if l == "needs_trial_encode":
            return [(st, K(0)), (st.copy(), K(1))]
        if l in ("select_qi", "update_state", "set_quantizers",
                 "compute_spatiotemporal_scores", "compute_temporal_scores",
                 "get_frame_subtype", "fill_scales", "from_plane"):
            return [(st, sym("@" + l))]
        if l in ("iter_mut", "range_mut", "values_mut") and \
                show(args[0]) == "&self.frame_data":
            els = [(9, "coded")] + [(11 + i, k) for i, k in enumerate(kinds)]
            if l == "range_mut":
                lo = bound(a, st, args[1])
                if lo is None:
                    return None
                els = [e for e in els if e[0] >= lo]
            vals = []
            for n, k in els:
                st.put((("X", sym("key%d" % n)), ()), K(n))
                q = (("X", sym("el%d" % n)), ())
                st.put(q, NONE if k == "none" else some(agg(
                    "adt", "FD", "FD", (".fi", ".fs"),
                    (sym("fi%d" % n), sym("fs%d" % n)))))
                if k != "none":
                    st.put((q[0], ("@Some", ".0", ".fi", ".frame_type")),
                           agg("adt", FT, "KEY" if k == "key" else "INTER",
                               (), ()))
                    st.put((q[0], ("@Some", ".0", ".fi",
                                   ".coded_frame_data")),
                           NONE if k == "sef" else some(sym("CD")))
                r = mk("ref", q[0], (), 1)
                vals.append(r if l == "values_mut" else agg(
                    "tuple", None, None, (".0", ".1"), (mk(
                        "ref", ("X", sym("key%d" % n)), (), 0), r)))
            return [(st, mklist(vals))]
        if l == "set_ref_frame_sign_bias":
            evs(st, "bias:%s:%s" % (where(args[0]), show(proj(a.value_of(
                st, args[0]), ".rec_buffer"))))
            return [(st, UNIT)]
        if l == "finalize_packet":
            return [(st, sym("PACKET"))]
        return None
    return call


def where(v):
    import re
    m = re.search(r"(?:el|fi)(\d+)", show(v))
    return int(m.group(1)) if m else None


def bound(a, st, v):
    v = a.value_of(st, v)
    if v.k == "agg" and "RangeFrom" in str(v.a[1]) and isk(v.a[4][0]):
        return v.a[4][0].a[0]
    if v.k == "agg" and v.a[0] == "tuple":
        b = v.a[4][0]
        if b.k == "agg" and b.a[4] and isk(b.a[4][0]):
            return b.a[4][0].a[0] + (b.a[2] == "Excluded")
    return None


def propagate(ctx, c, f, kinds):
    bad = []

    def evs(st, e):
        if e.startswith("bias"):
            st.auto = (st.auto or ()) + (e,)
    if ctx.keys & {"next"}:
        return
    outs, a = run_cell(c, f, {}, rel=set(), ctx=ctx, args=[S, K(10)],
                       call=hooks(evs, kinds, []),
                       inline=lambda a, st, g: g.is_closure or
                       g.nname.endswith("is_show_existing_frame"))
    want = []
    for i, k in enumerate(kinds):
        if k == "key":
            break
        if k != "none":
            want.append(11 + i)
        if k == "coded":
            break
    ctx.ob(bool(outs), "next-path", "encode_normal_packet never returns",
           f.loc())
    for o in outs:
        b = tuple("bias:%d:FI2.rec_buffer" % n for n in want)
        ctx.ob((o.st.auto or ()) == b, "next", "with %s "
               "following, the new reference state is handed on as %s" % (
                   ", ".join(kinds), o.st.auto), f.loc())
        for i in range(3):
            n = 11 + i
            v = o.st.load((("X", sym("el%d" % n)), ()))
            if kinds[i] == "none":
                continue
            g = show(proj(proj(v.a[4][0], ".fi"), ".rec_buffer"))
            w = "FI2.rec_buffer" if n in want else "fi%d.rec_buffer" % n
            ctx.ob(g == w, "next-state", "with %s "
                   "following, frame %d gets reference state %s" % (
                       ", ".join(kinds), i + 1, g[:60]), f.loc())


def sequence(ctx, c, f):
    bad = []

    def evs(st, e):
        if not e.startswith("bias"):
            st.auto = (st.auto or ()) + (e,)
    outs, a = run_cell(c, f, {}, rel=set(), ctx=ctx, args=[S, N],
                       call=hooks(evs, (), bad),
                       inline=lambda a, st, g: g.is_closure)
    ctx.ob(bool(outs), "seq-path", "encode_normal_packet never returns",
           f.loc())
    for b in set(bad):
        ctx.violate("seq-arg", "encode_normal_packet " + b, f.loc())
    for o in outs:
        e = o.st.auto or ()
        k = [x.split(":")[0] for x in e]
        good = k.count("packet") == 1 and k.count("save") == 1 and \
            k.count("pad") == 1 and k.index("pad") < k.index("save")
        ctx.ob(good, "seq-order", "a coded frame goes through %s" % (k,),
               f.loc())
        if not good:
            continue
        p = e[k.index("packet")]
        s = e[k.index("save")]
        m = p.split("CODED@")[-1]
        ctx.ob("CODED@" in p and s.startswith("save:CODED@" + m),
               "seq-trial", "the packet carries %s while %s is kept as the "
               "reference" % (p, s[:60]), f.loc())
        q = e[k.index("pad")]
        ctx.ob(q.startswith("pad:CODED@" + m + ".rec:FD.fi.width,"
                            "FD.fi.height,") or
               q.startswith("pad:CODED@" + m + ".rec:") and
               ".width," in q and ".height," in q,
               "seq-pad", "before it is saved the frame goes through %s" %
               q[:100], f.loc())


def shown(ctx):
    """A shown existing frame leaves the reference state alone."""
    c = ctx.lib
    f = ctx.fn("ContextInner::encode_show_existing_packet")
    for g in [f] + [x for x in c.fns.values() if x.nname.endswith(
            "encoder::encode_show_existing_frame")]:
        for h in (g,):
            for _, r, _, ln in calls(h):
                ctx.ob(not norm_p(r).endswith("update_rec_buffer"),
                       "shown-save", "%s updates the reference slots" %
                       h.nname, h.loc(ln))


def norm_p(r):
    return r.get("rp") or r["p"]


def owners(ctx):
    """Who may change a frame's reference state."""
    c = ctx.lib
    n = 0
    for f, line, rv in field_writes(c, "encoder::FrameInvariants",
                                    "rec_buffer"):
        n += 1
        ok_ = "ContextInner" in f.nname or "FrameInvariants" in f.nname or \
            f.nname.startswith("encoder::")
        ctx.ob(ok_, "owner:" + f.nname, "%s replaces a frame's reference "
               "state" % f.nname, f.loc(line))
    ctx.floor("rec_buffer_writers", n, 3)
    # the look-ahead must not touch the frame about to be coded
    f = ctx.fn("ContextInner::compute_lookahead_motion_vectors")

    def call(a, st, nm, rnm, rec, args, site, line):
        l = rnm.rsplit("::", 1)[-1]
        if l == "get" and show(args[0]) == "&self.frame_data":
            st.put((("X", sym("EL")), ()), some(sym("FD")))
            return [(st, some(mk("ref", ("X", sym("EL")), (), 0)))]
        if l == "get_mut" and show(args[0]) == "&self.frame_data":
            st.put((("X", sym("EL")), ()), some(sym("FD")))
            return [(st, some(mk("ref", ("X", sym("EL")), (), 1)))]
        if l == "is_show_existing_frame":
            return [(st, K(0))]
        if l in ("select_qi", "get_frame_subtype", "set_quantizers"):
            if l == "set_quantizers":
                st.auto = "touched"
            return [(st, sym("@" + l))]
        if l == "compute_motion_vectors":
            return [(st, UNIT)]
        return None
    for cur, n in ((5, 5), (5, 6), (4, 9)):
        outs, a = run_cell(c, f, {"output_frameno": K(cur)}, rel=set(),
                           ctx=ctx, args=[S, K(n)], call=call,
                           inline=lambda a, st, g: g.is_closure)
        ctx.ob(bool(outs), "look-path", "the look-ahead never returns",
               f.loc())
        for o in outs:
            v = o.st.load((("X", sym("EL")), ()))
            g = show(proj(proj(v.a[4][0], ".fi"), ".rec_buffer"))
            t = o.st.auto == "touched"
            if cur == n:
                ctx.ob(g == "FD.fi.rec_buffer" and not t, "look-current",
                       "the look-ahead changes the frame about to be coded: "
                       "its reference state becomes %s" % g[:80], f.loc())


def calls(f):
    for b, rec, args, _, _, line in f.calls():
        if rec is not None:
            yield b, rec, args, line

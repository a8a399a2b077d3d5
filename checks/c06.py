"""C06: packet framing."""
from sa.val import *
from sa.gate import *
from sa.buf import *
from sa.report import Missing

RULE = """Abstract interpretation of the packet assembly with byte buffers as
abstract sequences: on every path the packet must be exactly the OBU sequence
the configuration calls for (sequence header and HDR metadata on key frames,
the frame's T.35 messages, then the frame or show-existing header), each OBU
preceded by its own header and a size field equal to the length of the bytes
that follow, with the frame header written after the tiles are coded."""
ASSUME = ["the length of a byte vector is the number of bytes written to it"]

TD_BYTES = [0x12, 0x00]


def expected(c, fi_, kind, key, cll, mdcv, t35):
    MT, OT = c.adt("ObuMetaType")["adt"], c.adt("ObuType")["adt"]
    ot = lambda n: agg("adt", OT, n, (), ())
    out = []
    if key:
        s = [item("write_sequence_header_obu", sym("fi")),
             item("write_bit", K(1)), item("byte_align")]
        out += [item("write_obu_header", ot("OBU_SEQUENCE_HEADER"), K(0)),
                item("write_uleb128", bytelen(buf(*s)))] + s
        if cll:
            out.append(item("write_sequence_metadata_obu",
                            agg("adt", MT, "OBU_META_HDR_CLL", (), ())))
        if mdcv:
            out.append(item("write_sequence_metadata_obu",
                            agg("adt", MT, "OBU_META_HDR_MDCV", (), ())))
    out += [item("write_t35_metadata_obu", t) for t in t35]
    h = [item("write_frame_header_obu", sym("fi"))]
    tg = [item("tile_group")] if kind == "frame" else []
    out.append(item("write_obu_header", ot(
        "OBU_FRAME" if kind == "frame" else "OBU_FRAME_HEADER"), K(0)))
    ln = bytelen(buf(*h))
    if tg:
        ln = op("Add", ln, bytelen(buf(*tg)))
    out.append(item("write_uleb128", ln))
    return out + h + tg


def run(ctx):
    c = ctx.lib
    FTP = c.adt("FrameType")["adt"]
    root = lambda a, st, v: sym("fi") if v is sym("fi") or (
        v.k == "ref" and v.a[0] == ("X", sym("fi")) and not v.a[1]) else v
    for kind, name in (("frame", "encode_frame"),
                       ("existing", "encode_show_existing_frame")):
        f = ctx.fn(name)
        for ft in ("KEY", "INTER", "INTRA_ONLY", "SWITCH"):
            for cll in (0, 1):
                for mdcv in (0, 1):
                    for nt in (0, 1, 2):
                        t35 = [sym("t35_%d" % i) for i in range(nt)]
                        prims = {
                            "write_obu_header": lambda a, st, x: x,
                            "write_uleb128": lambda a, st, x: x,
                            "write_sequence_header_obu":
                                lambda a, st, x: [root(a, st, x[0])],
                            "write_sequence_metadata_obu":
                                lambda a, st, x: [x[0]],
                            "write_t35_metadata_obu":
                                lambda a, st, x: [a.value_of(st, x[0])],
                            "write_frame_header_obu":
                                lambda a, st, x: [root(a, st, x[0])],
                        }
                        H = BufHooks(prims)
                        late = []

                        def call(a, st, nm, rnm, rec, args, site, line):
                            last = nm.rsplit("::", 1)[-1]
                            if last == "encode_tile_group":
                                st.auto = "coded"
                                return [(st, buf(item("tile_group")))]
                            if last == "write_frame_header_obu" and \
                                    st.auto != "coded" and kind == "frame":
                                late.append(line)
                            if last in ("segmentation_optimize",
                                        "get_initial_segmentation",
                                        "copy_from_slice"):
                                return [(st, sym(last))]
                            return H(a, st, nm, rnm, rec, args, site, line)
                        some_ = lambda on, n: some(sym(n)) if on else NONE
                        cell = {
                            "frame_type": agg("adt", FTP, ft, (), ()),
                            "sequence*.content_light": some_(cll, "cll"),
                            "sequence*.mastering_display": some_(mdcv, "md"),
                            "t35_metadata": agg("array", None, None, (), t35),
                        }
                        outs, a = run_cell(
                            c, f, cell, rel=set(), root="fi", call=call,
                            ctx=ctx, args=[sym("fi"), sym("fs"),
                                           sym("inter_cfg")],
                            inline=lambda a, st, g: not g.nname.endswith(
                                "::pad"))
                        want = expected(c, "fi", kind, ft == "KEY", cll,
                                        mdcv, t35)
                        key = "%s %s cll=%d mdcv=%d t35=%d" % (
                            name, ft, cll, mdcv, nt)
                        ctx.ob(bool(outs), "reach:" + name,
                               "%s produces no packet" % name, f.loc())
                        for o in outs:
                            got = list(o.ret.a[4]) if is_buf(o.ret) else None
                            ctx.ob(got == want, "packet:%s %s" % (
                                name, "KEY" if ft == "KEY" else "other"),
                                "packet of %s is %s instead of %s" % (
                                    key, first_diff(got, want),
                                    "the expected OBU sequence"), f.loc())
                        for l in late:
                            ctx.violate("header-early:" + name,
                                        "the frame header is written before "
                                        "the tiles are coded", f.loc(l))
                        for w, l in H.lost:
                            ctx.violate("lost:" + w, "%s writes to a buffer "
                                        "that is not part of the packet" % w,
                                        f.loc(l))
        ctx.sample("%s: %d items in the largest packet" % (name, len(want)))
    delimiter(ctx)
    tile_group(ctx)


def first_diff(got, want):
    if got is None:
        return "not a tracked buffer"
    for i, w in enumerate(want):
        if i >= len(got):
            return "missing " + show(w)[:80]
        if got[i] is not w:
            return "%s at position %d (expected %s)" % (
                show(got[i])[:120], i, show(w)[:120])
    return "extra " + show(got[len(want)])[:100] if len(got) > len(want) \
        else "equal"


def delimiter(ctx):
    """Every temporal unit starts with exactly one temporal delimiter."""
    c = ctx.lib
    td = c.const("TEMPORAL_DELIMITER")["val"]
    flat = td if isinstance(td, list) else td
    ctx.ob(list(map(int, flatten(flat))) == TD_BYTES, "td-bytes",
           "the temporal delimiter OBU is %s" % (flat,))
    f = ctx.fn("write_temporal_delimiter")
    H = BufHooks({})
    outs, a = run_cell(c, f, {"": buf(sym("before"))}, rel=set(),
                       root="packet", call=H, ctx=ctx,
                       args=[sym("packet")])
    good = 0
    for o in outs:
        if variant(o.ret)[0] == "Ok":
            v = o.st.load((("X", sym("packet")), ()))
            its = list(v.a[4]) if is_buf(v) else []
            good += 1
            ctx.ob(len(its) == 2 + 1 and its[0] is sym("before") and
                   [x.a[0] for x in its[1:] if isk(x)] == TD_BYTES or
                   len(its) == 2 and "TEMPORAL_DELIMITER" in show(its[1]),
                   "td-write", "the temporal delimiter is written as %s" %
                   [show(x)[:40] for x in its], f.loc())
    ctx.ob(good > 0, "td-reach", "no delimiter can be written", f.loc())
    # finalize: hand out what was accumulated, start the next unit with a TD
    f = ctx.fn("ContextInner::finalize_packet")
    data = buf(sym("unit"))

    def call(a, st, nm, rnm, rec, args, site, line):
        if nm.endswith("write_temporal_delimiter"):
            append(a, st, args[0], [item("TD")])
            s2 = st.copy()
            return [(st, ok(UNIT)), (s2, err(sym("io")))]
        return H(a, st, nm, rnm, rec, args, site, line)
    outs, a = run_cell(c, f, {"packet_data": data}, rel=set(), call=call,
                       ctx=ctx)
    n = 0
    for o in outs:
        k, p = variant(o.ret)
        left = o.st.load((("X", sym("self")), (".packet_data",)))
        if k == "Ok":
            n += 1
            d = proj(p, ".data")
            ctx.ob(is_buf(d) and list(d.a[4]) == [sym("unit")],
                   "unit-data", "a packet does not carry exactly the bytes "
                   "accumulated for its temporal unit: %s" % show(d)[:100],
                   f.loc())
            ctx.ob(is_buf(left) and list(left.a[4]) == [item("TD")],
                   "unit-next", "the next temporal unit does not start with "
                   "exactly one temporal delimiter: %s" % show(left)[:100],
                   f.loc())
            fp = o.st.load((("X", sym("self")), (".frames_processed",)))
            ctx.ob(fp is op("Add", fld0("self", ".frames_processed"), K(1)),
                   "unit-count", "a delivered packet does not count as one "
                   "processed frame: %s" % show(fp)[:60], f.loc())
            for nm in ("rec", "source", "input_frameno", "frame_type", "qp",
                       "enc_stats"):
                v = proj(p, "." + nm)
                ctx.ob(path(v) == nm, "unit-field:" + nm,
                       "packet field %s is %s" % (nm, show(v)[:60]), f.loc())
    ctx.ob(n > 0, "unit-reach", "no packet is ever finalised", f.loc())
    # the first unit starts with a TD too
    f = ctx.fn("ContextInner::new")
    outs, a = run_cell(
        c, f, {}, rel=set(), root="enc", args=[sym("enc")], ctx=ctx,
        inline=lambda a, st, g: False,
        call=lambda a, st, nm, rnm, rec, args, site, line:
        call(a, st, nm, rnm, rec, args, site, line))
    for o in outs:
        pd = proj(o.ret, ".packet_data")
        ctx.ob(is_td(pd), "unit-first",
               "a new encoder does not start with exactly one temporal "
               "delimiter: %s" % show(pd)[:100], f.loc())
    ctx.ob(bool(outs), "unit-first-reach", "no encoder can be built", f.loc())


def is_td(v):
    if is_buf(v):
        its = list(v.a[4])
        if its == [item("TD")]:
            return True
        return [x.a[0] for x in its if isk(x)] == TD_BYTES == \
            [x.a[0] if isk(x) else None for x in its]
    if v.k == "call" and v.a[0].rsplit("::", 1)[-1] in (
            "to_vec", "from", "into", "to_owned") and len(v.a[1]) == 1:
        return is_td(v.a[1][0])
    return v.k in ("ref", "sym", "static", "call") and \
        "TEMPORAL_DELIMITER" in show(v)


def flatten(x):
    if isinstance(x, (list, tuple)):
        for y in x:
            yield from flatten(y)
    elif isinstance(x, dict):
        for y in x.values():
            yield from flatten(y)
    else:
        yield x


def fld0(root, *path_):
    from sa.ae import State
    return State().load((("X", sym(root)), tuple(path_)))


def tile_group(ctx):
    """tile_group_obu(): flag, alignment, sizes of all but the last tile."""
    c = ctx.lib
    f = ctx.fn("build_raw_tile_group")
    for cols, rows in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 1)):
        n = cols * rows
        tiles = agg("array", None, None, (), [buf(sym("tile%d" % i))
                                             for i in range(n)])
        H = BufHooks({"write_le": lambda a, st, x: x})
        outs, a = run_cell(c, f, {"ti:cols": K(cols), "ti:rows": K(rows),
                                  "raw_tiles:": tiles}, rel=set(),
                           root="ti", call=H, ctx=ctx,
                           args=[sym("ti"), mk("ref", ("C", tiles), (), 0),
                                 sym("size_bytes")])
        want = []
        if n > 1:
            want.append(item("write_bit", K(0)))
        want.append(item("byte_align"))
        for i in range(n):
            t = buf(sym("tile%d" % i))
            if i < n - 1:
                want.append(item("write_le", sym("size_bytes"),
                                 op("Add", bytelen(t), K(-1))))
            want.append(sym("tile%d" % i))
        for o in outs:
            got = list(o.ret.a[4]) if is_buf(o.ret) else None
            ctx.ob(got == want, "tile-group:%dx%d" % (cols, rows),
                   "the tile group of %dx%d tiles has %s" % (
                       cols, rows, first_diff(got, want)), f.loc())
        ctx.ob(bool(outs), "tile-group-reach:%dx%d" % (cols, rows),
               "no tile group for %dx%d tiles" % (cols, rows), f.loc())

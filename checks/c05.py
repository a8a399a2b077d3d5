"""C05: metadata OBU syntax, OBU headers and variable-length codes."""
from sa.val import *
from sa.gram import *
from sa.gate import run_cell
from sa import ae as _ae
from sa.report import Missing

RULE = """Lock-step abstract interpretation of the OBU header, metadata OBU and
variable-length code writers against their AV1 grammars (obu_header,
metadata_hdr_cll, metadata_hdr_mdcv, metadata_itut_t35, leb128, le(n), ns(n)).
The declared payload length must equal the number of bytes the grammar gives
the payload; the codes are decided cell by cell on constants."""
ASSUME = ["leb128 and ns(n) are decided on the listed constant cells"]

OBU = {"OBU_SEQUENCE_HEADER": 1, "OBU_TEMPORAL_DELIMITER": 2,
       "OBU_FRAME_HEADER": 3, "OBU_TILE_GROUP": 4, "OBU_METADATA": 5,
       "OBU_FRAME": 6, "OBU_REDUNDANT_FRAME_HEADER": 7, "OBU_TILE_LIST": 8,
       "OBU_PADDING": 15}


def header(t, ext=0):
    return [F("obu_forbidden_bit", 1, 0), F("obu_type", 4, t),
            F("obu_extension_flag", 1, 0), F("obu_has_size_field", 1, 1),
            F("obu_reserved_1bit", 1, 0)]


def run(ctx):
    c = ctx.lib
    T = Types(c)
    f = ctx.fn("write_obu_header")
    OT = c.adt("ObuType")
    for n, d, _ in OT["variants"]:
        ctx.ob(OBU.get(n) == d, "obu-type:" + n,
               "%s has the wire code %s" % (n, d), f.loc())
        check(ctx, "OBU header " + n, f, header(OBU.get(n, -1)),
              args=[sym("self"), agg("adt", OT["adt"], n, (), ()), K(0)])
    MT = c.adt("ObuMetaType")
    meta = lambda v: agg("adt", MT["adt"], v, (), ())
    f = ctx.fn("write_sequence_metadata_obu")
    seq_ = lambda p: fld("seq", p)
    cll = lambda p: seq_("content_light@Some.0." + p)
    md = lambda p: seq_("mastering_display@Some.0." + p)
    OPT = "std::option::Option"
    cell = {"seq:content_light": some(fld("seq", "content_light@Some.0")),
            "seq:mastering_display": some(fld("seq",
                                              "mastering_display@Some.0"))}
    check(ctx, "content light metadata", f, lambda: header(5) + [
        E("write_uleb128", 6), E("write_uleb128", 1),
        F("max_cll", 16, cll("max_content_light_level")),
        F("max_fall", 16, cll("max_frame_average_light_level")),
        F("trailing_one_bit", 1, 1), E("align")],
        prims=("write_uleb128",), cell=cell,
        args=[sym("self"), meta("OBU_META_HDR_CLL"), sym("seq")])
    prim = []
    for i in range(3):
        for xy in "xy":
            prim.append(("primary_%s[%d]" % (xy, i), i, xy))
    check(ctx, "mastering display metadata", f, lambda: header(5) + [
        E("write_uleb128", 26), E("write_uleb128", 2)] + [
        F(n, 16, proj(idx(md("primaries"), i), "." + xy))
        for n, i, xy in prim] + [
        F("white_point_x", 16, md("white_point.x")),
        F("white_point_y", 16, md("white_point.y")),
        F("luminance_max", 32, md("max_luminance")),
        F("luminance_min", 32, md("min_luminance")),
        F("trailing_one_bit", 1, 1), E("align")],
        prims=("write_uleb128",), cell=cell,
        args=[sym("self"), meta("OBU_META_HDR_MDCV"), sym("seq")])
    f = ctx.fn("write_t35_metadata_obu")
    ln = None

    def len_of(k):
        return lambda: header(5) + [
            If(op("Eq", fld("t35", "country_code"), K(255)),
               [E("write_uleb128", k + 4)], [E("write_uleb128", k + 3)]),
            E("write_uleb128", 4),
            F("itu_t_t35_country_code", 8, fld("t35", "country_code")),
            If(op("Eq", fld("t35", "country_code"), K(255)),
               [F("country_code_extension_byte", 8,
                  fld("t35", "country_code_extension_byte"))]),
            E("bytes", fld("t35", "data")),
            F("trailing_one_bit", 1, 1), E("align")]
    for k in (0, 1, 3, 200):
        data = agg("array", None, None, (),
                   [sym("d%d" % i) for i in range(k)])
        check(ctx, "T.35 metadata", f, len_of(k), prims=("write_uleb128",),
              cell={"t35:data": data}, args=[sym("self"), sym("t35")])
    leb(ctx)
    le(ctx)
    ns(ctx)


def leb(ctx):
    f = ctx.fn("write_uleb128")
    for n in (0, 1, 2, 127, 128, 129, 255, 256, 300, 16383, 16384, 16385,
              65535, 2097151, 2097152, 268435455, 268435456, (1 << 31),
              (1 << 32) - 1):
        x, want = n, []
        while True:
            b = x & 0x7f
            x >>= 7
            want.append(b | (0x80 if x else 0))
            if not x:
                break
        got = []

        def call(a, st, nm, rnm, rec, args, site, line):
            last = nm.rsplit("::", 1)[-1]
            if last == "new" and ("ArrayVec" in nm or nm.endswith("Vec::new")):
                return [(st, agg("array", None, None, (), []))]
            if last == "push":
                r = args[0]
                v = st.load((r.a[0], r.a[1]))
                if v.k == "agg":
                    st.put((r.a[0], r.a[1]), agg(
                        "array", None, None, (), list(v.a[4]) + [args[1]]))
                    return [(st, UNIT)]
                return None
            ev = bitio_event(a, st, nm, rec, args)
            if ev is None:
                return None
            if ev[0] == "E" and ev[1] == "bytes":
                v = ev[2][0]
                st.evs = st.evs + tuple(v.a[4] if v.k == "agg" else (v,))
            elif ev[0] == "F":
                st.evs = st.evs + ((ev[1], ev[2]),) if ev[1] is not K(8) \
                    else st.evs + (ev[2],)
            return [(st, ok(UNIT))]
        outs, a = run_cell(ctx.lib, f, {}, args=[sym("self"), K(n)],
                           rel=set(), call=call, ctx=ctx)
        good = len(outs) == 1 and \
            [v.a[0] if isinstance(v, V) and isk(v) else None
             for v in outs[0].st.evs] == want
        ctx.ob(good, "leb128:%d" % n, "leb128(%d) is written as %s, not %s" %
               (n, [show(v) if isinstance(v, V) else str(v) for o in outs
                    for v in o.st.evs][:10], want), f.loc())


def le(ctx):
    f = ctx.fn("write_le")
    b = sym("bytes")
    seen = []

    def call(a, st, nm, rnm, rec, args, site, line):
        if nm.endswith("BitWriter::endian") or nm.endswith("::endian"):
            ts = [ctx.lib.tystr(x) for x in rec["a"] if type(x) is int]
            seen.append(any("LittleEndian" in t for t in ts))
        return None
    m = check(ctx, "little-endian field", f, [
        F("value", op("Mul", b, K(8)), sym("value")), E("bytes", None)],
        args=[sym("self"), b, sym("value")], call=call)
    ctx.ob(any(seen), "le:endian", "the little-endian writer does not use a "
           "little-endian bit writer", f.loc())


def ns(ctx):
    fs = [g for g in ctx.lib.find("write_quniform") if "BitWriter" in g.nname]
    if len(fs) != 1:
        raise Missing("write_quniform on the bit writer")
    f = fs[0]
    cells = [(n, v) for n in range(1, 18) for v in range(n)]
    cells += [(n, v) for n in (31, 32, 33, 63, 64, 65, 127, 128, 255, 256,
                               511) for v in (0, 1, n // 2, n - 2, n - 1)]
    for n, v in cells:
        if n > 1:
            w = n.bit_length()
            m = (1 << w) - n
            if v < m:
                g = [F("ns", w - 1, v)]
            else:
                g = [F("ns", w - 1, m + ((v - m) >> 1)),
                     F("extra_bit", 1, (v - m) & 1)]
        else:
            g = []
        check(ctx, "ns(%d)=%d" % (n, v), f, g, args=[sym("self"), K(n), K(v)])
    ctx.counts["ns_cells"] = len(cells)

"""C07: container sequence header (av1C)."""
from sa.val import *
from sa.gram import *
from sa.gate import run_cell, variant
from sa.prog import norm

RULE = """Lock-step abstract interpretation of every container-header writer
against the AV1CodecConfigurationRecord grammar (ISOBMFF binding of AV1); each
field's value must be the one the sequence header carries for the same
sequence parameters, and the sequence is built from the very configuration the
encoder was created with."""
ASSUME = ["Sequence::new is the single source of sequence parameters (C03)"]


def grammar(c, T, csv):
    s = lambda p: csv if p == "chroma_sampling" else sym("seq." + p)
    cs = s("chroma_sampling")
    mono, c420, c444 = (T.is_(cs, "ChromaSampling", n) for n in (
        "Cs400", "Cs420", "Cs444"))
    return [
        F("marker", 1, 1), F("version", 7, 1),
        F("seq_profile", 3, s("profile")),
        F("seq_level_idx_0", 5, idx(s("level_idx"), 0)),
        F("seq_tier_0", 1, op("Ne", idx(s("tier"), 0), K(0))),
        F("high_bitdepth", 1, op("Gt", s("bit_depth"), K(8))),
        F("twelve_bit", 1, op("Eq", s("bit_depth"), K(12))),
        F("monochrome", 1, mono),
        F("chroma_subsampling_x", 1, Not(c444)),
        F("chroma_subsampling_y", 1, Or(c420, mono)),
        If(c420, [F("chroma_sample_position", 2,
                    T.discr(s("chroma_sample_position"),
                            "ChromaSamplePosition"))],
           [F("chroma_sample_position", 2, 0)]),
        F("reserved", 3, 0), F("initial_presentation_delay_present", 1, 0),
        F("reserved2", 4, 0)]


def run(ctx):
    c = ctx.lib
    T = Types(c)
    fs = [f for f in c.fns.values() if not f.is_ext and not f.is_closure and
          f.nname.endswith("::container_sequence_header")]
    ctx.floor("writers", len(fs), 2)
    CS = c.adt("ChromaSampling")
    for f in fs:
        src = []
        cur = [None]

        def call(a, st, nm, rnm, rec, args, site, line):
            if rnm.endswith("Sequence::new"):
                src.append(a.value_of(st, args[0]))
                S = c.adt("encoder::Sequence")
                fl = [x[0] for x in S["variants"][0][2]]
                return [(st, agg("adt", S["adt"], None,
                                 ["." + x for x in fl],
                                 [cur[0] if x == "chroma_sampling" else
                                  sym("seq." + x) for x in fl]))]
            if nm in ("std::vec::Vec::new", "std::vec::Vec::with_capacity"):
                return [(st, sym("buf"))]
            return None
        for name, d, _ in CS["variants"]:
            cur[0] = agg("adt", CS["adt"], name, (), ())
            check(ctx, "container header of " + owner(f), f,
                  grammar(c, T, cur[0]), args=[sym("self")], call=call,
                  final=None)
        ctx.ob(bool(src), "source:" + owner(f), "the header is not built from "
               "the sequence parameters", f.loc())
        for v in src:
            p = show(strip(v))
            ctx.ob("config" in p and "self" in p, "source:" + owner(f),
                   "the header describes %s instead of the encoder's "
                   "configuration" % p[:80], f.loc())
    # the configuration the accessor reads is the one encoded with
    n = 0
    for f in c.fns.values():
        if f.is_ext or f.nname.endswith("::clone"):
            continue
        for b, bb in enumerate(f.bbs):
            if bb is None:
                continue
            for s in bb[0]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1] == "adt":
                    p = norm(s[2][2][0])
                    if p.endswith("::Context") and "api::context" in p or \
                            p.endswith("::PacketReceiver"):
                        n += 1
                        literal(ctx, c, f, p.rsplit("::", 1)[-1])
    ctx.floor("owners", n, 3)


def literal(ctx, c, f, ty):
    """Interpret the constructor; config must come from self.enc unchanged."""
    if f.is_closure:
        ctx.violate("owner:" + f.nname, "an encoder front end is built in a "
                    "closure", f.loc())
        return
    val = ctx.fn("Config::validate")
    seen = []

    def call(a, st, nm, rnm, rec, args, site, line):
        last = nm.rsplit("::", 1)[-1]
        if rnm == val.nname:
            return [(st, ok(UNIT))]
        if last in ("spawn", "spawn_fifo", "new_thread_pool", "bounded",
                    "unbounded"):
            return [(st, sym(last))]
        if last == "setup" or last == "new_inner":
            return [(st, ok(sym("inner")))]
        return None
    outs, a = run_cell(c, f, {}, rel=set(), call=call, ctx=ctx,
                       inline=lambda a, st, g: False)
    got = 0
    for o in outs:
        k, v = variant(o.ret)
        if k != "Ok":
            continue
        for x in subterms(v):
            if x.k == "agg" and x.a[1] and x.a[1].endswith("::" + ty):
                got += 1
                cf = show(strip(proj(x, ".config")))
                ctx.ob("enc" in cf and "self" in cf or cf == "inner.config",
                       "owner:" + f.nname,
                       "%s keeps %s as its configuration" % (ty, cf[:80]),
                       f.loc())
    ctx.ob(got > 0, "owner-found:" + f.nname, "no %s constructed by %s can be "
           "traced" % (ty, f.nname), f.loc())


def owner(f):
    return "Context" if "Context" in f.nname else "PacketReceiver"

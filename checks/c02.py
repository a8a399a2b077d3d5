"""C02: every encoder instance is created behind the configuration gate."""
from sa.val import *
from sa.gate import *
from sa.prog import norm

RULE = """Typestate over every public constructor: each method of the
configuration type whose Ok result carries an encoder or a channel is
abstractly interpreted (crate-local callees inlined) with the validator as a
two-way event.  Building the inner encoder, spawning work and returning Ok are
only allowed in the state 'validated on this very configuration'; the
rate-control mode of the constructor must match the configuration in all four
combinations.  Struct literals of the encoder types are only allowed inside
the functions covered by the typestate rule."""
ASSUME = ["library calls outside the crate (rayon, crossbeam) do not build "
          "an encoder"]

SPAWN = ("spawn_fifo", "spawn")


def run(ctx):
    c = ctx.lib
    val = ctx.fn("Config::validate")
    inner_new = ctx.fn("ContextInner::new")
    gates = {  # constructor -> predicate(emit, summary) accepted
        "new_context": lambda e, s: True,
        "new_channel": lambda e, s: not e and not s,
        "new_firstpass_channel": lambda e, s: e and not s,
        "new_secondpass_channel": lambda e, s: not e and s,
        "new_multipass_channel": lambda e, s: e and s,
        "new_by_gop_channel": lambda e, s: not e and not s,
    }
    cfgadt = val.nname.rsplit("::", 1)[0]
    ctors = []
    for f in c.fns.values():
        if f.is_ext or f.is_closure or not f.d.get("reach"):
            continue
        t = c.types[f.locals[0]]
        if "InvalidConfig" in t["s"] and f.nargs >= 1 and \
                "config::Config" in c.tystr(f.locals[1]) and \
                not t["s"].replace(" ", "").startswith(
                    "std::result::Result<(),"):
            ctors.append(f)
    ctx.floor("constructors", len(ctors), 6)
    anchor = sym("self")

    for f in sorted(ctors, key=lambda f: f.nname):
        short_ = f.nname.rsplit("::", 1)[-1]
        for emit in (0, 1):
            for summ in (0, 1):
                bad = []

                def call(a, st, name, rname, rec, args, site, line):
                    last = name.rsplit("::", 1)[-1]
                    if name == val.nname or rname == val.nname:
                        s2 = st.copy()
                        on = a.value_of(st, args[0])
                        good = st.copy()
                        src = args[0]
                        hit = (src is anchor) or (
                            src.k == "ref" and src.a[0] == ("X", anchor)
                            and not src.a[1])
                        if hit:
                            good.auto = "validated"
                        return [(good, ok(UNIT)), (s2, err(sym("invalid")))]
                    if name == inner_new.nname or rname == inner_new.nname:
                        if st.auto != "validated":
                            bad.append(("encoder built", line))
                        return [(st, sym("inner"))]
                    if last in SPAWN and ("rayon" in name or
                                          "thread" in name):
                        if st.auto != "validated":
                            bad.append(("work spawned", line))
                        return [(st, UNIT)]
                    return None

                def inl(a, st, g):
                    return not g.is_closure and (
                        "InvalidConfig" in c.tystr(g.locals[0]))
                cell = {
                    "rate_control.emit_pass_data": f_set(emit),
                    "rate_control.summary":
                        some(sym("summary")) if summ else NONE,
                }
                outs, a = run_cell(c, f, cell, rel=set(), inline=inl,
                                   call=call, ctx=ctx, auto="fresh",
                                   args=[anchor])
                key = "%s emit=%d summary=%d" % (short_, emit, summ)
                for w, line in bad:
                    ctx.violate("ungated:%s:%s" % (short_, w),
                                "%s before the configuration was validated "
                                "in %s" % (w, short_), f.loc(line))
                res = {}
                for o in outs:
                    res.setdefault(err_name(o.ret), []).append(o)
                oks = res.get("Ok", [])
                for o in oks:
                    ctx.ob(o.st.auto == "validated", "ok-unvalidated:" +
                           short_, "%s can return an encoder for a "
                           "configuration it did not validate" % short_,
                           f.loc())
                if short_ in gates:
                    want = gates[short_](emit, summ)
                    mm = "Err:RateControlConfigurationMismatch" in res
                    ctx.ob(bool(oks) == bool(want), "rc-mode:" + key,
                           "%s with pass-data emission %s and summary %s must "
                           "be %s" % (short_, bool(emit), bool(summ),
                                      "accepted" if want else "refused"),
                           f.loc())
                    ctx.ob(mm == (not want), "rc-error:" + key,
                           "rate-control mismatch error %s for %s" % (
                               "missing" if not want else "raised", key),
                           f.loc())
                ctx.sample("%s -> %s" % (key, sorted(map(str, res))))

    # struct literals of the encoder types
    covered = {inner_new.key}
    g = c.callgraph()
    for f in ctors:
        covered.add(f.key)
    ch = True
    while ch:
        ch = False
        for f in c.fns.values():
            if f.key in covered:
                for k in g.get(f.key, ()):
                    h = c.fns[k]
                    if k not in covered and "InvalidConfig" in \
                            c.tystr(h.locals[0]):
                        covered.add(k)
                        ch = True
    n = 0
    for f in c.fns.values():
        if f.is_ext:
            continue
        for b, bb in enumerate(f.bbs):
            if bb is None:
                continue
            for s in bb[0]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1] == "adt":
                    p = norm(s[2][2][0])
                    if p.endswith("api::internal::ContextInner") or \
                            p.endswith("api::context::Context"):
                        n += 1
                        ctx.ob(f.key in covered, "literal:" + f.nname,
                               "%s builds an encoder value outside the "
                               "gated constructors" % f.nname, f.loc())
    ctx.floor("encoder_literals", n, 2)

    # the inner encoder is only ever built by gated functions
    for k in c.callers().get(inner_new.key, ()):
        h = c.fns[k]
        ctx.ob("InvalidConfig" in c.tystr(h.locals[0]) or k in covered or
               h.is_closure and False,
               "caller:" + h.nname, "%s builds the inner encoder but is not "
               "a gated constructor" % h.nname, h.loc())

    # what the inner encoder is built from: normalised copy of the validated
    # settings
    ni = [f for f in c.fns.values() if not f.is_ext and inner_new.key in
          g.get(f.key, ()) and "InvalidConfig" in c.tystr(f.locals[0])]
    ctx.floor("inner_builders", len(ni), 1)
    skfi = ctx.fn("EncoderConfig::set_key_frame_interval")
    CS = c.adt("ChromaSampling")["adt"]
    for f in ni:
        for cs in ("Cs420", "Cs422", "Cs444", "Cs400"):
            seen = []

            def call2(a, st, name, rname, rec, args, site, line):
                if rname == val.nname:
                    return [(st, ok(UNIT))]
                if rname == inner_new.nname:
                    seen.append((st.copy(), a.value_of(st, args[0])))
                    return [(st, sym("inner"))]
                if rname == skfi.nname:
                    return None
                return None
            cell = {"enc.chroma_sampling": agg("adt", CS, cs, (), ())}
            run_cell(c, f, cell, rel={"chroma_sampling"}, call=call2, ctx=ctx,
                     inline=lambda a, st, g: g.nname == skfi.nname)
            ctx.ob(bool(seen), "inner-reached:" + f.nname,
                   "the inner encoder is never built", f.loc())
            for st, v in seen:
                r = proj(proj(proj(v, ".speed_settings"), ".transform"),
                         ".rdo_tx_decision")
                if cs == "Cs422":
                    ctx.ob(st.decide(r) is False or r is K(0) or
                           (isk(r) and not r.a[0]),
                           "tx422:" + f.nname, "4:2:2 is encoded with the "
                           "transform partitioning it does not support "
                           "(%s)" % show(r)[:80], f.loc())
                for fld in ("width", "height", "bit_depth", "quantizer",
                            "chroma_sampling", "still_picture",
                            "error_resilient", "low_latency", "bitrate"):
                    x = proj(v, "." + fld)
                    w = proj(proj(sym("self"), "*"), ".enc") \
                        if False else None
                    ctx.ob("enc." + fld in show(strip(x)) or isk(x) or
                           x.k == "agg",
                           "setting:" + fld, "the encoder is built with a "
                           "different %s than validated: %s" % (
                               fld, show(x)[:80]), f.loc())
    # pixel type guard: panics or errors before construction when T is too
    # narrow
    for f in ni:
        pan = []

        def call3(a, st, name, rname, rec, args, site, line):
            if rname == inner_new.nname:
                pan.append(st.copy())
                return [(st, sym("inner"))]
            if rname == val.nname:
                return [(st, ok(UNIT))]
            if name.endswith("mem::size_of"):
                return [(st, sym("pixsize"))]
            return None
        for size, bd, okk in ((1, 8, True), (2, 8, True), (2, 10, True),
                              (2, 12, True), (1, 10, False), (1, 12, False)):
            del pan[:]
            run_cell(c, f, {"enc.bit_depth": f_set(bd)},
                     rel={"bit_depth"}, ctx=ctx, inline=lambda *x: False,
                     call=lambda a, st, name, rname, rec, args, site, line:
                     [(st, K(size))] if name.endswith("mem::size_of")
                     else call3(a, st, name, rname, rec, args, site, line))
            ctx.ob(bool(pan) == okk, "pixel:%d:%d" % (size, bd),
                   "a %d-byte sample type with bit depth %d must%s be usable" %
                   (size, bd, "" if okk else " not"), f.loc())

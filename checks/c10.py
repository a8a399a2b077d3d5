"""C10: the coding order is a valid, complete GOP structure."""
from sa.val import *
from sa import val as _v
from sa.gate import *
from sa.query import field_writes

RULE = """Abstract interpretation over a linear/congruence domain: the planner's
functions are evaluated for output frame number 24h+6r+k+1 (re-ordering) or
12h+r+1 (low latency) with h any natural number; the resulting coding orders are
composed by induction over h on an abstract reference-slot state, for complete
groups and for groups cut short by the next key frame."""
ASSUME = ["fewer than 2^31 frames", "re-ordering pyramid and group length are "
          "the ones InterConfig::new computes"]

H, G0, S0 = sym("h"), sym("gopout"), sym("gopin")


def lin(*t):
    d, b = {}, 0
    for x in t:
        if type(x) is int:
            b += x
        else:
            d[x[1]] = d.get(x[1], 0) + x[0]
    return _v.lin_make(d, b)


def run(ctx):
    _v.LIN.clear()
    _v.LIN.update({H: 0, G0: 0, S0: 0})
    try:
        go(ctx)
    finally:
        _v.LIN.clear()


def inter_configs(ctx):
    c = ctx.lib
    f = ctx.fn("InterConfig::new")
    r = []
    for low in (0, 1):
        for multi in (0, 1):
            for sw in ((0,) if not low else (0, 1, 3, 4, 12)):
                outs, a = run_cell(
                    c, f, {"low_latency": K(low), "switch_frame_interval":
                           K(sw), "speed_settings.multiref": K(multi)},
                    rel=set(), ctx=ctx)
                ctx.ob(len(outs) == 1, "interconfig", "InterConfig::new has "
                       "%d outcomes for low_latency=%d" % (len(outs), low),
                       f.loc())
                if len(outs) != 1:
                    continue
                v = outs[0].ret
                ctx.ob(proj(v, ".reorder") is K(1 - low), "reorder:%d" % low,
                       "low_latency=%d gives reorder=%s" % (
                           low, show(proj(v, ".reorder"))), f.loc())
                ctx.ob(proj(v, ".switch_frame_interval") is K(sw), "switch",
                       "the switch frame interval becomes %s" % show(
                           proj(v, ".switch_frame_interval")), f.loc())
                r.append((low, multi, sw, v))
    return r


def go(ctx):
    c = ctx.lib
    f = ctx.fn("FrameInvariants::new_inter_frame")
    key = ctx.fn("FrameInvariants::new_key_frame")
    keyframe(ctx, key)
    for low, multi, sw, ic in inter_configs(ctx):
        il, ol = proj(ic, ".group_input_len"), proj(ic, ".group_output_len")
        if not (isk(il) and isk(ol)):
            ctx.violate("group-len", "the group lengths are not determined by "
                        "the configuration", f.loc())
            continue
        il, ol = il.a[0], ol.a[0]
        groups = 12 if low else 4           # groups per period
        pi, po = il * groups, ol * groups   # inputs / outputs per period
        name = "%s%s%s" % ("low-latency" if low else "re-ordering",
                           ",multiref" if multi else "",
                           ",switch=%d" % sw if sw else "")
        table = {}
        for r in range(groups):
            # t: first missing input of this group, il + 1 = complete
            for t in range(1, il + 2):
                for k in range(ol):
                    o = lin((po, H), r * ol + k + 1)
                    nk = lin((1, S0), (pi, H), r * il + t) if t <= il else \
                        lin((1, S0), (pi, H), (groups + 1) * il + r * il + t)
                    table[r, t, k] = frame(ctx, c, f, ic, o, nk, sw, name,
                                           (r, t, k))
        if any(v is False for v in table.values()):
            continue
        simulate(ctx, f, table, groups, il, ol, pi, low, multi, sw, name)
        planner(ctx, c, ic, table, groups, il, ol, pi, po, name)


def keyframe(ctx, f):
    c = ctx.lib

    def call(a, st, nm, rnm, rec, args, site, line):
        if rnm.endswith("CodedFrameData::new"):
            return [(st, sym("CFD"))]
        return None
    cfg, seq = sym("cfg"), sym("seq")
    outs, a = run_cell(c, f, {}, rel=set(), call=call, ctx=ctx,
                       args=[mk("arc", cfg), mk("arc", seq), S0, sym("T")],
                       inline=lambda a, st, g: "FrameInvariants" in g.nname)
    ctx.ob(bool(outs), "key-path", "new_key_frame never returns", f.loc())
    for o in outs:
        v = o.ret
        g = lambda n: proj(v, "." + n)
        ctx.ob(show(g("frame_type")).endswith("KEY"), "key-type",
               "a key frame is planned as %s" % show(g("frame_type"))[:40],
               f.loc())
        ctx.ob(g("refresh_frame_flags") is K(255), "key-refresh", "a key "
               "frame refreshes slots %s" % show(g("refresh_frame_flags")),
               f.loc())
        ctx.ob(g("show_frame") is K(1), "key-shown", "a key frame is not "
               "shown", f.loc())
        ctx.ob(g("input_frameno") is S0, "key-input", "a key frame codes "
               "input %s" % show(g("input_frameno"))[:40], f.loc())
        ctx.ob(g("order_hint") is K(0), "key-hint", "a key frame has order "
               "hint %s" % show(g("order_hint"))[:40], f.loc())
        ctx.ob(isk(g("primary_ref_frame")) and
               g("primary_ref_frame").a[0] == 7, "key-primary",
               "a key frame inherits probabilities from reference %s" %
               show(g("primary_ref_frame"))[:40], f.loc())
        ctx.ob(variant(g("coded_frame_data"))[0] == "Some", "key-coded",
               "a key frame has no coding data", f.loc())
        sf = show(g("showable_frame"))
        ctx.ob("reduced_still_picture_hdr" in sf or g("showable_frame")
               is K(1), "key-showable", "showable is %s" % sf[:60], f.loc())


def frame(ctx, c, f, ic, o, nk, sw, name, cell):
    """Evaluate new_inter_frame; None = placeholder, False = undecided."""
    def call(a, st, nm, rnm, rec, args, site, line):
        l = rnm.rsplit("::", 1)[-1]
        if l == "clone_from" and args[0].k == "ref":
            st.put(st.deref(args[0]), a.value_of(st, args[1]))
            return [(st, UNIT)]
        if l in ("get_film_grain_mut_at", "get_film_grain_at"):
            return [(st, NONE)]
        if "FrameInvariants" in rnm and l in ("set_ref_frame_sign_bias",
                                              "frame_timestamp"):
            return [(st, UNIT)]
        return None
    P = sym("P")
    args = [P, sym("IC"), S0, o, nk, sym("resilient"), sym("T")]
    if f.nargs != len(args):
        ctx.violate("anchor:new_inter_frame", "new_inter_frame has %d "
                    "arguments" % f.nargs, f.loc())
        return False
    outs, a = run_cell(c, f, {"P:coded_frame_data": some(sym("CFD")), "IC:": ic},
                       rel=set(), call=call, ctx=ctx, args=args,
                       inline=lambda a, st, g: "InterConfig" in g.nname or
                       "FrameInvariants" in g.nname or
                       g.nname.startswith("partition::") or
                       g.nname == "encoder::pos_to_lvl" or g.is_closure)
    res = None
    for i, x in enumerate(outs):
        k, v = variant(x.ret)
        if k == "None":
            d = None
        else:
            g = lambda n: proj(v, "." + n)
            refs = [proj(g("ref_frames"), ("i", K(j))) for j in range(7)]
            d = {"type": variant(g("frame_type"))[0] or
                 show(g("frame_type")).rsplit("::", 1)[-1],
                 "input": g("input_frameno"), "hint": g("order_hint"),
                 "show": g("show_frame"),
                 "showable": g("showable_frame"),
                 "refresh": g("refresh_frame_flags"),
                 "slot": g("frame_to_show_map_idx"),
                 "coded": variant(g("coded_frame_data"))[0],
                 "refs": refs, "level": g("pyramid_level"),
                 "resil": g("error_resilient"),
                 "intra_only": g("intra_only"),
                 "primary": g("primary_ref_frame")}
        if i == 0:
            res = d
        elif d is None or res is None:
            if d is not res:
                ctx.violate("undecided:" + name, "whether output frame %s "
                            "exists is not decided by its position" % show(o),
                            f.loc())
                return False
        else:
            for q in d:
                if q in ("resil", "primary"):
                    continue
                if d[q] != res[q]:
                    ctx.violate("undecided:%s:%s" % (name, q), "%s of output "
                                "frame %s is not decided by its position" % (
                                    q, show(o)), f.loc())
                    return False
    if not outs:
        ctx.violate("no-frame:" + name, "new_inter_frame cannot produce output "
                    "frame %s (a debug assertion or overflow is certain)" %
                    show(o), f.loc())
        return False
    if res is None:
        return None
    for q in ("hint", "input", "show", "refresh", "slot", "level"):
        if _v.lin_of(res[q]) is None:
            ctx.violate("undecided:%s:%s" % (name, q), "%s of output frame %s "
                        "is %s" % (q, show(o), show(res[q])[:80]), f.loc())
            return False
    return res


def shift(v, by):
    """v with h replaced by h + by"""
    d, b = _v.lin_of(v)
    return _v.lin_make(d, b + d.get(H, 0) * by)


def at0(v):
    d, b = _v.lin_of(v)
    d = dict(d)
    d.pop(H, None)
    return _v.lin_make(d, b)


def simulate(ctx, f, table, groups, il, ol, pi, low, multi, sw, name):
    KEY = {"hint": K(0), "input": S0, "hidden": False}
    st0 = {s: dict(KEY) for s in range(8)}
    # base: h = 0 from the key frame; step: h+1 after a complete period h
    for phase in ("first", "later"):
        if phase == "first":
            slots, tr = st0, at0
            last = S0
        else:
            slots = {s: None for s in range(8)}
            ok_, _ = period(ctx, f, table, groups, il, ol, pi, slots,
                            lambda v: v, None, name, quiet=True)
            tr = lambda v: shift(v, 1)
            last = lin((1, S0), (pi, H), pi)
        used = {}
        period(ctx, f, table, groups, il, ol, pi, slots, tr, last, name,
               multi=multi, sw=sw, low=low, phase=phase)


def period(ctx, f, table, groups, il, ol, pi, slots, tr, last, name,
           quiet=False, multi=0, sw=0, low=0, phase=""):
    def ob(cond, key, msg):
        if not quiet:
            ctx.ob(cond, key + ":" + name, msg + " (%s, %s)" % (name, phase),
                   f.loc())
        return cond
    for r in range(groups):
        if not quiet:
            for t in range(1, il + 1):      # groups cut short by a key frame
                s2 = {k: dict(v) if v else None for k, v in slots.items()}
                group(ob, table, r, t, il, ol, s2, tr, last, name, multi, sw,
                      low, groups)
        last = group(ob, table, r, il + 1, il, ol, slots, tr, last, name,
                     multi, sw, low, groups)
    return True, last


def group(ob, table, r, t, il, ol, slots, tr, last, name, multi, sw, low,
          groups):
    shown = 0
    for k in range(ol):
        d = table[r, t, k]
        if d is None:
            continue
        who = "frame %d of group %d%s" % (
            k, r, "" if t > il else " cut after %d inputs" % (t - 1))
        inp, hint = tr(d["input"]), tr(d["hint"])
        ob(op("Add", S0, hint) is inp, "hint", "%s: order hint %s of input "
           "%s" % (who, show(hint), show(inp)))
        isd = d["show"] is K(1)
        sef = d["coded"] == "None"
        if sef:
            ob(isd, "sef-hidden", "%s re-shows a frame but is hidden" % who)
            ob(d["refresh"] is K(0), "sef-refresh", "%s re-shows a frame but "
               "refreshes slots %s" % (who, show(d["refresh"])))
            s = slots.get(d["slot"].a[0]) if isk(d["slot"]) else None
            ob(s is not None and s["input"] is inp and s["hidden"], "sef-slot",
               "%s re-shows slot %s, which holds input %s, as input %s" % (
                   who, show(d["slot"]), show(s["input"]) if s else "?",
                   show(inp)))
            if s:
                s["hidden"] = False
        else:
            ob(d["type"] in ("INTER", "SWITCH"), "type", "%s is planned as %s"
               % (who, d["type"]))
            ob(d["intra_only"] is K(0), "type", who + " is intra only")
            for i, q in enumerate(d["refs"]):
                s = slots.get(q.a[0]) if isk(q) else None
                ob(isk(q) and 0 <= q.a[0] < 8 and (s is not None), "ref",
                   "%s: reference %d is slot %s" % (who, i + 1, show(q)))
                if s is not None:
                    ob(op("Ne", s["input"], inp) is K(1), "ref-self", "%s "
                       "references its own input" % who)
            if t > il and not low and d["level"] is not K(0):
                def cmp_(o_):
                    return any(isk(q) and slots.get(q.a[0]) and op(
                        o_, slots[q.a[0]]["input"], inp) is K(1)
                        for q in d["refs"])
                q0 = d["refs"][0]
                s0 = slots.get(q0.a[0]) if isk(q0) else None
                ob(cmp_("Gt") and s0 is not None and op(
                    "Lt", s0["input"], inp) is K(1), "ref-both", "%s does "
                   "not reference an earlier picture first and a later one "
                   "too" % who)
            if d["level"] is K(0):
                q = d["refs"][0]
                s = slots.get(q.a[0]) if isk(q) else None
                if s is not None:
                    ob(op("Sub", inp, s["input"]) is K(il), "ref-last",
                       "%s: the last frame it references is %s, not the "
                       "previous anchor of %s" % (who, show(s["input"]),
                                                  show(inp)))
            # switch frames: reset every slot, resilient, no inheritance
            if sw:
                due = (r * ol + k + 1) % sw == 0
                ob((d["type"] == "SWITCH") == due, "switch", "%s is %s "
                   "although the switch interval is %d" % (who, d["type"],
                                                           sw))
            else:
                ob(d["type"] != "SWITCH", "switch", "%s is a switch frame "
                   "without being asked for" % who)
            if d["type"] == "SWITCH":
                ob(d["refresh"] is K(255) and d["resil"] is K(1) and isd,
                   "switch-form", "%s: a switch frame refreshes %s, error "
                   "resilient %s" % (who, show(d["refresh"]),
                                     show(d["resil"])))
                want = range(8)
            else:
                want = [d["slot"].a[0]] if isk(d["slot"]) else []
                ob(bool(want) and d["refresh"] is K(1 << want[0]), "refresh",
                   "%s refreshes %s although it is filed in slot %s" % (
                       who, show(d["refresh"]), show(d["slot"])))
            for w in want:
                s = slots.get(w)
                ob(not (s and s["hidden"]), "lost", "%s overwrites a hidden "
                   "frame that was never shown" % who)
                slots[w] = {"hint": hint, "input": inp, "hidden": not isd}
            if not isd:
                ob(show(d["showable"]) == "P.showable_frame" or
                   d["showable"] is K(1), "showable", "%s is hidden but not "
                   "showable" % who)
        if isd:
            shown += 1
            if last is not None:
                ob(op("Sub", inp, last) is K(1), "order", "%s shows input %s "
                   "after %s" % (who, show(inp), show(last)))
            last = inp
    ob(shown == min(t - 1, il), "count", "group %d shows %d of %d inputs" % (
        r, shown, min(t - 1, il)))
    return last


def planner(ctx, c, ic, table, groups, il, ol, pi, po, name):
    """build_frame_properties follows the table and opens the next GOP exactly
    when the previous one is complete."""
    f = ctx.fn("ContextInner::build_frame_properties")
    S = sym("self")
    for r in (0, groups - 1):
        for t in range(1, il + 2):
            prev = lin((1, S0), (pi, H), r * il)
            for k in range(ol):
                d = table[r, t, k]
                o = lin((po, H), r * ol + k + 1)
                n = lin((1, G0), (po, H), r * ol + k + 1)
                nk = lin((1, S0), (pi, H), r * il + t) if t <= il else \
                    lin((1, S0), (pi, H), (groups + 1) * il + r * il + t)
                outs = plan(ctx, c, f, ic, n, nk, prev, S)
                got = {kind(x, n) for x in outs}
                if k == 0 and t == 1:
                    want = {("key", nk, n, nk), "NeedMoreData"}
                elif d is None:
                    want = {"placeholder", "NeedMoreData"}
                    got = got | {"NeedMoreData"}
                else:
                    want = {("inter", o, S0, nk), "NeedMoreData"}
                ctx.ob(got == want, "plan:%s" % name,
                       "output %s with the next key frame at %s is planned as "
                       "%s instead of %s" % (
                           show(n), show(nk), [txt(x) for x in got],
                           [txt(x) for x in want]), f.loc())
                if d is not None:
                    prev = d["input"]
            if t <= il:
                # the following group must start with the key frame
                n = lin((1, G0), (po, H), (r + 1) * ol + 1)
                nk = lin((1, S0), (pi, H), r * il + t)
                if t == 1:
                    continue
                outs = plan(ctx, c, f, ic, n, nk, prev, S)
                got = {kind(x, n) for x in outs}
                want = {("key", nk, n, nk), "NeedMoreData"}
                ctx.ob(got == want, "plan-next:%s" % name,
                       "after a group cut at %s output %s is planned as %s" % (
                           show(nk), show(n), [txt(x) for x in got]), f.loc())


def txt(x):
    return x if isinstance(x, str) else "%s(%s)" % (x[0], ", ".join(
        show(y) for y in x[1:]))


def kind(o, n):
    k, v = variant(o.ret)
    if k == "Err":
        return "NeedMoreData" if err_name(o.ret) == "Err:NeedMoreData" else \
            show(o.ret)[:60]
    k2, v2 = variant(v)
    if k2 == "None":
        return "placeholder"
    if v2.k == "call" and v2.a[0] == "KEY":
        s = o.st.auto or {}
        s = dict(s)
        return ("key", v2.a[1][0], s.get("out", K(-1)), s.get("in", K(-1)))
    if v2.k == "call" and v2.a[0] == "INTER":
        return ("inter",) + v2.a[1]
    return show(v2)[:80]


def plan(ctx, c, f, ic, n, nk, prev, S):
    gops = {".gop_output_frameno_start": "out",
            ".gop_input_frameno_start": "in"}

    def call(a, st, nm, rnm, rec, args, site, line):
        l = rnm.rsplit("::", 1)[-1]
        ml = nm.rsplit("::", 1)[-1]
        if l == "next_keyframe_input_frameno":
            return [(st, nk)]
        if l == "needs_more_frame_q_lookahead":
            return [(st, K(0))]
        if l == "get_previous_fi":
            return [(st, mk("ref", ("X", sym("PREV")), (), 0))]
        if l == "get_previous_coded_fi":
            return [(st, mk("ref", ("X", sym("PC")), (), 0))]
        if l == "new_key_frame":
            return [(st, mk("call", "KEY", (a.value_of(st, args[2]),), None))]
        if l == "new_inter_frame":
            o = a.value_of(st, args[3])
            inp = inter_input(a, st, ic, o, args)
            r = op("Ge", inp, a.value_of(st, args[4])) if inp is not None \
                else None
            if r is K(1):
                return [(st, NONE)]
            return [(st, some(mk("call", "INTER", (
                o, a.value_of(st, args[2]), a.value_of(st, args[4])), None)))]
        r = args[0] if args else None
        if r is not None and r.k == "ref" and r.a[0] == ("X", S) and r.a[1] \
                and r.a[1][0] in gops and ml in (
                    "insert", "index", "get_mut", "get", "index_mut"):
            w = gops[r.a[1][0]]
            key = a.value_of(st, args[1])
            cur = dict(st.auto or ())
            if ml == "insert":
                if key is n:
                    cur[w] = a.value_of(st, args[2])
                    st.auto = tuple(sorted(cur.items()))
                    st.put((("X", sym("cur." + w)), ()), cur[w])
                return [(st, NONE)]
            if key is n and w in cur:
                ref = mk("ref", ("X", sym("cur." + w)), (), 1)
            else:
                base = G0 if w == "out" else S0
                ref = mk("ref", ("X", sym("old." + w)), (), 0)
                st.put((("X", sym("old." + w)), ()), base)
            return [(st, some(ref) if ml in ("get", "get_mut") else ref)]
        if r is not None and r.k == "ref" and r.a[0] == ("X", S) and \
                r.a[1] == (".keyframes",) and ml == "contains":
            key = a.value_of(st, args[1])
            # the next key frame may be detected, forced or due by interval
            e = op("Eq", key, nk)
            return [(st, K(0)), (st.copy(), K(1))] if e is K(1) else \
                [(st, e)]
        return None
    st_cell = {"inter_cfg": ic, "PREV:input_frameno": prev}
    outs, a = run_cell(c, f, st_cell, rel=set(), call=call, ctx=ctx,
                       args=[S, n], inline=lambda a, st, g:
                       "InterConfig" in g.nname or g.is_closure)
    for o in outs:
        o.st.auto = (("out", o.st.load((("X", sym("cur.out")), ()))),
                     ("in", o.st.load((("X", sym("cur.in")), ()))))
    return outs


def inter_input(a, st, ic, o, args):
    """the input number of output o, by the table's own rule"""
    v = o
    il, ol = proj(ic, ".group_input_len"), proj(ic, ".group_output_len")
    depth = proj(ic, ".pyramid_depth")
    p = op("Sub", o, K(1))
    k, g = op("Rem", p, ol), op("Div", p, ol)
    if not isk(k) or not isk(depth) or not isk(il):
        return None
    k, dp = k.a[0], depth.a[0]
    off = il.a[0] >> k if k < dp else k - dp + 1
    return op("Add", op("Add", S0, op("Mul", g, il)), K(off))

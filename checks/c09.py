"""C09: what is sent with a frame is delivered with that frame's packet."""
from sa.val import *
from sa.gate import *
from sa.prog import norm
from sa.query import field_borrows, field_writes

RULE = """Abstract interpretation of the frame-parameter flow: which queue, key
and value every path of send_frame, the frame planner and receive_packet uses
for the opaque data, the T.35 messages and the forced key frame of a frame, plus
a crate-wide ownership query on those queues."""
ASSUME = ["BTreeMap/BTreeSet insert, get and remove behave as documented"]
S = sym("self")
MAPS = ("frame_q", "opaque_q", "t35_q", "keyframes_forced", "keyframes",
        "frame_data")


def mapop(a, st, nm, args):
    """(field, method, key, value) of a call on one of the encoder's maps"""
    l = nm.rsplit("::", 1)[-1]
    if not args or l not in ("insert", "remove", "get", "get_mut", "contains",
                             "contains_key", "clear", "retain", "take",
                             "index", "entry", "append", "extend",
                             "split_off", "pop_first", "pop_last"):
        return None
    r = args[0]
    if r.k == "ref" and r.a[0] == ("X", S) and r.a[1]:
        fl = r.a[1][0][1:]
    else:
        v = a.value_of(st, r)
        if v.k != "fld" or v.a[0] is not S:
            return None
        fl = v.a[1][1:] if isinstance(v.a[1], str) else None
    if fl not in MAPS:
        return None
    key = a.value_of(st, args[1]) if len(args) > 1 else None
    val = a.value_of(st, args[2]) if len(args) > 2 else None
    return fl, l, key, val


def run(ctx):
    snd = sending(ctx)
    rcv = receiving(ctx)
    planning(ctx)
    frames(ctx)
    into(ctx)
    owners(ctx, snd, rcv)


def leafless(a, st, g):
    return g.is_closure or "ContextInner" in g.nname


def param(c, **kw):
    F = c.adt("frame::FrameParameters")
    names = [x[0] for x in F["variants"][0][2]]
    return agg("adt", F["adt"], F["variants"][0][0], ["." + n for n in names],
               [kw.get(n, sym("P." + n)) for n in names])


def sending(ctx):
    c = ctx.lib
    f = ctx.fn("ContextInner::send_frame")
    OT = c.adt("frame::FrameTypeOverride")
    seen = set()
    for kind, _, _ in OT["variants"]:
        for op_ in (0, 1):
            for has in (None, 0, 1):
                def call(a, st, nm, rnm, rec, args, site, line):
                    m = mapop(a, st, nm, args)
                    l = nm.rsplit("::", 1)[-1]
                    if m and m[1] != "get":
                        st.auto = (st.auto or frozenset()) | {m}
                        return [(st, K(0))]
                    if l in ("pad", "compute_keyframe_placement",
                             "compute_frame_invariants"):
                        return [(st, UNIT)]
                    return None
                kw = {"frame_type_override": agg("adt", OT["adt"], kind, (),
                                                 ()),
                      "opaque": some(sym("OPQ")) if op_ else NONE,
                      "t35_metadata": sym("T35")}
                par = NONE if has is None else some(param(c, **kw))
                outs, a = run_cell(
                    c, f, {}, rel=set(), call=call, ctx=ctx,
                    args=[S, some(sym("frame")), par], inline=leafless)
                seen |= set(a.fns_seen)
                key = "override=%s opaque=%d params=%s" % (
                    kind, op_, "no" if has is None else "yes")
                ctx.ob(bool(outs), "send-path", "send_frame never returns (%s)"
                       % key, f.loc())
                for o in outs:
                    ops = o.st.auto or frozenset()
                    keys = {m[2] for m in ops}
                    ctx.ob(len(keys) == 1 and all(
                        show(k) == "self.frame_count" for k in keys),
                        "send-key", "the parameters of one frame are filed "
                        "under %s (%s)" % (sorted(map(show, keys)), key),
                        f.loc())
                    got = {(m[0], m[1], show(m[3]) if m[3] is not None else "")
                           for m in ops if m[0] != "frame_q"}
                    want = set()
                    if has is not None:
                        want.add(("t35_q", "insert", "T35"))
                        if op_:
                            want.add(("opaque_q", "insert", "OPQ"))
                        if kind == "Key":
                            want.add(("keyframes_forced", "insert", ""))
                    ctx.ob(got == want, "send-store:" + key.replace(" ", "_"),
                           "send_frame stores %s instead of %s (%s)" % (
                               sorted(got), sorted(want), key), f.loc())
    return seen


def receiving(ctx):
    c = ctx.lib
    f = ctx.fn("ContextInner::receive_packet")
    ES = c.adt("EncoderStatus")
    P = c.adt("api::util::Packet")
    names = [x[0] for x in P["variants"][0][2]]

    def call(a, st, nm, rnm, rec, args, site, line):
        l = rnm.rsplit("::", 1)[-1]
        if "ContextInner" in rnm and l == "encode_packet":
            s2 = st.copy()
            pkt = agg("adt", P["adt"], P["variants"][0][0],
                      ["." + n for n in names],
                      [NONE if n == "opaque" else sym("PKT." + n)
                       for n in names])
            s2.auto = (s2.auto or frozenset()) | {"failed"}
            return [(st, ok(pkt)), (s2, err(agg("adt", ES["adt"], "Encoded",
                                                (), ())))]
        if "ContextInner" in rnm and l in ("compute_block_importances",
                                           "garbage_collect"):
            return [(st, UNIT)]
        m = mapop(a, st, nm, args)
        if m and m[0] in ("opaque_q", "t35_q", "keyframes_forced"):
            st.auto = (st.auto or frozenset()) | {m}
            return [(st, sym("FROM." + m[0]))]
        return None
    outs, a = run_cell(c, f, {}, rel=set(), call=call, ctx=ctx,
                       inline=lambda a, st, g: g.is_closure or
                       g.nname.startswith("api::"))
    seen = set(a.fns_seen)
    n = 0
    for o in outs:
        k, v = variant(o.ret)
        ops = {m for m in (o.st.auto or ()) if m != "failed"}
        if k != "Ok":
            ctx.ob(not ops, "recv-drop", "a call that returns no packet "
                   "changes %s" % sorted(m[0] for m in ops), f.loc())
            continue
        n += 1
        ctx.ob({(m[0], m[1]) for m in ops} == {("opaque_q", "remove"),
                                              ("t35_q", "remove")} and
               all(show(m[2]) == "PKT.input_frameno" for m in ops),
               "recv-take", "a packet takes %s" % sorted(
                   (m[0], m[1], show(m[2])) for m in ops), f.loc())
        o_ = proj(v, ".opaque")
        ctx.ob(show(o_) == "FROM.opaque_q", "recv-opaque", "the packet's "
               "opaque data is %s instead of the frame's" % show(o_)[:60],
               f.loc())
        for q in names:
            if q != "opaque":
                ctx.ob(show(proj(v, "." + q)) == "PKT." + q, "recv-pkt:" + q,
                       "receive_packet changes the packet's " + q, f.loc())
    ctx.ob(n > 0, "recv-path", "receive_packet never returns a packet",
           f.loc())
    return seen


def planning(ctx):
    """The planner hands a frame the metadata filed under its own number."""
    c = ctx.lib
    f = ctx.fn("ContextInner::build_frame_properties")
    made = []

    def call(a, st, nm, rnm, rec, args, site, line):
        l = rnm.rsplit("::", 1)[-1]
        if l in ("new_key_frame", "new_inter_frame") and \
                "FrameInvariants" in rnm:
            made.append((l, [a.value_of(st, x) for x in args], line))
            r = mk("call", l, tuple(a.value_of(st, x) for x in args), None)
            if l == "new_key_frame":
                return [(st, r)]
            s2 = st.copy()
            return [(st, some(r)), (s2, NONE)]
        m = mapop(a, st, nm, args)
        if m and m[0] == "t35_q":
            if m[1] != "get":
                ctx.violate("plan-take", "planning a frame changes its T.35 "
                            "queue although it may be shown later",
                            f.loc(line))
                return None
            return [(st, mk("call", "t35", (m[2],), None))]
        if m and m[0] == "frame_q" and m[1] == "get":
            st.auto = m[2]
            return None
        if l in ("cloned", "copied") and args and "t35" in show(args[0])[:4]:
            return [(st, args[0])]
        if l in ("unwrap_or_default", "unwrap_or", "unwrap_or_else") and \
                args and show(args[0])[:4] == "t35(":
            return [(st, args[0])]
        return None
    outs, a = run_cell(c, f, {}, rel=set(), call=call, ctx=ctx,
                       args=[S, sym("n")], inline=leafless)
    n = 0
    for o in outs:
        k, v = variant(o.ret)
        if k != "Ok":
            continue
        k2, v2 = variant(v)
        if k2 != "Some":
            continue
        n += 1
        args = v2.a[1]
        t35 = [x for x in args if show(x).startswith("t35(")]
        ctx.ob(len(t35) == 1 and o.st.auto is not None and
               t35[0].a[1][0] is o.st.auto, "plan-key", "frame metadata comes "
               "from %s although the frame is %s" % (
                   [show(x)[:60] for x in t35],
                   show(o.st.auto)[:60] if o.st.auto is not None else "-"),
               f.loc())
    ctx.floor("planned_frame_paths", n, 2)
    # the frame data of a planned frame holds the picture of its own number
    f = ctx.fn("ContextInner::set_frame_properties")
    got = []

    def call2(a, st, nm, rnm, rec, args, site, line):
        l = rnm.rsplit("::", 1)[-1]
        if l == "build_frame_properties":
            s2 = st.copy()
            s3 = st.copy()
            return [(st, ok(some(sym("FI")))), (s2, ok(NONE)),
                    (s3, err(sym("E")))]
        if l == "new" and "FrameData" in rnm:
            return [(st, mk("call", "FD", tuple(
                a.value_of(st, x) for x in args), None))]
        m = mapop(a, st, nm, args)
        if m and m[0] == "frame_data":
            st.auto = (m[1], m[2], m[3])
            return [(st, NONE)]
        if m and m[0] == "frame_q" and m[1] == "get":
            return [(st, some(some(mk("call", "Q", (m[2],), None))))]
        return None
    outs, a = run_cell(c, f, {}, rel=set(), call=call2, ctx=ctx,
                       args=[S, sym("n")], inline=leafless)
    for o in outs:
        k, v = variant(o.ret)
        if k == "Ok":
            m = o.st.auto
            good = m is not None and m[0] == "insert" and m[1] is sym("n")
            if good:
                k2, v2 = variant(m[2])
                s = show(v2) if v2 is not None else ""
                good = k2 == "None" or s.startswith("FD(FI,") and \
                    "Q(FI.input_frameno)" in s
            ctx.ob(good, "plan-data", "the frame planned under n is filed as "
                   "%s" % (None if m is None else
                           [show(x)[:60] if isinstance(x, V) else x
                            for x in m],), f.loc())
        else:
            ctx.ob(o.st.auto is None, "plan-fail", "a frame that cannot be "
                   "planned yet is filed anyway", f.loc())
    ctx.floor("filed_frame_paths", len(outs), 3)


def frames(ctx):
    """The created frame keeps the metadata exactly when it is shown."""
    c = ctx.lib
    f = ctx.fn("FrameInvariants::new_key_frame")
    ti = [i for i in range(1, f.nargs + 1)
          if "T35" in c.types[f.locals[i]]["s"]]
    ctx.ob(len(ti) == 1, "meta-arg", "new_key_frame has %d metadata arguments"
           % len(ti), f.loc())

    def call(a, st, nm, rnm, rec, args, site, line):
        if rnm.endswith("FrameInvariants::new"):
            return [(st, sym("FI0"))]
        if rnm.endswith("CodedFrameData::new"):
            return [(st, sym("CFD"))]
        return None
    args = [sym("a%d" % i) for i in range(1, f.nargs + 1)]
    outs, a = run_cell(c, f, {}, rel=set(), call=call, ctx=ctx, args=args,
                       inline=lambda a, st, g: False)
    for o in outs:
        m = show(proj(o.ret, ".t35_metadata"))
        ctx.ob(m == "a%d" % ti[0], "meta-key", "a key frame carries %s" % m,
               f.loc())
    ctx.ob(bool(outs), "meta-key-path", "new_key_frame never returns", f.loc())
    f = ctx.fn("FrameInvariants::new_inter_frame")
    ti = [i for i in range(1, f.nargs + 1)
          if "T35" in c.types[f.locals[i]]["s"]]
    for sf in (0, 1):
        def call2(a, st, nm, rnm, rec, args, site, line):
            l = rnm.rsplit("::", 1)[-1]
            if l == "clone_without_coded_data":
                return [(st, sym("FI0"))]
            if l == "get_show_frame":
                return [(st, K(sf))]
            if "InterConfig" in rnm:
                return [(st, sym(l))]
            if "FrameInvariants" in rnm and args and args[0].k == "ref" and \
                    l != "frame_timestamp":
                return [(st, UNIT)]        # see owners(): writes no metadata
            if l == "get_film_grain_mut_at":
                return [(st, NONE)]
            return None
        args = [sym("a%d" % i) for i in range(1, f.nargs + 1)]
        outs, a = run_cell(c, f, {}, rel=set(), call=call2, ctx=ctx,
                           args=args, inline=lambda a, st, g: False)
        n = 0
        for o in outs:
            k, v = variant(o.ret)
            if k != "Some":
                continue
            n += 1
            m = proj(v, ".t35_metadata")
            s = show(m)
            good = s == "a%d" % ti[0] if sf else \
                "a%d" % ti[0] not in s and "FI0" not in s
            ctx.ob(good, "meta-inter:%d" % sf, "a %s inter frame carries %s" % (
                "shown" if sf else "hidden", s[:60]), f.loc())
            ctx.ob(proj(v, ".show_frame") is K(sf), "meta-show",
                   "the frame's show flag is %s" % show(
                       proj(v, ".show_frame"))[:60], f.loc())
        ctx.floor("inter_frame_paths_%d" % sf, n, 1)


def into(ctx):
    """Every way of passing a frame keeps the frame and its parameters."""
    c = ctx.lib
    n = 0
    for f in c.fns.values():
        if f.is_ext or f.is_closure or f.name.rsplit("::", 1)[-1] != "into" \
                or f.nargs != 1:
            continue
        rt = c.types[f.locals[0]]["s"]
        if "FrameParameters" not in rt or not rt.startswith("("):
            continue
        n += 1
        t = c.types[f.locals[1]]
        outs, a = run_cell(c, f, {}, rel=set(), ctx=ctx, args=[sym("x")])
        ctx.ob(bool(outs), "into-path:" + t["s"][:60], "into never returns",
               f.loc())
        for o in outs:
            fr, pa = proj(o.ret, ".0"), proj(o.ret, ".1")
            x = sym("x")
            tup_ = t["k"] == "tuple"
            a0, a1 = (proj(x, ".0"), proj(x, ".1")) if tup_ else (x, None)
            tt = [c.types[e]["s"] for e in t["a"]] if tup_ else [t["s"]]
            wf = [a0] if tt[0].startswith("std::option") else \
                [some(a0), some(mk("arc", a0))]
            wp = NONE if len(tt) == 1 else \
                a1 if tt[1].startswith("std::option") else some(a1)
            ctx.ob(fr in wf and pa is wp, "into:" + t["s"][:60],
                   "passing a %s yields (%s, %s)" % (
                       t["s"][:60], show(fr)[:60], show(pa)[:60]), f.loc())
    ctx.floor("frame_conversions", n, 5)


def owners(ctx, snd, rcv):
    c = ctx.lib
    allow = {"opaque_q": snd | rcv, "t35_q": snd | rcv,
             "keyframes_forced": snd}
    for fl in allow:
        n = 0
        for f, line, pl in field_borrows(c, "api::internal::ContextInner", fl):
            n += 1
            ctx.ob(f.key in allow[fl], "owner:%s:%s" % (
                fl, f.nname), "%s is changed by %s" % (fl, f.nname),
                f.loc(line))
        ctx.floor("borrows_of_" + fl, n, 1)
        for f, line, rv in field_writes(c, "api::internal::ContextInner", fl):
            ctx.ob(f.nname.endswith("ContextInner::new"), "reset:%s:%s" % (
                fl, f.nname), "%s is replaced by %s" % (fl, f.nname),
                f.loc(line))


    # a frame's metadata and visibility are set where the frame is made
    for fl in ("t35_metadata", "show_frame"):
        for f, line, rv in field_writes(c, "encoder::FrameInvariants", fl):
            ctx.ob(f.nname.rsplit("::", 1)[-1] in (
                "new", "new_key_frame", "new_inter_frame", "clone",
                "clone_without_coded_data"), "frame-owner:%s:%s" % (
                    fl, f.nname), "%s of a frame is changed by %s" % (
                        fl, f.nname), f.loc(line))


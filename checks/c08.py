"""C08: encoder life cycle and status protocol."""
from sa.val import *
from sa.gate import *
from sa.prog import norm
from sa.query import field_writes

RULE = """All-paths abstract interpretation of the encoder front end: for each
cell of the life-cycle state (flushing, still picture, frame limit, look-ahead
full, rate control ready, frame shown) the status returned, the state written
and the calls into the encoder are the ones the protocol prescribes."""
ASSUME = ["collections behave as documented by the standard library"]
S = sym("self")


def at(o, *path):
    return o.st.load((("X", S), tuple(path)))


def init(*path):
    from sa.ae import State
    return State().load((("X", S), tuple(path)))


def last2(n):
    return "::".join(n.rsplit("::", 2)[-2:])


def run(ctx):
    front_send(ctx)
    front_recv(ctx)
    inner_recv(ctx)
    inner_limits(ctx)
    packets(ctx)
    predicates(ctx)
    inner_send(ctx)
    channels(ctx)
    owners(ctx)


def front_send(ctx):
    c = ctx.lib
    f = ctx.fn("Context::send_frame")
    MAXF = (1 << 31) - 2
    for has in (0, 1):
        for fl in (0, 1):
            for still in (0, 1):
                for cnt in (0, 1, 7, MAXF - 1, MAXF):
                    for pool in (0, 1):
                        calls = []

                        def call(a, st, nm, rnm, rec, args, site, line):
                            if nm.endswith("::into") and args[0] is sym("f"):
                                return [(st, tup(
                                    some(sym("frame")) if has else NONE,
                                    sym("params")))]
                            if last2(rnm) == "ContextInner::send_frame":
                                calls.append((
                                    a.value_of(st, args[1]), args[2],
                                    st.load((("X", S), (".inner", ".limit"))),
                                    st.load((("X", S), (".is_flushing",)))))
                                st.auto = (st.auto or 0) + 1
                                return [(st, sym("R"))]
                            return None
                        outs, a = run_cell(
                            c, f, {"is_flushing": K(fl),
                                   "inner.config*.still_picture": K(still),
                                   "inner.frame_count": K(cnt),
                                   "pool": some(sym("pool")) if pool
                                   else NONE},
                            rel=set(), call=call, ctx=ctx,
                            args=[S, sym("f")])
                        key = "frame=%d flushing=%d still=%d count=%d" % (
                            has, fl, still, cnt)
                        ctx.ob(bool(outs), "send-path:" + key,
                               "send_frame never returns for " + key, f.loc())
                        for o in outs:
                            one_send(ctx, f, o, has, fl, still, cnt, MAXF,
                                     key)
                        for fr, pa, lim, flg in calls:
                            ctx.ob(fr is (some(sym("frame")) if has else NONE)
                                   and pa is sym("params"),
                                   "send-args:%d" % has, "the frame handed to "
                                   "the encoder is %s with %s (%s)" % (
                                       show(fr)[:60], show(pa)[:40], key),
                                   f.loc())
                            if not has:
                                ctx.ob(lim is some(K(cnt)), "flush-limit",
                                       "after a flush the frame limit is %s "
                                       "instead of the number of frames sent "
                                       "(%s)" % (show(lim)[:60], key),
                                       f.loc())


def one_send(ctx, f, o, has, fl, still, cnt, MAXF, key):
    n = o.st.auto or 0
    e = err_name(o.ret)
    lim, flg = at(o, ".inner", ".limit"), at(o, ".is_flushing")
    same_l = lim is init(".inner", ".limit")
    if not has and fl:
        ctx.ob(n == 0 and e == "Ok" and same_l and flg is K(1), "reflush",
               "flushing twice is not a no-op (%s): %s, %d calls" % (
                   key, e, n), f.loc())
    elif not has:
        ctx.ob(n == 1 and o.ret is sym("R") and flg is K(1), "flush",
               "a flush must reach the encoder exactly once and mark it as "
               "flushing (%s): %d calls, returns %s" % (
                   key, n, show(o.ret)[:60]), f.loc())
    elif fl or (still and cnt > 0):
        ctx.ob(n == 0 and e == "Err:EnoughData" and same_l and flg is K(fl),
               "enough-data", "a frame sent %s must be refused with "
               "EnoughData and change nothing (%s): %s, %d calls" % (
                   "after a flush" if fl else "after the still picture", key,
                   e, n), f.loc())
    else:
        ctx.ob(n == 1 and o.ret is sym("R"), "accept",
               "an acceptable frame must reach the encoder exactly once "
               "(%s): %d calls, returns %s" % (key, n, show(o.ret)[:60]),
               f.loc())
        if cnt < MAXF:
            ctx.ob(same_l and flg is K(fl), "accept-state", "accepting a "
                   "frame changes the limit or the flushing state (%s)" % key,
                   f.loc())
        else:
            ctx.ob(flg is K(1) and lim is not init(".inner", ".limit"),
                   "internal-limit", "the internal frame limit does not stop "
                   "the encoder (%s)" % key, f.loc())


def front_recv(ctx):
    c = ctx.lib
    for nm_, inner, argv in (
            ("Context::receive_packet", "ContextInner::receive_packet", 1),):
        f = ctx.fn(nm_)
        for pool in (0, 1):
            def call(a, st, nm, rnm, rec, args, site, line):
                if last2(rnm) == inner:
                    st.auto = (st.auto or 0) + 1
                    return [(st, sym("R"))]
            outs, a = run_cell(c, f, {"pool": some(sym("pool")) if pool
                                      else NONE}, rel=set(), call=call,
                               ctx=ctx)
            ctx.ob(bool(outs), "recv-path", nm_ + " never returns", f.loc())
            for o in outs:
                ctx.ob(o.st.auto == 1 and o.ret is sym("R"), "recv-forward",
                       "%s does not return exactly what one step of the "
                       "encoder returned" % nm_, f.loc())
    f = ctx.fn("Context::flush")
    seen = []

    def call(a, st, nm, rnm, rec, args, site, line):
        if last2(rnm) == "Context::send_frame":
            seen.append(a.value_of(st, args[1]))
            st.auto = (st.auto or 0) + 1
            return [(st, ok(UNIT))]
    outs, a = run_cell(c, f, {}, rel=set(), call=call, ctx=ctx)
    ctx.ob(bool(outs) and all(o.st.auto == 1 for o in outs) and
           all(v is NONE for v in seen), "flush-forward",
           "flush() is not one send of the end marker", f.loc())


def quiet(ctx, f, o, what, allow=()):
    """no field of the encoder other than `allow` was written."""
    ch = [k for k, v in o.st.store.items()
          if k == ("X", S) and v is not S and v is not mk("obj", S)]
    v = o.st.store.get(("X", S))
    ws = written(v)
    bad = sorted(w for w in ws if w.split(".")[1] not in allow)
    ctx.ob(not bad, "pure:" + what, "returning %s changes the encoder state "
           "(%s)" % (what, ", ".join(bad)[:80]), f.loc())


def written(v):
    """paths overlaid on a symbolic object"""
    out = []

    def w(x, p, d=0):
        if d > 3:
            return
        for k, y in overlay(x):
            out.append(p + str(k))
            w(y, p + str(k), d + 1)
    w(v, "")
    return set(out)


def overlay(x):
    if x is not None and x.k == "st":
        return [(e, y) for e, y in x.a[1]]
    return []


def inner_recv(ctx):
    c = ctx.lib
    f = ctx.fn("ContextInner::receive_packet")
    leaf = {"done_processing": "done", "needs_more_fi_lookahead": "needfi",
            "needs_more_frames": "needfr"}
    for done in (0, 1):
        for nfi in (0, 1):
            for nfr in (0, 1):
                val = {"done": K(done), "needfi": K(nfi), "needfr": K(nfr)}
                gc = []

                def call(a, st, nm, rnm, rec, args, site, line):
                    l = rnm.rsplit("::", 1)[-1]
                    if "ContextInner" in rnm and l in leaf:
                        return [(st, val[leaf[l]])]
                    if "ContextInner" in rnm and l == "encode_packet":
                        st.auto = (st.auto or 0) + 1
                        s2 = st.copy()
                        res = [(st, ok(sym("PKT")))]
                        for e in ("Encoded", "NotReady", "NeedMoreData",
                                  "Failure"):
                            s3 = st.copy()
                            res.append((s3, err(agg(
                                "adt", c.adt("EncoderStatus")["adt"], e, (),
                                ()))))
                        return res
                    if "ContextInner" in rnm and l in (
                            "compute_block_importances",):
                        return [(st, UNIT)]
                    if "ContextInner" in rnm and l == "garbage_collect":
                        gc.append(a.value_of(st, args[1]))
                        return [(st, UNIT)]
                    return None
                outs, a = run_cell(c, f, {}, rel=set(), call=call, ctx=ctx,
                                   inline=api_only)
                key = "done=%d lookahead-missing=%d in-limit=%d" % (
                    done, nfi, nfr)
                got = {err_name(o.ret) for o in outs}
                if done:
                    want = {"Err:LimitReached"}
                elif nfi:
                    want = {"Err:NeedMoreData"}
                elif not nfr:
                    want = {"Err:NeedMoreData", "Err:LimitReached"}
                else:
                    want = {"Ok", "Err:Encoded", "Err:NotReady",
                            "Err:NeedMoreData", "Err:Failure"}
                ctx.ob(got == want, "status:" + key,
                       "receive_packet returns %s instead of %s for %s" % (
                           sorted(map(str, got)), sorted(want), key), f.loc())
                for o in outs:
                    n = o.st.auto or 0
                    e = err_name(o.ret)
                    if n == 0:
                        for fl in ("frames_processed", "limit", "frame_count",
                                   "packet_data", "frame_q", "frame_data",
                                   "opaque_q", "t35_q"):
                            if at(o, "." + fl) is not init("." + fl):
                                ctx.violate("pure:" + fl, "returning %s "
                                            "changes %s (%s)" % (e, fl, key),
                                            f.loc())
                    ctx.ob(n <= 1, "one-step", "one receive_packet codes %d "
                           "frames" % n, f.loc())
                for v in gc:
                    ctx.ob("PKT" in show(v) and "input_frameno" in show(v),
                           "gc-arg", "frames up to %s are released after a "
                           "packet" % show(v)[:60], f.loc())


def inner_limits(ctx):
    """The same step on concrete limits, nothing but the look-ahead hooked."""
    c = ctx.lib
    f = ctx.fn("ContextInner::receive_packet")
    for lim in (None, 1, 5):
        for done in (0, 1, 4, 5, 6):
            def call(a, st, nm, rnm, rec, args, site, line):
                l = rnm.rsplit("::", 1)[-1]
                if "ContextInner" in rnm and l == "needs_more_fi_lookahead":
                    return [(st, K(0))]
                if "ContextInner" in rnm and l == "encode_packet":
                    st.auto = tuple(sorted(
                        (show(k), str(v)) for k, v in st.facts.items()
                        if show(k).endswith("input_frameno")))
                    return [(st, ok(sym("PKT")))]
                if "ContextInner" in rnm and l in (
                        "compute_block_importances", "garbage_collect"):
                    return [(st, UNIT)]
            outs, a = run_cell(
                c, f, {"limit": NONE if lim is None else some(K(lim)),
                       "frames_processed": K(done)}, rel={"input_frameno"},
                call=call, ctx=ctx, inline=api_only)
            got = {err_name(o.ret) for o in outs}
            key = "limit=%s processed=%d" % (lim, done)
            want = {"Err:LimitReached"} if lim == done else \
                {"Err:NeedMoreData", "Ok"} if lim is None else \
                {"Err:NeedMoreData", "Err:LimitReached", "Ok"}
            ctx.ob(got == want, "limit:" + key, "receive_packet returns %s "
                   "instead of %s with %s" % (sorted(map(str, got)),
                                              sorted(want), key), f.loc())


def api_only(a, st, g):
    return g.nname.startswith("api::") or g.is_closure


def packets(ctx):
    c = ctx.lib
    f = ctx.fn("ContextInner::encode_packet")
    for sef in (0, 1):
        for ready in (0, 1):
            def call(a, st, nm, rnm, rec, args, site, line):
                l = rnm.rsplit("::", 1)[-1]
                if l == "is_show_existing_frame":
                    return [(st, K(sef))]
                if l == "ready" and "RCState" in rnm:
                    return [(st, K(ready))]
                if l in ("encode_show_existing_packet",
                         "encode_normal_packet"):
                    st.auto = l
                    return [(st, sym(l))]
            outs, a = run_cell(c, f, {}, rel=set(), call=call, ctx=ctx,
                               args=[S, sym("n")], inline=api_only)
            right = "encode_show_existing_packet" if sef else \
                "encode_normal_packet"
            rets = {o.ret if o.st.auto else err_name(o.ret) for o in outs}
            want = {sym(right)} if ready else {"Err:NotReady"}
            if not sef:
                want.add("Err:NeedMoreData")
            ctx.ob(rets == want, "step:sef=%d ready=%d" % (sef, ready),
                   "coding a %s frame with rate control %sready gives %s" % (
                       "re-shown" if sef else "normal",
                       "" if ready else "not ",
                       [show(r) if isinstance(r, V) else r for r in rets]),
                   f.loc())
    ENC = init(".output_frameno")
    for name in ("encode_normal_packet", "encode_show_existing_packet"):
        f = ctx.fn("ContextInner::" + name)

        def call(a, st, nm, rnm, rec, args, site, line):
            l = rnm.rsplit("::", 1)[-1]
            if l in ("encode_frame", "encode_show_existing_frame"):
                return [(st, sym("bytes"))]
            if l in ("extend", "extend_from_slice", "append") and \
                    args[0].k == "ref" and \
                    args[0].a[1] == (".packet_data",):
                ext.append(a.value_of(st, args[1]))
                st.auto = ((st.auto or (0, 0))[0] + 1,
                           (st.auto or (0, 0))[1])
                return [(st, UNIT)]
            if l == "finalize_packet":
                fin.append([a.value_of(st, x) for x in args[1:]])
                st.auto = ((st.auto or (0, 0))[0],
                           (st.auto or (0, 0))[1] + 1)
                return [(st, sym("PACKET"))]
            if any(x.k == "ref" and ".fi" in x.a[1] for x in args) and \
                    l in ("set_quantizers", "compute_spatiotemporal_scores",
                          "compute_temporal_scores", "as_mut"):
                return [(st, sym("@%s:%d" % (l, line or 0)))]
            return None
        ext, fin = [], []
        outs, a = run_cell(c, f, {}, rel={"show_frame"}, call=call, ctx=ctx,
                           args=[S, sym("n")], inline=lambda a, st, g: False)
        ctx.ob(bool(outs), "pkt-path:" + name, name + " never returns",
               f.loc())
        for v in ext:
            ctx.ob(strip(v) is sym("bytes"), "pkt-bytes:" + name,
                   "%s appends %s to the packet" % (name, show(v)[:60]),
                   f.loc())
        kinds, flags = set(), {}
        for o in outs:
            ne, nf = o.st.auto or (0, 0)
            e = err_name(o.ret)
            kinds.add("shown" if nf else e)
            ctx.ob(ne == 1, "pkt-once:" + name, "%s appends the coded frame "
                   "%d times" % (name, ne), f.loc())
            ctx.ob(nf == 1 and o.ret is sym("PACKET") or
                   nf == 0 and e == "Err:Encoded", "pkt-ret:" + name,
                   "%s returns %s with %d packets completed" % (
                       name, show(o.ret)[:60], nf), f.loc())
            ctx.ob(at(o, ".output_frameno") is op("Add", ENC, K(1)),
                   "pkt-next:" + name, "%s does not advance to the next "
                   "frame: %s" % (name, show(at(o, ".output_frameno"))[:60]),
                   f.loc())
            for k in o.st.facts:
                if show(k).endswith(".show_frame"):
                    flags.setdefault(k, []).append((o.st.decide(k), nf == 1))
        if name == "encode_normal_packet":
            # a packet is completed exactly when the coded frame is shown
            ctx.ob(any(len(v) == len(outs) and all(
                d is not None and bool(d) == r for d, r in v)
                for v in flags.values()), "pkt-shown:" + name,
                "completing a packet does not follow the coded frame's "
                "show_frame", f.loc())
        want = {"shown", "Err:Encoded"} if name == "encode_normal_packet" \
            else {"shown"}
        ctx.ob(kinds == want, "pkt-kinds:" + name, "%s ends as %s" % (
            name, sorted(map(str, kinds))), f.loc())
        for v in fin:
            for x, nm in zip(v[2:5], ("input_frameno", "frame_type",
                                      "base_q_idx")):
                ctx.ob(show(x).endswith("." + nm) or isk(x),
                       "pkt-meta:" + nm, "the packet reports %s as its %s" % (
                           show(x)[:60], nm), f.loc())


def predicates(ctx):
    c = ctx.lib
    for name, arg in (("done_processing", None), ("needs_more_frames", 1)):
        fs = c.find("ContextInner::" + name)
        if len(fs) != 1:
            continue        # inlined by hand: inner_limits decides it
        f = fs[0]
        for lim in (None, 0, 1, 5):
            for n in (0, 1, 4, 5, 6):
                cell = {"limit": NONE if lim is None else some(K(lim)),
                        "frames_processed": K(n)}
                outs, a = run_cell(c, f, cell, rel=set(), ctx=ctx,
                                   args=[S] + ([K(n)] if arg else []))
                want = (lim is not None and lim == n) if not arg else (
                    lim is None or n < lim)
                ctx.ob(bool(outs) and all(o.ret is K(int(want))
                                          for o in outs),
                       "%s:%s:%s" % (name, lim, n), "%s with limit %s and %d "
                       "is %s" % (name, lim, n, [show(o.ret)[:40]
                                                 for o in outs]), f.loc())


def inner_send(ctx):
    c = ctx.lib
    f = ctx.fn("ContextInner::send_frame")
    for has in (0, 1):
        bad = []

        def call(a, st, nm, rnm, rec, args, site, line):
            l = rnm.rsplit("::", 1)[-1]
            if l in ("pad", "compute_keyframe_placement"):
                return [(st, UNIT)]
            if l == "insert" and args and args[0].k == "ref" and \
                    args[0].a[0] == ("X", S) and \
                    args[0].a[1] == (".frame_q",):
                st.auto = (st.auto or ()) + (
                    (show(args[1]), args[2].a[2] if args[2].k == "agg"
                     else show(args[2])),)
                return [(st, UNIT)]
            if l == "compute_frame_invariants":
                if not st.auto:
                    bad.append(line)
                return [(st, UNIT)]
        outs, a = run_cell(c, f, {}, rel=set(), call=call, ctx=ctx,
                           args=[S, some(sym("frame")) if has else NONE,
                                 NONE], inline=lambda a, st, g: False)
        n0 = init(".frame_count")
        ctx.ob(bool(outs), "queue-path:%d" % has, "send_frame never returns",
               f.loc())
        for o in outs:
            ctx.ob(err_name(o.ret) == "Ok", "queue-ok", "queueing a frame can "
                   "fail: %s" % show(o.ret)[:60], f.loc())
            fc = at(o, ".frame_count")
            ctx.ob(fc is (op("Add", n0, K(1)) if has else n0),
                   "queue-count:%d" % has, "the frame counter becomes %s "
                   "after %s" % (show(fc)[:60], "a frame" if has else
                                 "the end marker"), f.loc())
            ctx.ob(o.st.auto == ((show(n0), "Some" if has else "None"),),
                   "queue-insert:%d" % has, "the queue receives %s instead "
                   "of the frame under its number" % (o.st.auto,), f.loc())
        for l in bad:
            ctx.violate("queue-order", "frames are planned before the new one "
                        "is queued", f.loc(l))


def channels(ctx):
    c = ctx.lib
    n = 0
    for f in list(c.fns.values()):
        if f.is_ext or f.is_closure:
            continue
        p = f.nname
        m = p.rsplit("::", 1)[-1]
        if "api::channel" not in p or m not in ("send", "try_send") or \
                not ("FrameSender" in p or "RcDataSender" in p):
            continue
        n += 1
        cnt0, lim0 = init(".count"), init(".limit")
        sent = []

        def call(a, st, nm, rnm, rec, args, site, line):
            l = nm.rsplit("::", 1)[-1]
            if l in ("send", "try_send") and "Sender" in nm and \
                    rnm != f.nname:
                st.auto = (st.auto or 0) + 1
                s2 = st.copy()
                return [(st, ok(UNIT)), (s2, err(sym("E")))]
            if l == "into":
                return [(st, sym("frame"))]
            return None
        for lim, cnt in ((0, 0), (1, 0), (5, 4), (5, 5), (5, 6)):
            outs, a = run_cell(c, f, {"limit": K(lim), "count": K(cnt)},
                               rel=set(), call=call, ctx=ctx,
                               args=[S, sym("data")])
            ctx.ob(bool(outs), "chan-path:" + p, p + " never returns",
                   f.loc())
            for o in outs:
                k = o.st.auto or 0
                e = variant(o.ret)[0]
                c1 = at(o, ".count")
                who = "%s::%s" % (p.rsplit("::", 2)[-2], m)
                if cnt >= lim:
                    ctx.ob(k == 0 and e == "Err" and c1 is K(cnt),
                           "chan-limit:" + who, "%s at its limit (%d of %d) "
                           "still sends or counts" % (who, cnt, lim),
                           f.loc())
                else:
                    ctx.ob(k == 1, "chan-send:" + who, "%s under its limit "
                           "(%d of %d) sends %d times" % (who, cnt, lim, k),
                           f.loc())
                    ctx.ob(c1 is K(cnt + 1 if e == "Ok" else cnt),
                           "chan-count:" + who, "%s counts %s after %s" % (
                               who, show(c1)[:40], e), f.loc())
    ctx.floor("channel_senders", n, 4)


def owners(ctx):
    """limit and frames_processed only change where the protocol says so."""
    c = ctx.lib
    for fld_ in ("limit", "frames_processed", "frame_count"):
        ws = list(field_writes(c, "api::internal::ContextInner", fld_))
        ctx.floor("writers_of_" + fld_, len(ws), 2)
        for f, line, rv in ws:
            ctx.ob(f.nname.startswith("api::"), "owner:%s:%s" % (
                fld_, f.nname), "%s is changed by %s" % (fld_, f.nname),
                f.loc(line))

"""C11: key frames are placed where the configuration and the caller ask."""
from sa.val import *
from sa.gate import *
from sa.query import field_borrows, field_writes

RULE = """Cell-wise abstract interpretation of the key frame decisions: the
placement step (forced or detected, exactly the frame under analysis, every
frame once), the distance to the next key frame (minimum of the next recorded
key frame, the maximum interval and the frame limit), the configuration setters
and the parameters of every scene-change detector."""
ASSUME = ["the scene change detector crate honours its interval arguments",
          "BTreeSet iterates in ascending order"]
S = sym("self")


def run(ctx):
    place(ctx)
    distance(ctx)
    feed(ctx)
    setter(ctx)
    detectors(ctx)
    owners(ctx)


def place(ctx):
    c = ctx.lib
    f = ctx.fn("ContextInner::compute_keyframe_placement")
    # parameters by type: the two sets, the counter
    ps = {}
    for i in range(1, f.nargs + 1):
        t = c.types[f.locals[i]]
        ps[i] = t["s"]
    sets = [i for i, s in ps.items() if "BTreeSet" in s]
    ctr = [i for i, s in ps.items() if s.replace(" ", "") == "&mutu64"]
    forced = [i for i in sets if "mut" not in ps[i]]
    keys = [i for i in sets if "mut" in ps[i]]
    if not (len(ctr) == len(forced) == len(keys) == 1):
        ctx.violate("anchor:placement", "the parameters of "
                    "compute_keyframe_placement are %s" % ps, f.loc())
        return
    FO, KE, N = (sym("a%d" % i[0]) for i in (forced, keys, ctr))
    for isf in (0, 1):
        for det in (0, 1):
            for n in (1, 2, 17):
                bad = []

                def call(a, st, nm, rnm, rec, args, site, line):
                    l = nm.rsplit("::", 1)[-1]
                    if l == "contains":
                        k = dv(a, st, args[1])
                        if show(FO) not in show(args[0]):
                            return None
                        if k is not K(n):
                            bad.append("asks whether %s was forced" % show(k))
                        return [(st, K(isf))]
                    if l == "analyze_next_frame":
                        k = a.value_of(st, args[2])
                        if k is not K(n):
                            bad.append("analyses frame %s" % show(k))
                        last = show(a.value_of(st, args[3]))
                        if "last" not in last and "max" not in last and \
                                "next_back" not in last:
                            bad.append("measures the interval from " + last)
                        return [(st, K(det))]
                    if l in ("insert", "remove", "clear", "replace", "extend",
                             "append", "retain", "pop_last", "take"):
                        tgt = show(args[0])
                        if show(KE) in tgt:
                            st.auto = (st.auto or ()) + ((
                                l, a.value_of(st, args[1])
                                if len(args) > 1 else None),)
                            return [(st, K(1))]
                    return None
                outs, a = run_cell(
                    c, f, {"a%d:" % ctr[0]: K(n)}, rel=set(), call=call,
                    ctx=ctx, args=[sym("a%d" % i)
                                   for i in range(1, f.nargs + 1)])
                key = "forced=%d detected=%d frame=%d" % (isf, det, n)
                ctx.ob(bool(outs), "place-path", "placement never returns (%s)"
                       % key, f.loc())
                for b in set(bad):
                    ctx.violate("place-arg", "key frame placement for frame %d "
                                "%s" % (n, b), f.loc())
                for o in outs:
                    want = (("insert", K(n)),) if isf or det else ()
                    ctx.ob((o.st.auto or ()) == want, "place:%d%d" % (isf, det),
                           "%s: key frames change by %s" % (key, [
                               (x, show(y)) for x, y in o.st.auto or ()]),
                           f.loc())
                    v = o.st.load((("X", N), ()))
                    ctx.ob(v is K(n + 1), "place-next", "%s: the next frame "
                           "analysed is %s" % (key, show(v)[:60]), f.loc())


def dv(a, st, x):
    """the value behind a reference, whether built here or a parameter"""
    v = a.value_of(st, x)
    if v.k == "sym":
        w = st.load((("X", v), ()))
        return w if isk(w) else v
    return v


def distance(ctx):
    c = ctx.lib
    f = ctx.fn("ContextInner::next_keyframe_input_frameno")
    start = 10
    for mx in (1, 5, 240):
        for lim in (None, 11, 13, 40, 1000):
            for det in (None, 11, 14, 100, 500):
                for ign in (0, 1):
                    found = []

                    def call(a, st, nm, rnm, rec, args, site, line):
                        l = nm.rsplit("::", 1)[-1]
                        if l in ("find", "range", "next", "first", "nth",
                                 "skip_while", "min", "filter", "find_map",
                                 "map", "copied", "cloned", "iter", "peekable",
                                 "position"):
                            src = show(args[0]) + show(
                                a.value_of(st, args[0]))
                            if "keyframes" not in src and "KF" not in src:
                                return None
                            if l in ("find", "next", "first", "min"):
                                if l == "find":
                                    found.append(pred(a, c, st, args[1]))
                                st.put((("X", sym("KFD")), ()),
                                       K(det if det is not None else 0))
                                return [(st, NONE if det is None else some(
                                    mk("ref", ("X", sym("KFD")), (), 0)))]
                            if l in ("copied", "cloned") and args[0].k == \
                                    "agg":
                                return None
                            if l in ("filter", "skip_while"):
                                p = pred(a, c, st, args[1])
                                found.append(p if l == "filter" else
                                             neg(p))
                            if l == "range":
                                found.append(rng(a, st, args[1]))
                            if l in ("iter", "filter", "skip_while", "range",
                                     "copied", "cloned", "peekable"):
                                return [(st, sym("KF"))]
                        return None
                    outs, a = run_cell(
                        c, f, {"config*.max_key_frame_interval": K(mx),
                               "limit": NONE if lim is None else
                               some(K(lim))}, rel=set(), call=call, ctx=ctx,
                        args=[S, K(start), K(ign)])
                    cand = [start + mx]
                    if lim is not None and not ign:
                        cand.append(lim)
                    if det is not None:
                        cand.append(det)
                    ctx.ob(bool(outs) and all(o.ret is K(min(cand))
                                              for o in outs), "distance",
                           "from key frame %d with interval %d, limit %s%s "
                           "and next recorded key frame %s the next key frame "
                           "is %s instead of %d" % (
                               start, mx, lim, " (ignored)" if ign else "",
                               det, [show(o.ret)[:40] for o in outs],
                               min(cand)), f.loc())
                    ctx.ob(found and all(p is not None and
                                         p == frozenset({11, 12})
                                         for p in found), "distance-after",
                           "the next key frame is searched among %s" % (
                               [sorted(p) if p else p for p in found],),
                           f.loc())


PROBE = (8, 9, 10, 11, 12)


def pred(a, c, st, clo):
    """the probe values around 10 the closure accepts"""
    v = a.value_of(st, clo)
    if v.k != "agg" or v.a[0] != "closure" and "closure" not in str(v.a[0]):
        fn = None
    fn = None
    for x in (v.a[1], v.a[2] if len(v.a) > 2 else None):
        if isinstance(x, str) and x in c.fns:
            fn = c.fns[x]
    if fn is None:
        return None
    r = set()
    ety = c.types[fn.locals[1]]
    for p in PROBE:
        s0 = {"ENV:": v, "E0:": K(p)}
        e0 = mk("ref", ("X", sym("E0")), (), 0)
        for dep in (1, 2):
            arg = e0
            if dep == 2:
                s0["E1:"] = e0
                arg = mk("ref", ("X", sym("E1")), (), 0)
            try:
                outs, _ = run_cell_with(c, fn, s0, st, [
                    mk("ref", ("X", sym("ENV")), (), 1)
                    if ety["k"] in ("ref", "ptr") else v, arg])
            except Exception:
                continue
            rs = {o.ret for o in outs}
            if rs == {K(1)}:
                r.add(p)
            if rs in ({K(1)}, {K(0)}):
                break
        else:
            return None
    return frozenset(r)


def run_cell_with(c, fn, cell, st, args):
    from sa import ae as _ae
    from sa.gate import CellPolicy
    pol = CellPolicy(set())
    a = _ae.AE(c, pol)
    s = a.start(fn, args)
    # the captured references point into the caller's frame
    for k, v in st.store.items():
        if k not in s.store and k[0] == "X":
            s.store[k] = v
    ren = {}
    for k, v in st.store.items():
        if k[0] == "L" and k[1] == len(st.frames):
            ren[k] = ("X", sym("cap.%s" % k[2]))
            s.store[ren[k]] = v
    for p, v in cell.items():
        r, q = p.split(":", 1)
        v = reroot(v, ren)
        s.put((("X", sym(r)), elems(q)), v)
    outs = a.run(s)
    return [o for o in outs if o.kind == "ret"], a


def reroot(v, ren):
    if v.k == "ref" and v.a[0] in ren:
        return mk("ref", ren[v.a[0]], *v.a[1:])
    if v.k == "agg":
        return mk("agg", *v.a[:4], tuple(reroot(x, ren) for x in v.a[4]))
    return v


def neg(p):
    return None if p is None else frozenset(set(PROBE) - p)


def rng(a, st, v):
    v = a.value_of(st, v)
    lo = None
    if v.k == "agg" and v.a[4] and isk(v.a[4][0]) and "RangeFrom" in str(
            v.a[1]):
        lo = v.a[4][0].a[0]
        return frozenset(p for p in PROBE if p >= lo)
    return None


def feed(ctx):
    """send_frame feeds the placement with its own state, oldest first."""
    c = ctx.lib
    f = ctx.fn("ContextInner::send_frame")
    seen = []

    def call(a, st, nm, rnm, rec, args, site, line):
        l = rnm.rsplit("::", 1)[-1]
        if l == "compute_keyframe_placement":
            seen.append([show(x) for x in args])
            st.auto = "placed"
            return [(st, UNIT)]
        if l in ("pad", "compute_frame_invariants"):
            return [(st, UNIT)]
        if l == "needs_more_frame_q_lookahead":
            arg.append(a.value_of(st, args[1]))
            s2 = st.copy()
            s2.auto = "short"
            return [(st, K(0)), (s2, K(1))]
        return None
    arg = []
    outs, a = run_cell(c, f, {}, rel=set(), call=call, ctx=ctx,
                       args=[S, some(sym("frame")), NONE],
                       inline=lambda a, st, g: g.is_closure)
    autos = {o.st.auto for o in outs}
    ctx.ob(autos == {"placed", "short"}, "feed", "a new frame leads to %s" %
           sorted(map(str, autos)), f.loc())
    for v in arg:
        ctx.ob(show(v) == "self.next_lookahead_frame", "feed-guard",
               "the look-ahead is checked for %s" % show(v)[:60], f.loc())
    want = ("self.keyframes_forced", "self.keyframe_detector",
            "self.next_lookahead_frame", "self.keyframes")
    for s in seen:
        ctx.ob(sum("&" + w in s for w in want) == len(want), "feed-state",
               "key frame placement works on %s" % s, f.loc())
    ctx.floor("placement_calls", len(seen), 1)


def setter(ctx):
    c = ctx.lib
    f = ctx.fn("EncoderConfig::set_key_frame_interval")
    top = ((1 << 31) - 1) // 3
    for mn in (0, 1, 12, 500):
        for mx in (0, 1, 2, 240, 1000):
            outs, a = run_cell(c, f, {}, rel=set(), ctx=ctx,
                               args=[S, K(mn), K(mx)])
            ctx.ob(bool(outs), "set-path", "the setter never returns", f.loc())
            for o in outs:
                a_ = o.st.load((("X", S), (".min_key_frame_interval",)))
                b_ = o.st.load((("X", S), (".max_key_frame_interval",)))
                ctx.ob(a_ is K(mn), "set-min", "minimum interval %d is stored "
                       "as %s" % (mn, show(a_)[:40]), f.loc())
                w = mx if mx else top
                ctx.ob(b_ is K(w), "set-max", "maximum interval %d is stored "
                       "as %s" % (mx, show(b_)[:40]), f.loc())


def detectors(ctx):
    c = ctx.lib
    n = 0
    for f in c.fns.values():
        if f.is_ext:
            continue
        if not any("SceneChangeDetector" in r["p"] and
                   r["p"].endswith("::new") for _, r, _, _ in
                   calls(f)):
            continue
        n += 1
        got = []

        def call(a, st, nm, rnm, rec, args, site, line):
            if "SceneChangeDetector" in nm and nm.endswith("::new"):
                got.append([show(a.value_of(st, x)) for x in args])
                return [(st, sym("DET"))]
            l = rnm.rsplit("::", 1)[-1]
            if l in ("new", "to_vec") and "InterConfig" not in rnm:
                return [(st, sym(l))]
            if "InterConfig" in rnm:
                return [(st, sym(l))]
            return None
        cfgs = [i for i in range(1, f.nargs + 1)
                if "EncoderConfig" in c.types[f.locals[i]]["s"]]
        args = [sym("enc") if i in cfgs else sym("x%d" % i)
                for i in range(1, f.nargs + 1)]
        outs, a = run_cell(c, f, {}, rel=set(), call=call, ctx=ctx, args=args,
                           inline=lambda a, st, g: False)
        for g in got:
            want = {5: "", 6: "enc.min_key_frame_interval",
                    7: "enc.max_key_frame_interval", 1: "enc.bit_depth",
                    3: "enc.chroma_sampling"}
            for i, w in want.items():
                ctx.ob(w in g[i], "detector:%s:%d" % (f.nname, i), "the scene "
                       "change detector of %s is given %s instead of %s" % (
                           f.nname, g[i][:60], w), f.loc())
        ctx.ob(bool(got), "detector:" + f.nname, "the detector parameters of "
               "%s cannot be traced" % f.nname, f.loc())
    ctx.floor("scene_change_detectors", n, 2)


def calls(f):
    for b, bb in enumerate(f.bbs):
        if bb is not None and bb[1][0] == "call" and bb[1][1][0] == "fn":
            yield b, bb[1][1][1], bb[1][2], bb[1]


def owners(ctx):
    c = ctx.lib
    n = 0
    for f, line, pl in field_borrows(c, "api::internal::ContextInner",
                                     "keyframes"):
        n += 1
        ctx.ob(f.nname.endswith("ContextInner::send_frame") or
               only_from(c, f, "ContextInner::send_frame"),
               "owner:" + f.nname, "the recorded key frames are changed by "
               + f.nname, f.loc(line))
    ctx.floor("borrows_of_keyframes", n, 1)
    for f, line, rv in field_writes(c, "api::internal::ContextInner",
                                    "keyframes"):
        ctx.ob(f.nname.endswith("ContextInner::new"), "reset:" + f.nname,
               "the recorded key frames are replaced by " + f.nname,
               f.loc(line))
    # a new encoder starts with frame 0 as its only key frame
    f = ctx.fn("ContextInner::new")
    ins = []

    def call(a, st, nm, rnm, rec, args, site, line):
        l = rnm.rsplit("::", 1)[-1]
        if "BTreeSet" in nm and l == "insert":
            ins.append(a.value_of(st, args[1]))
            st.auto = (st.auto or ()) + (a.value_of(st, args[1]),)
            return [(st, K(1))]
        return [(st, sym(l))] if l in ("new", "to_vec", "default") else None
    outs, a = run_cell(c, f, {}, rel=set(), call=call, ctx=ctx,
                       args=[sym("enc")], inline=lambda a, st, g: False)
    for o in outs:
        ctx.ob(o.st.auto == (K(0),), "first", "a new encoder starts with key "
               "frames %s" % [show(x) for x in o.st.auto or ()], f.loc())
        for fl, w in (("next_lookahead_frame", 1), ("frame_count", 0),
                      ("output_frameno", 0), ("frames_processed", 0),
                      ("next_lookahead_output_frameno", 0)):
            v = proj(o.ret, "." + fl)
            ctx.ob(v is K(w), "first:" + fl, "a new encoder starts with %s=%s"
                   % (fl, show(v)[:40]), f.loc())
        ctx.ob(proj(o.ret, ".limit") is NONE, "first:limit", "a new encoder "
               "starts with a frame limit", f.loc())
    ctx.ob(bool(outs), "first-path", "ContextInner::new never returns",
           f.loc())


def only_from(c, f, name, depth=2):
    cs = [c.fns[k] for k in c.callers().get(f.key, ()) if k in c.fns
          and k != f.key]
    return bool(cs) and all(g.nname.endswith(name) or depth and only_from(
        c, g, name, depth - 1) for g in cs)

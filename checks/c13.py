"""C13: two-pass data is written, read back and validated consistently."""
from sa.val import *
from sa.gate import *
from sa.bits import bits, canon, rewrite
from sa.ae import State
from sa.query import field_writes, field_borrows

RULE = """Bit-provenance analysis of the first-pass writer and the second-pass
reader (each written byte and each parsed field is a vector of named input
bits, compared with one layout), path analysis of the reader's validation, and
cell-wise abstract interpretation of the hand-over protocol."""
ASSUME = ["frame sub-types are 0..4 and quantities fit their declared width"]
S = sym("self")
MAGIC, VERSION = 0x50324156, 1
# (field, byte offset, bytes, signed)
SUMMARY = [("ntus", 8, 4, True)] + \
    [("nframes[%d]" % i, 12 + 4 * i, 4, True) for i in range(5)] + \
    [("exp[%d]" % i, 32 + i, 1, False) for i in range(4)] + \
    [("scale_sum[%d]" % i, 36 + 8 * i, 8, True) for i in range(4)]


def run(ctx):
    summary_out(ctx)
    summary_in(ctx)
    frame_out(ctx)
    frame_in(ctx)
    placeholder(ctx)
    protocol(ctx)
    ready(ctx)
    packet(ctx)
    setup(ctx)
    required(ctx)
    update(ctx)
    owners(ctx)


def hook(a, st, name, rname, rec, args, site, line):
    n = (rname or name or "").rsplit("::", 1)[-1]
    if n == "bexp_q24":
        return [(st, op("bexp", args[0]))]
    return None


def go(ctx, f, cell={}, args=None, count=80, **kw):
    kw.setdefault("call", hook)
    outs, a = run_cell(ctx.lib, f, cell, args=args, ctx=ctx, count=count, **kw)
    ctx.ob(bool(outs), "path:" + f.name, "no path through %s returns" %
           f.nname, f.loc())
    return outs


def T(p, i=None):
    """The initial value of self.<p>[i]."""
    from sa.ae import State
    if i is None and "[" in p:
        p, i = p[:-1].split("[")
        i = int(i)
    return State().load((("X", S), elems(p) +
                         (() if i is None else (("i", K(i)),))))


def load(o, p, root=S):
    return o.st.load((("X", root), elems(p)))


def elem(o, p, i):
    return o.st.load((("X", S), elems(p) + (("i", K(i)),)))


def word(off, n, signed, b):
    """bits of a little-endian field in bytes b."""
    v = [(b[off + i], j) for i in range(n) for j in range(8)]
    return v + [v[-1] if signed else 0] * (64 - len(v))


def retlen(v):
    """The length of the returned slice self.pass1_buffer[..n]."""
    k, p = variant(v)
    v = p if k == "Some" else v
    s = show(v)
    if "pass1_buffer[sl,ops::RangeTo{.end:" in s:
        return int(s.split(".end:")[1].split("}")[0])
    if "pass1_buffer[sl,ops::Range{.start:0" in s:
        return int(s.split(".end:")[1].split("}")[0])
    if s == "&self.pass1_buffer":
        return 68
    return None


def summary_out(ctx):
    f = ctx.fn("RCState::emit_summary")
    w = {T(n): (8 * k, s) for n, _, k, s in SUMMARY}
    for o in go(ctx, f):
        ctx.ob(retlen(o.ret) == 68, "sum-size", "the summary is %s bytes, not "
               "68" % show(o.ret)[:60], f.loc())
        want = {}
        for i in range(4):
            want[i] = [MAGIC >> 8 * i + j & 1 for j in range(8)]
            want[4 + i] = [VERSION >> 8 * i + j & 1 for j in range(8)]
        for n, off, k, s in SUMMARY:
            for i in range(k):
                want[off + i] = [(T(n), 8 * i + j)
                                 for j in range(8)]
        name = {}
        for n, off, k, s in SUMMARY:
            for i in range(k):
                name[off + i] = n
        for i in range(68):
            v = elem(o, "pass1_buffer", i)
            b = bits(v, w)
            ctx.ob(b is not None and b[:8] == want[i], "sum-byte:" +
                   name.get(i, "magic/version"), "summary byte %d (%s) is %s" %
                   (i, name.get(i, "magic/version"), show(v)[:60]), f.loc())
        ctx.ob(load(o, "pass1_summary_retrieved") is K(1), "sum-once",
               "emitting the summary does not mark it retrieved", f.loc())
        ctx.sample("summary: 68 bytes, each bit traced to its field")


def bufcell(n=68):
    b = [sym("b%d" % i) for i in range(n)]
    return b, {x: (8, False) for x in b}


def des_cell(b, pre=""):
    return {pre + "pass2_buffer_pos": K(0), pre + "pass2_buffer":
            agg("array", None, None,
                tuple("#%d" % i for i in range(len(b))), tuple(b))}


def summary_in(ctx):
    f = ctx.fn("RCDeserialize::parse_summary")
    b, w = bufcell()
    lay = [("magic", 0, 4, False), ("version", 4, 4, False)] + SUMMARY
    known = {}
    for n, off, k, s in lay:
        known[tuple(word(off, k, s, b))] = sym(n)
        if n in ("magic", "version"):
            known[tuple(word(off, k, True, b))] = sym(n)
    w2 = dict(w)
    oks = 0
    nf = [sym("nframes[%d]" % i) for i in range(5)]
    for o in go(ctx, f, des_cell(b)):
        k, p = variant(o.ret)
        facts = {}
        for v, x in o.st.facts.items():
            facts[canon(v, w2, known)] = x
        if k == "Ok":
            oks += 1
            for n, off, nb, s in SUMMARY:
                fl, ix = (n.split("[") + [None])[:2]
                v = proj(p, "." + fl)
                if ix:
                    v = proj(v, ("i", K(int(ix[:-1]))))
                v = canon(v, w2, known)
                ctx.ob(v is sym(n), "sum-field:" + fl, "parsed %s is %s" %
                       (n, show(v)[:80]), f.loc())
            t = total(canon(proj(p, ".total"), w2, known))
            ctx.ob(t == set(nf), "sum-total", "total is the sum of %s" % (
                sorted(map(show, t)) if t else show(proj(p, ".total"))[:60]),
                f.loc())

            def rng(n):
                return f_lohi(facts.get(sym(n), f_ge(-2 ** 63)))
            ctx.ob(facts.get(sym("magic")) == f_set(MAGIC), "sum-magic",
                   "a summary is accepted with another magic value", f.loc())
            ctx.ob(facts.get(sym("version")) == f_set(VERSION), "sum-version",
                   "a summary is accepted with another version", f.loc())
            ctx.ob((rng("ntus")[0] or 0) >= 1, "sum-ntus",
                   "a summary with no TU is accepted", f.loc())
            for i in range(5):
                lo = rng("nframes[%d]" % i)[0]
                ctx.ob(lo is not None and lo >= 0, "sum-nframes", "a negative "
                       "frame count (type %d) is accepted" % i, f.loc())
            for i in range(4):
                lo = rng("scale_sum[%d]" % i)[0]
                ctx.ob(lo is not None and lo >= 0, "sum-scale", "a negative "
                       "scale sum (type %d) is accepted" % i, f.loc())
            ctx.ob(checked(facts), "sum-overflow", "the frame count can wrap "
                   "around", f.loc())
            ctx.ob(ntus_le_total(facts, nf), "sum-tus", "more TUs than frames "
                   "are accepted", f.loc())
        else:
            why = [show(v) for v, x in facts.items()
                   if bad(v, x, nf)]
            ctx.ob(bool(why), "sum-reject", "a well-formed summary can be "
                   "rejected: %s" % show(o.ret)[:60], f.loc())
    ctx.ob(oks == 1, "sum-accept", "%d accepting paths" % oks, f.loc())


def total(v):
    """The set of terms a (checked) sum adds."""
    out = set()
    st = [v]
    while st:
        x = st.pop()
        if x is K(0):
            continue
        if x.k == "sym":
            if x in out:
                return None
            out.add(x)
            continue
        if x.k == "proj" or x.k == "op" and x.a[0] in ("Add",) or \
                "checked_add" in str(x.a[0]):
            ks = [y for y in kids(x)]
            if not ks:
                return None
            st.extend(ks)
            continue
        return None
    return out


def is_total(v, nf):
    return v.k != "sym" and total(v) == set(nf)


def checked(facts):
    for v, x in facts.items():
        s = show(v)
        if s.startswith("discr(") and "checked_add" in s and \
                x == f_set(1) and "nframes[4]" in s:
            return True
    return False


def rel(v, x, nf):
    """fact says: (ntus > total) -> True / False / None (not that fact)."""
    if v.k != "op" or v.a[0] not in ("Lt", "Le", "Gt", "Ge"):
        return None
    l, r = v.a[1]
    t = f_single(x)
    if t is None:
        return None
    n, o = sym("ntus"), v.a[0]
    if l is n and is_total(r, nf):
        return bool(t) if o == "Gt" else not t if o == "Le" else None
    if r is n and is_total(l, nf):
        return bool(t) if o == "Lt" else not t if o == "Ge" else None
    return None


def ntus_le_total(facts, nf):
    return any(rel(v, x, nf) is False for v, x in facts.items())


def bad(v, x, nf):
    lo, hi = f_lohi(x)
    s = show(v)
    if v.k == "sym":
        if s == "magic":
            return not f_has(x, MAGIC)
        if s == "version":
            return not f_has(x, VERSION)
        if s == "ntus":
            return hi is not None and hi < 1
        return hi is not None and hi < 0
    if s.startswith("discr(") and "checked_add" in s:
        return x == f_set(0)
    return rel(v, x, nf) is True


def frame_out(ctx):
    f = ctx.fn("RCState::emit_frame_data")
    fti, sh, ls = [T("prev_metrics." + n) for n in
                   ("fti", "show_frame", "log_scale_q24")]
    w = {fti: (3, False), sh: (1, False), ls: (32, True)}
    word0 = [(fti, 0), (fti, 1), (fti, 2)] + [0] * 28 + [(sh, 0)]
    full = word0 + [(ls, i) for i in range(32)]
    for t in range(5):
        for s in (0, 1):
            outs = go(ctx, f, {"prev_metrics.fti": K(t),
                               "prev_metrics.show_frame": K(s)})
            for o in outs:
                k, p = variant(o.ret)
                if k == "None":
                    ok = any("nencoded_frames" in show(v) and
                             (f_lohi(x)[0] or 0) >= 2 ** 31 - 1
                             for v, x in o.st.facts.items())
                    ctx.ob(ok, "frame-none", "frame data is withheld before "
                           "2^31-1 frames were encoded", f.loc())
                    continue
                ctx.ob(retlen(o.ret) == 8, "frame-size", "a frame packet is "
                       "%s, not 8 bytes" % show(o.ret)[:60], f.loc())
                for i in range(8):
                    v = elem(o, "pass1_buffer", i)
                    b = bits(v, w)
                    if b is not None:
                        b = [t >> x[1] & 1 if x and x != 1 and x[0] is fti
                             else s if x and x != 1 and x[0] is sh else x
                             for x in b[:8]]
                    e = [t >> x[1] & 1 if x and x[0] is fti else
                         s if x and x[0] is sh else x
                         for x in full[8 * i:8 * i + 8]]
                    ctx.ob(b == e, "frame-byte", "byte %d of a frame packet is "
                           "%s for type %d, shown %d" % (i, show(v)[:60], t, s),
                           f.loc())
                for i in range(4):
                    v = show(elem(o, "scale_sum", i))
                    e = "self.scale_sum[%d]" % i
                    if i == t:
                        ctx.ob("bexp(self.prev_metrics.log_scale_q24)" in v and
                               v.count("scale_sum") == 1 and "Add" in v,
                               "frame-sum", "the scale sum of type %d becomes "
                               "%s" % (i, v[:60]), f.loc())
                    else:
                        ctx.ob(v == e, "frame-sum", "emitting type %d changes "
                               "the scale sum of type %d" % (t, i), f.loc())
                v = show(load(o, "ntus"))
                ctx.ob(v == ("Add(self.ntus,1)" if s else "self.ntus"),
                       "frame-ntus", "the TU count becomes %s when shown=%d" %
                       (v[:40], s), f.loc())
                ctx.ob(load(o, "pass1_data_retrieved") is K(1), "frame-once",
                       "frame data is not marked retrieved", f.loc())


def metric_names(b):
    show_ = [(b[3], 7)] + [0] * 63
    fti = [(b[i // 8], i % 8) for i in range(31)] + [0] * 33
    return {tuple(show_): sym("show"), tuple(fti): sym("fti"),
            tuple(word(4, 4, True, b)): sym("log_scale"),
            tuple(word(4, 4, False, b)): sym("log_scale_u")}


def frame_in(ctx):
    f = ctx.fn("RCDeserialize::parse_metrics")
    b, w = bufcell(68)
    known = metric_names(b)
    n = 0
    for o in go(ctx, f, des_cell(b)):
        k, p = variant(o.ret)
        facts = {canon(v, w, known): x for v, x in o.st.facts.items()}
        lo, hi = f_lohi(facts.get(sym("fti"), f_ge(0)))
        if k == "Ok":
            n += 1
            ctx.ob(hi == 4, "frame-type", "frame types up to %s are accepted" %
                   hi, f.loc())
            for fl, e in (("fti", "fti"), ("log_scale_q24", "log_scale"),
                          ("show_frame", "show")):
                v = canon(proj(p, "." + fl), w, known)
                ctx.ob(v is sym(e), "frame-field:" + fl, "parsed %s is %s" %
                       (fl, show(v)[:80]), f.loc())
        else:
            ctx.ob(lo is not None and lo >= 5, "frame-reject",
                   "a valid frame packet can be rejected", f.loc())
    ctx.ob(n >= 1, "frame-accept", "no frame packet is accepted", f.loc())


def placeholder(ctx):
    f = ctx.fn("RCState::emit_placeholder_summary")
    for o in go(ctx, f):
        ctx.ob(retlen(o.ret) == 68, "ph-size", "the placeholder is %s" %
               show(o.ret)[:60], f.loc())
        for i in range(68):
            e = (MAGIC >> 8 * i if i < 4 else VERSION if i == 4 else 0) & 255
            v = elem(o, "pass1_buffer", i)
            ctx.ob(v is K(e), "ph-byte", "placeholder byte %d is %s" %
                   (i, show(v)[:40]), f.loc())
        ctx.ob(load(o, "pass1_data_retrieved") is K(1), "ph-once",
               "the placeholder is not marked retrieved", f.loc())


EM = {"emit_summary": "SUMMARY", "emit_frame_data": "FRAME",
      "emit_placeholder_summary": "PLACEHOLDER"}


def emhook(a, st, name, rname, rec, args, site, line):
    n = (rname or name or "").rsplit("::", 1)[-1]
    if n in EM and "RCState" in (rname or name):
        if n == "emit_frame_data":
            return [(st, some(sym("FRAME")))]
        return [(st, sym(EM[n]))]
    if n == "done_processing":
        return [(st, sym("done"))]
    return None


def protocol(ctx):
    f = ctx.fn("RCState::twopass_out")
    for got in (0, 1):
        for state in range(4):
            for done in (0, 1):
                for summ in (0, 1):
                    outs = go(ctx, f, {
                        "pass1_data_retrieved": K(got),
                        "twopass_state": K(state),
                        "pass1_summary_retrieved": K(summ)},
                        args=[S, K(done)], call=emhook)
                    if not got:
                        e = "FRAME" if state in (1, 3) else "PLACEHOLDER"
                    elif done and not summ:
                        e = "SUMMARY"
                    else:
                        e = None
                    for o in outs:
                        k, p = variant(o.ret)
                        v = show(p) if k == "Some" else None
                        ctx.ob(v == e, "out", "twopass_out gives %s, not %s, "
                               "when retrieved=%d pass=%d done=%d summary=%d" %
                               (v, e, got, state, done, summ), f.loc())
    f = ctx.fn("Context::rc_receive_pass_data")
    for got in (0, 1):
        for done in (0, 1):
            outs = go(ctx, f, {"inner.rc_state.pass1_data_retrieved":
                               K(got)}, call=lambda *x: None
                      if not (x[3] or x[2] or "").endswith("done_processing")
                      and (x[3] or x[2] or "").rsplit("::", 1)[-1] not in EM
                      else [(x[1], K(done))]
                      if (x[3] or x[2]).endswith("done_processing")
                      else emhook(*x))
            e = "FRAME" if not got else "SUMMARY" if done else None
            for o in outs:
                k, p = variant(o.ret)
                v = None
                if k == "Some":
                    v = {"Frame": "FRAME", "Summary": "SUMMARY"}.get(p.a[2])
                    if v and v not in show(p):
                        v = "mislabelled " + show(p)[:60]
                ctx.ob(v == e, "pass-data", "rc_receive_pass_data gives %s, "
                       "not %s, when retrieved=%d done=%d" % (v, e, got, done),
                       f.loc())


def ready(ctx):
    f = ctx.fn("RCState::ready")
    for state in range(4):
        for p1 in (0, 1):
            for p2 in (0, 1):
                e = ((p1 or not state & 1) and (p2 or not state & 2))
                for o in go(ctx, f, {"twopass_state": K(state),
                                     "pass1_data_retrieved": K(p1),
                                     "pass2_data_ready": K(p2)}):
                    v = f_single(o.st.rng(o.ret)) if not isk(o.ret) \
                        else o.ret.a[0]
                    ctx.ob(v == int(e), "ready", "ready() is %s in pass state "
                           "%d with first-pass data %s, second-pass data %s" %
                           (show(o.ret), state,
                            "retrieved" if p1 else "pending",
                            "fed" if p2 else "missing"), f.loc())


STATE = ["nframe_metrics", "cur_metrics", "pass2_data_ready",
         "scale_window_nframes", "scale_window_sum", "scale_window_ntus",
         "frame_metrics", "frame_metrics_head"]


def packet(ctx):
    """parse_frame_data_packet: all or nothing, window bookkeeping."""
    f = ctx.fn("RCState::parse_frame_data_packet")
    b, w = [State().load((("X", sym("buf")), (("i", K(i)),))) for i in range(8)], {}
    w = {x: (8, False) for x in b}
    known = metric_names(b)
    oks = set()
    for o in go(ctx, f, {"des.pass2_buffer_fill": K(0)},
                args=[S, sym("buf")]):
        k, p = variant(o.ret)
        facts = {canon(v, w, known): x for v, x in o.st.facts.items()}
        ln = facts.get(sym("len(buf)"), None)
        for v, x in facts.items():
            if show(v) == "len(buf)":
                ln = x
        fill = load(o, "des.pass2_buffer_fill")
        ctx.ob(fill is K(0), "pkt-discard", "after a packet (%s) %s bytes stay "
               "in the parser" % (show(o.ret)[:60], show(fill)[:20]), f.loc())
        if k != "Ok":
            for n in STATE:
                v = show(load(o, n))
                ctx.ob(v == "self." + n, "pkt-atomic", "a rejected packet "
                       "changes %s" % n, f.loc())
            continue
        ctx.ob(ln == f_set(8), "pkt-len", "a packet of another size than 8 is "
               "accepted", f.loc())
        lo, hi = f_lohi(facts.get(sym("fti"), f_ge(0)))
        ctx.ob(hi is not None and hi <= 4, "pkt-type", "a packet with an "
               "invalid frame type is accepted", f.loc())
        whole = None
        for v, x in facts.items():
            if show(v) == "len(self.frame_metrics)":
                whole = not f_has(x, 1)
        if whole is None:
            ctx.violate("pkt-mode", "buffering mode not decided", f.loc())
            continue
        if whole:
            v = canon(load(o, "cur_metrics"), w, known)
            ctx.ob(isrec(v), "pkt-cur", "whole-file mode: current metrics are "
                   "%s" % show(v)[:80], f.loc())
            ctx.ob(load(o, "pass2_data_ready") is K(1), "pkt-ready",
                   "whole-file mode: not ready after the packet", f.loc())
            oks.add("whole")
            continue
        oks.add("finite")
        need = None
        for v, x in facts.items():
            s = show(v)
            if "reservoir_frame_delay" in s and "nframes_left" in s:
                need = x
        ctx.ob(need is not None and (f_lohi(need)[0] or 0) >= 1, "pkt-need",
               "a packet is accepted although no frame is needed", f.loc())
        if need is None:
            continue
        v = show(load(o, "nframe_metrics"))
        ctx.ob(v == "Add(self.nframe_metrics,1)", "pkt-count",
               "the number of stored packets becomes %s" % v[:60], f.loc())
        ctx.ob(room(facts), "pkt-room", "a packet is stored in a full ring "
               "buffer", f.loc())
        tys = [t for t in range(5) if f_has(facts.get(sym("fti"), f_ge(0)), t)]
        v = show(canon(load(o, "scale_window_nframes"), w, known))
        ctx.ob(v == "self.scale_window_nframes{[fti]=Add("
               "self.scale_window_nframes[fti],1)}", "pkt-nframes",
               "the window's frame counts become %s" % v[:100], f.loc())
        v = show(canon(load(o, "scale_window_sum"), w, known))
        if 4 in tys:
            ctx.ob(v == "self.scale_window_sum" and tys == [4], "pkt-sum",
                   "a show-existing packet changes the scale sums", f.loc())
        else:
            ctx.ob(v.startswith("self.scale_window_sum{[fti]=Add(") and
                   "bexp(log_scale)" in v and
                   v.count("scale_window_sum[fti]") == 1, "pkt-sum",
                   "the window's scale sum becomes %s" % v[:100], f.loc())
        sh = facts.get(sym("show"))
        v = show(load(o, "scale_window_ntus"))
        shown = sh is not None and not f_has(sh, 0)
        if sh is not None:
            ctx.ob(v == ("Add(self.scale_window_ntus,1)" if shown
                         else "self.scale_window_ntus"), "pkt-ntus",
                   "the window's TU count becomes %s when shown=%d" %
                   (v[:60], shown), f.loc())
        else:
            ctx.violate("pkt-ntus", "the TU count does not depend on the "
                        "packet's show flag", f.loc())
        rdy = load(o, "pass2_data_ready")
        if f_lohi(need)[1] == 1:
            ctx.ob(rdy is K(1), "pkt-ready", "the last needed packet does not "
                   "make the encoder ready", f.loc())
        else:
            ctx.ob(show(rdy) == "self.pass2_data_ready", "pkt-ready-early",
                   "ready before all needed packets arrived", f.loc())
        slot(ctx, o, f, w, known)
    ctx.ob(oks == {"whole", "finite"}, "pkt-modes", "modes seen: %s" %
           sorted(oks), f.loc())


def isrec(v):
    return v.k == "agg" and str(v.a[1]).endswith("RCFrameMetrics") and \
        {k: show(x) for k, x in zip(v.a[3], v.a[4])} == {
            ".log_scale_q24": "log_scale", ".fti": "fti",
            ".show_frame": "show"}


def room(facts):
    for v, x in facts.items():
        if v.k == "op" and v.a[0] in ("Lt", "Ge", "Gt", "Le"):
            l, r = map(show, v.a[1])
            o, t = v.a[0], f_single(x)
            if (l, r) == ("self.nframe_metrics", "len(self.frame_metrics)") \
                    and ((o, t) in (("Lt", 1), ("Ge", 0))):
                return True
            if (r, l) == ("self.nframe_metrics", "len(self.frame_metrics)") \
                    and ((o, t) in (("Gt", 1), ("Le", 0))):
                return True
    return False


def slot(ctx, o, f, w, known):
    s = show(canon(load(o, "frame_metrics"), w, known))
    a = "[Add(self.frame_metrics_head,self.nframe_metrics)]"
    b = "[Sub(Add(self.frame_metrics_head,self.nframe_metrics)," \
        "len(self.frame_metrics))]"
    wrap = None
    for v, x in o.st.facts.items():
        if v.k == "op" and v.a[0] in ("Lt", "Ge"):
            l, r = map(show, v.a[1])
            if l == a[1:-1] and r == "len(self.frame_metrics)":
                wrap = (f_single(x) == 1) == (v.a[0] == "Ge")
    if wrap is None:
        ctx.violate("pkt-slot", "the ring position is not wrapped", f.loc())
        return
    e = b if wrap else a
    ctx.ob(e + "=rate::RCFrameMetrics{.log_scale_q24:log_scale,.fti:fti,"
           ".show_frame:show}" in s, "pkt-slot", "the packet is stored at %s" %
           s[:140], f.loc())


def setup(ctx):
    f = ctx.fn("RCState::setup_second_pass")
    for o in go(ctx, f, args=[S, sym("s")]):
        whole = None
        for v, x in o.st.facts.items():
            if show(v) == "len(self.frame_metrics)":
                whole = not f_has(x, 1)
        e = {"ntus_total": "s.ntus", "ntus_left": "s.ntus",
             "nframes_total": "s.nframes", "nframes_left": "s.nframes",
             "exp": "s.exp"}
        if whole:
            e.update({"scale_window_nframes": "s.nframes",
                      "scale_window_sum": "s.scale_sum",
                      "reservoir_frame_delay": "s.ntus"})
        else:
            e["reservoir_frame_delay"] = None
        for n, x in e.items():
            v = show(load(o, n))
            if x is None:
                ctx.ob(v in ("min(self.reservoir_frame_delay,s.ntus)",
                             "min(s.ntus,self.reservoir_frame_delay)"),
                       "setup:" + n, "%s becomes %s" % (n, v[:60]), f.loc())
            else:
                ctx.ob(v == x, "setup:" + n, "%s becomes %s, not %s" %
                       (n, v[:60], x), f.loc())


def required(ctx):
    f = ctx.fn("RCState::twopass_in_frames_needed")
    cells = [(0, 1, None, 0), (-1, 1, None, 0), (5, 0, 0, 1), (5, 0, 1, 0)]
    for br, n, rdy, e in cells:
        cell = {"target_bitrate": f_set(br)}
        if rdy is not None:
            cell["pass2_data_ready"] = f_set(rdy)

        def h(a, st, name, rname, rec, args, site, line):
            if (rname or name or "").endswith("is_empty"):
                return [(st, K(int(n == 0)))]
            return None
        for o in go(ctx, f, cell, call=h):
            ctx.ob(o.ret is K(e) or f_single(o.st.rng(o.ret)) == e or
                   br > 0 and n == 0 and
                   show(o.ret) == "Not(self.pass2_data_ready)", "needed",
                   "%s packets needed, not %d (bitrate %d, %s buffer, ready "
                   "%s)" % (show(o.ret)[:40], e, br,
                            "finite" if n else "whole-file", rdy), f.loc())
    # finite window: clamp(delay - window TUs, 0, frames left - window frames)
    left = {"nframes_left[%d]" % i for i in range(5)}
    win = {"scale_window_nframes[%d]" % i for i in range(5)}
    for o in go(ctx, f, {"target_bitrate": f_set(5)},
                call=lambda a, st, name, rname, *r: [(st, K(0))]
                if (rname or name or "").endswith("is_empty") else None):
        s = show(o.ret)
        syms = {x for x in (left | win) if "self." + x in s}
        ok = syms == left | win and "reservoir_frame_delay" in s and \
            "scale_window_ntus" in s and "min(" in s and "max(" in s or \
            isk(o.ret) and any("reservoir_frame_delay" in show(v)
                               for v in o.st.facts)
        ctx.ob(ok, "needed-window", "packets needed is %s" % s[:120], f.loc())


def update(ctx):
    """update_state: leaving frames are subtracted exactly once."""
    f = ctx.fn("RCState::update_state")

    def h(a, st, name, rname, rec, args, site, line):
        n = (rname or name or "").rsplit("::", 1)[-1]
        if n in ("blog64", "bexp64", "q57_to_q24", "q24_to_q57", "bexp_q24"):
            return [(st, op(n, *args))]
        if n == "twopass_in":
            a.calls.append(("IN", show(args[1])))
            return [(st, sym("R"))]
        if n in ("reinit", "update", "unwrap_or"):
            return [(st, sym("r:" + n))]
        return None
    for state in range(4):
        for t in range(5):
            for trial in (0, 1):
                if trial and t == 4:
                    continue
                for sh in (0, 1):
                    for n in (0,) if trial else (0, 7, 2 ** 31 - 1):
                        cell = {"target_bitrate": f_ge(1), "twopass_state":
                                K(state), "prev_metrics.fti": K(t)}
                        cell["cur_metrics.fti"] = K(t)
                        cell["cur_metrics.show_frame"] = K(sh)
                        cell["nframes"] = mk("st", T("nframes"),
                                             ((("i", K(t)), K(n)),))
                        outs, a = run_upd(ctx, f, cell, t, trial, h)
                        for o in outs:
                            upd_obl(ctx, f, o, state, t, trial, sh, n)
    ring(ctx, f, h)


def run_upd(ctx, f, cell, t, trial, h):
    from sa.ae import State
    calls = []

    def hh(a, st, *r):
        a.calls = calls
        return h(a, st, *r)
    outs, a = run_cell(ctx.lib, f, cell, rel=set(), ctx=ctx, call=hh,
                       args=[S, sym("bits"), K(t), sym("shown"), sym("lq"),
                             K(trial), K(0)])
    ctx.ob(bool(outs), "upd-path", "update_state never returns", f.loc())
    return outs, a


def upd_obl(ctx, f, o, state, t, trial, sh, cnt):
    two = state & 2 and not trial
    first = state & 1
    nl = [show(elem(o, "nframes_left", i)) for i in range(5)]
    wn = [show(elem(o, "scale_window_nframes", i)) for i in range(5)]
    for i in range(5):
        d = "Add(self.%s[%d],-1)" if two and i == t else "self.%s[%d]"
        ctx.ob(nl[i] == d % ("nframes_left", i), "upd-left", "frames left of "
               "type %d become %s (pass state %d, trial %d)" %
               (i, nl[i][:60], state, trial), f.loc())
        ctx.ob(wn[i] == d % ("scale_window_nframes", i), "upd-window",
               "window frames of type %d become %s (pass state %d, trial %d)" %
               (i, wn[i][:60], state, trial), f.loc())
    for i in range(4):
        v = show(elem(o, "scale_window_sum", i))
        if two and i == t:
            ctx.ob(v.startswith("Sub(self.scale_window_sum[%d],bexp_q24(" % i)
                   and "metrics.log_scale_q24" in v, "upd-sum",
                   "the window's scale sum of type %d becomes %s" %
                   (i, v[:80]), f.loc())
        else:
            ctx.ob(v == "self.scale_window_sum[%d]" % i, "upd-sum",
                   "the window's scale sum of type %d becomes %s" %
                   (i, v[:80]), f.loc())
    r = show(load(o, "pass1_data_retrieved"))
    ctx.ob(r == ("0" if first else "self.pass1_data_retrieved"), "upd-pending",
           "first-pass data of a frame is %s (pass state %d)" %
           ("not marked pending" if first else "marked " + r[:30], state),
           f.loc())
    if first:
        for n, e in (("fti", str(t)), ("show_frame", "shown")):
            v = show(load(o, "prev_metrics." + n))
            ctx.ob(v == e, "upd-metrics:" + n, "the metrics' %s is %s" %
                   (n, v[:60]), f.loc())
        v = show(load(o, "prev_metrics.log_scale_q24"))
        ctx.ob("q57_to_q24" in v, "upd-metrics:scale", "the metrics' scale is "
               "%s" % v[:60], f.loc())
    n = show(elem(o, "nframes", t))
    e = cnt if trial else min(cnt + 1, 2 ** 31 - 1)
    ctx.ob(n == str(e), "upd-count", "the count of type %d goes from %d to %s "
           "(trial %d)" % (t, cnt, n[:60], trial), f.loc())
    for fl in ("ntus_left", "scale_window_ntus"):
        v = show(load(o, fl))
        ctx.ob(v == ("Add(self.%s,-1)" if two and sh else "self.%s") % fl,
               "upd-ntus", "%s becomes %s (pass state %d, trial %d, shown %d)"
               % (fl, v[:60], state, trial, sh), f.loc())
    for i in range(5):
        if i != t:
            n = show(elem(o, "nframes", i))
            ctx.ob(n == "self.nframes[%d]" % i, "upd-count", "encoding a frame "
                   "of type %d changes the count of type %d" % (t, i), f.loc())


def ring(ctx, f, h):
    """The ring buffer's head advances by one, modulo its length."""
    for head in (0, 3, 9):
        def hh(a, st, name, rname, rec, args, site, line):
            n = (rname or name or "").rsplit("::", 1)[-1]
            if n == "is_empty" and "frame_metrics" in show(args[0]):
                return [(st, K(0))]
            if n == "len" and "frame_metrics" in show(args[0]):
                return [(st, K(10))]
            return h(a, st, name, rname, rec, args, site, line)
        cell = {"target_bitrate": f_ge(1), "twopass_state": K(2),
                "cur_metrics.fti": K(1), "cur_metrics.show_frame": K(1),
                "frame_metrics_head": K(head), "nframe_metrics": K(6)}
        outs, a = run_upd(ctx, f, cell, 1, 0, hh)
        for o in outs:
            v, n = load(o, "frame_metrics_head"), load(o, "nframe_metrics")
            ctx.ob(v is K((head + 1) % 10) and n is K(5), "upd-ring", "the "
                   "ring of 10 goes from head %d, 6 used, to head %s, %s used"
                   % (head, show(v)[:40], show(n)[:40]), f.loc())


OWN = {"pass1_data_retrieved", "pass1_summary_retrieved", "pass2_data_ready",
       "scale_window_nframes", "scale_window_sum", "scale_window_ntus",
       "nframe_metrics", "frame_metrics_head", "ntus", "scale_sum"}
WHO = ("emit_placeholder_summary", "emit_frame_data", "emit_summary",
       "update_state", "setup_second_pass", "parse_frame_data_packet",
       "twopass_parse_frame_data", "twopass_in", "new", "init_second_pass",
       "init_first_pass")


def owners(ctx):
    c = ctx.lib
    for fl in sorted(OWN):
        n = 0
        for x in field_writes(c, "RCState", fl):
            g = x[0]
            n += 1
            last = g.nname.rsplit("::", 1)[-1]
            ok = ("rate::" in g.nname)
            ctx.ob(ok, "own:" + fl, "%s writes %s" % (g.nname, fl), g.loc())
        ctx.count("writes", n)

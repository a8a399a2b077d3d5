"""C17: channels carry every frame in and every packet out, once, in order."""
from sa.val import *
from sa.gate import *
from sa import ae as _ae

RULE = """Each channel constructor is abstractly interpreted with channel
creation and task spawning as events; every spawned task is then interpreted
on its captured endpoints with the channel operations and the encoder's entry
points as events driving a specification automaton (what was received and not
yet handed on, what the encoder returned and was not yet delivered, what pass
data is owed).  All paths, to the loop fixpoint."""
ASSUME = ["channels (crossbeam) deliver in order and lose nothing",
          "the encoder behind the worker is the one the other properties "
          "decide", "tasks are eventually scheduled"]


def last(n):
    return n.rsplit("::", 1)[-1]


def tup(*v):
    return agg("tuple", None, None, tuple(".%d" % i for i in range(len(v))),
               tuple(v))


def cl(name, *args):
    return mk("call", name, tuple(args), None)


def run(ctx):
    for emit in (0, 1):
        for summ in (0, 1):
            for pool in (0, 1):
                single(ctx, emit, summ, pool)
    for pool in (0, 1):
        bygop(ctx, pool)
    split(ctx)
    endpoints(ctx)


# ------------------------------------------------------------ channels
def role(s):
    if "RcData" in s:
        return "rc"
    if "SubGop" in s:
        return "gop"
    if "WorkLoad" in s:
        return "idle" if "Sender" in s else "work"
    if "Packet<" in s:
        return "order" if "Receiver" in s else "packet"
    if "FrameParameters" in s or "Frame<" in s:
        return "frame"
    return "?" + s


def channel_new(a, st, rn, rec, args, site):
    if last(rn) in ("bounded", "unbounded") and "channel" in rn:
        ty = a.c.tystr(a.styp(st, rec["a"][0])) if rec.get("a") else "?"
        tag = "%s@%s.%d" % (role(ty), last(site[0]), site[1])
        return [(st, tup(sym("tx:" + tag), sym("rx:" + tag)))]
    return None


def end(v, k):
    """Role of a channel endpoint value ('tx'/'rx'), else None."""
    while v.k == "call" and v.a[0] in ("chiter", "clone"):
        v = v.a[1][0]
    if v.k == "sym" and v.a[0].startswith(k + ":"):
        return v.a[0][3:].split("@")[0]
    return None


def mine(a, st, g):
    return "api::" in g.nname and "api::internal" not in g.nname


class Build:
    """What a constructor wires: the endpoints it returns, the tasks."""

    def __init__(self, ctx, f, cell, pool, args):
        self.ctx, self.c, self.f = ctx, ctx.lib, f
        self.tasks = {}
        self.pool = pool
        self.outs, self.a = run_cell(self.c, f, cell, args=args, ctx=ctx,
                                     root="self", call=self.call,
                                     inline=mine)

    def call(self, a, st, n, rn, rec, args, site, line):
        l = last(rn)
        if rn.endswith("Config::validate"):
            return [(st, ok(UNIT))]
        if rn.endswith("ContextInner::new"):
            return [(st, sym("INNER"))]
        if rn.endswith("new_thread_pool"):
            return [(st, some(sym("POOL")) if self.pool else NONE)]
        if rn.endswith("SceneChange::new"):
            return [(st, sym("SC"))]
        r = channel_new(a, st, rn, rec, args, site)
        if r:
            return r
        if l in ("scope_fifo", "scope") and "rayon" in rn:
            return [(s, UNIT) for s, _ in
                    a.subcall(st, args[-1], [sym("SCOPE")], site)]
        if l == "send" and end(a.value_of(st, args[0]), "tx"):
            return [(st, ok(UNIT))]
        if l in ("spawn", "spawn_fifo") and "rayon" in rn:
            v = args[-1]
            g = self.c.fns.get(v.a[1]) if v.k == "agg" and \
                v.a[0] == "closure" else None
            if g is not None and any(
                    r and last(r["p"]) in ("scope_fifo", "scope")
                    for _, r, *_ in g.calls()):
                rs = a.subcall(st, v, [], site)
                return [(s, UNIT) for s, _ in rs]
            self.tasks[v] = st.copy()
            return [(st, UNIT)]
        return None


class Task:
    """Interpret one spawned closure with channel operations as events."""

    def __init__(self, ctx, b, v, st, auto, **hooks):
        self.ctx, self.c = ctx, ctx.lib
        self.bad = {}
        self.hooks = hooks
        self.g = g = self.c.fns[v.a[1]]
        pol = CellPolicy(None, mine, self.call)
        pol.max_steps = 400000
        a = _ae.AE(self.c, pol)
        env = v
        if self.c.types[g.locals[1]]["k"] == "ref":
            env = sym("ENV")
        s = a.start(g, [env, sym("SCOPE")][:g.nargs], auto=auto)
        s.store[("X", sym("ENV"))] = v
        for k, x in st.store.items():
            if k[0] == "X":
                s.store[k] = x
        self.outs = a.run(s)
        ctx.saw(*a.fns_seen)
        ctx.count("abstract_steps", a.steps)
        self.steps = a.steps

    def chan(self, a, st, rn, rec, args, site):
        r = channel_new(a, st, rn, rec, args, site)
        if r and "new_channel" in self.hooks:
            self.hooks["new_channel"](self, a, st, end(r[0][1].a[4][0],
                                                       "tx"))
        return r

    def oops(self, key, msg, line):
        self.bad.setdefault(key, (msg, line))

    def call(self, a, st, n, rn, rec, args, site, line):
        l = last(rn)
        h = self.hooks
        if not args:
            if l == "new" and "Vec" in rn and "new_vec" in h:
                x = h["new_vec"](self, a, st, rec, site)
                return [(st, x)] if x is not None else None
            if l in ("new", "default") and "Map" in rn:
                return h["call"](self, a, st, n, rn, l, rec, args, site,
                                 line)
            return self.chan(a, st, rn, rec, args, site)
        v0 = a.value_of(st, args[0])
        rx = end(v0, "rx")
        tx = end(v0, "tx")
        if rx and l in ("iter", "into_iter"):
            return [(st, cl("chiter", v0) if v0.k == "sym" else v0)]
        if rx and l in ("recv", "next"):
            res = []
            item = h["recv"](self, a, st, rx, v0, line)
            for s, x in item:
                res.append((s, some(x) if l == "next" else ok(x)))
            none = st.copy()
            if h["closed"](self, a, none, rx, v0, line) is not False:
                res.append((none, NONE if l == "next" else
                            err(sym("RecvError"))))
            return res
        if tx and l == "send":
            h["send"](self, a, st, tx, v0, args[1], line)
            return [(st, ok(UNIT))]
        if tx and l == "clone":
            return [(st, v0)]
        r = self.chan(a, st, rn, rec, args, site)
        if r:
            return r
        if "rayon" in rn and l in ("spawn", "spawn_fifo"):
            return [(st, UNIT)]
        return h["call"](self, a, st, n, rn, l, rec, args, site, line)


# ------------------------------------------------------------ one worker
# auto: (frame pending, packet pending, pass data owed, fed, stage)
STATUS = ("Encoded", "LimitReached", "NotReady", "NeedMoreData", "EnoughData",
          "Failure")


def status(n):
    return agg("adt", "api::util::EncoderStatus", n, (), ())


def pretty(v):
    return show(v)[:60]


def encoder_call(t, a, st, rn, l, args, line, emit, summ):
    """The encoder as seen from a worker."""
    fr, pk, pd, fed, stage = st.auto
    if rn.endswith("ContextInner::needs_more_fi_lookahead"):
        x, y = st.copy(), st.copy()
        return [(x, K(1)), (y, K(0))]
    if rn.endswith("ContextInner::send_frame"):
        f, p = args[1], args[2]
        if stage == "in" and f in t.item_frames:
            if not fr:
                t.oops("frame-twice", "a frame is handed to the encoder "
                       "twice", line)
            if p is not t.item_frames[f]:
                t.oops("frame-params", "a frame is encoded with parameters "
                       "%s instead of the ones it was sent with" % pretty(p),
                       line)
            st.auto = (0, pk, pd, fed, stage)
        elif f is NONE:
            if stage != "eof":
                t.oops("flush-early", "the encoder is flushed while frames "
                       "may still come", line)
            if p is not NONE:
                t.oops("flush-params", "flushing carries parameters", line)
            lim = load_field(a, st, args[0], ".limit")
            cnt = load_field(a, st, args[0], ".frame_count")
            if lim is not some(cnt):
                t.oops("flush-limit", "at flush the limit is %s, not the "
                       "number of frames received" % pretty(lim), line)
            st.auto = (fr, pk, pd, fed, "drain")
        else:
            t.oops("frame-other", "the encoder is given %s" % pretty(f),
                   line)
        lv = args[0]
        if f is not NONE:
            st.put((lv.a[0], lv.a[1] + (".frame_count",)), sym("COUNT"))
        return [(st.copy(), ok(UNIT)), (st.copy(), err(sym("refused")))]
    if rn.endswith("ContextInner::receive_packet"):
        if pk:
            t.oops("packet-lost", "a packet the encoder returned is not "
                   "delivered before the next is asked for", line)
        if pd and emit:
            t.oops("pass-data-lost", "the pass data of a frame is not "
                   "delivered before the next frame is coded", line)
        if summ and not fed:
            t.oops("starved", "a frame is coded without feeding the pass "
                   "data it needs", line)
        if stage not in ("in", "drain"):
            t.oops("receive-stage", "packets are asked for after the "
                   "encoder %s" % ("said there are no more" if stage ==
                                   "limit" else "input ended, unflushed"),
                   line)
        res = []
        s = st.copy()
        s.auto = (fr, 1, 1, 0, stage)
        res.append((s, ok(sym("PKT"))))
        for n in STATUS:
            s = st.copy()
            if n == "Encoded":
                s.auto = (fr, 0, 1, 0, stage)
            elif n == "LimitReached" and stage == "drain":
                s.auto = (fr, 0, 0, 0, "limit")
            else:
                s.auto = (fr, 0, 0, 0, "error")
            res.append((s, err(status(n))))
        return res
    if rn.endswith("done_processing"):
        x, y = st.copy(), st.copy()
        x.auto = (fr, pk, pd, 1, stage)
        return [(x, K(1)), (y, K(0))]
    if rn.endswith("twopass_in_frames_needed"):
        x, y = st.copy(), st.copy()
        x.auto = (fr, pk, pd, 1, stage)
        s = sym("NEEDED")
        y.restrict(s, f_ge(1))
        return [(x, K(0)), (y, s)]
    if rn.endswith("parse_frame_data_packet"):
        d = deep(a, st, args[1])
        if "PASSDATA" not in show(d):
            t.oops("fed-other", "the encoder is fed %s" % pretty(d), line)
        st.auto = (fr, pk, pd, 0, stage)
        return [(st.copy(), ok(UNIT)), (st.copy(), err(sym("bad")))]
    if rn.endswith("emit_frame_data"):
        return [(st, some(sym("FRAMEDATA")))]
    if rn.endswith("emit_summary"):
        if stage != "limit":
            t.oops("summary-early", "the summary is taken before the last "
                   "frame was coded", line)
        return [(st, sym("SUMMARY"))]
    return None


def deep(a, st, v):
    n = 0
    while v.k == "ref" and n < 6:
        v = a.value_of(st, v)
        n += 1
    return v


def load_field(a, st, ref, f):
    return st.load((ref.a[0], ref.a[1] + (f,)))


def single(ctx, emit, summ, pool):
    c = ctx.lib
    key0 = "single:%d%d" % (emit, summ)
    f = ctx.fn("Config::new_channel_internal")
    for still in (0, 1):
        b = Build(ctx, f, {
            "rate_control.emit_pass_data": K(emit),
            "rate_control.summary": some(sym("SUM")) if summ else NONE,
            "enc.still_picture": K(still)}, pool, [sym("self")])
        ctx.ob(len(b.tasks) == 1, key0 + ":spawn", "%d tasks spawned" %
               len(b.tasks), f.loc())
        for o in b.outs:
            wiring(ctx, key0, f, o, still, summ)
    if len(b.tasks) != 1:
        return
    v, st = next(iter(b.tasks.items()))

    def recv(t, a, s, rx, v0, line):
        s = s.copy()
        fr, pk, pd, fed, stage = s.auto
        if rx == "frame":
            if fr:
                t.oops("frame-lost", "a frame is taken from the channel "
                       "before the previous one was handed to the encoder",
                       line)
            s.auto = (1, pk, pd, fed, stage)
            return [(s, tup(sym("FRAME"), sym("PARAMS")))]
        if rx == "rc":
            return [(s, agg("adt", "api::context::RcData", "Frame", (".0",),
                            (sym("PASSDATA"),)))]
        return [(s, sym("ITEM"))]

    def closed(t, a, s, rx, v0, line):
        fr, pk, pd, fed, stage = s.auto
        if rx == "frame":
            if fr:
                t.oops("frame-lost", "a frame taken from the channel is "
                       "never handed to the encoder", line)
            s.auto = (fr, pk, pd, fed, "eof")

    def send(t, a, s, tx, v0, item, line):
        fr, pk, pd, fed, stage = s.auto
        if tx == "packet":
            if item is not sym("PKT"):
                t.oops("packet-changed", "the packet delivered is %s" %
                       pretty(item), line)
            if not pk:
                t.oops("packet-twice", "a packet is delivered twice", line)
            s.auto = (fr, 0, pd, fed, stage)
        elif tx == "rc":
            txt = show(item)
            if "Summary" in txt and "SUMMARY" in txt:
                if stage != "limit":
                    t.oops("summary-early", "the summary is sent before the "
                           "end" if stage != "done" else
                           "the summary is sent twice", line)
                s.auto = (fr, pk, pd, fed, "done")
            elif "Frame" in txt and "FRAMEDATA" in txt:
                if not pd:
                    t.oops("pass-data-twice", "pass data is sent without a "
                           "frame having been coded", line)
                s.auto = (fr, pk, 0, fed, stage)
            else:
                t.oops("pass-data", "the pass data sent is %s" % txt[:80],
                       line)
        else:
            t.oops("send-other", "something is sent on %s" % tx, line)

    def call(t, a, st, n, rn, l, rec, args, site, line):
        return encoder_call(t, a, st, rn, l, args, line, emit, summ)

    Task.item_frames = {sym("FRAME"): sym("PARAMS")}
    t = Task(ctx, b, v, st, (0, 0, 0, 0, "in"), recv=recv, closed=closed,
             send=send, call=call)
    for k, (m, line) in sorted(t.bad.items()):
        ctx.violate("%s:%s" % (key0, k), m, t.g.loc(line))
    rets = [o for o in t.outs if o.kind == "ret"]
    ctx.ob(bool(rets), key0 + ":ends", "the worker never ends", t.g.loc())
    for o in rets:
        fr, pk, pd, fed, stage = o.st.auto
        want = "done" if emit else "limit"
        ctx.ob(stage == want and not pk and not fr, key0 + ":end",
               "the worker ends %s" % (
                   "without draining the encoder" if stage in (
                       "in", "eof", "drain") else
                   "on an encoder error" if stage == "error" else
                   "without delivering the summary" if stage == "limit" else
                   "with a packet undelivered" if pk else "in stage " +
                   stage), t.g.loc())
    ctx.count("worker_paths", len(t.outs))
    ctx.count("obligations_passed_events", t.steps)


def wiring(ctx, key0, f, o, still, summ):
    n, p = variant(o.ret)
    key = key0 + ":wiring"
    if n != "Ok":
        return
    txt = show(o.ret)
    v = p.a[4][0] if p.k == "agg" else None
    if v is not None and v.k == "agg" and v.a[0] == "adt":
        v = p
    good = v is not None and v.k == "agg"
    fs = v.a[4][0] if good else None
    pr = v.a[4][1] if good else None
    good = good and fs.k == "agg" and pr.k == "agg"
    ctx.ob(good, key, "returns %s" % txt[:100], f.loc())
    if not good:
        return
    d = dict(zip(fs.a[3], fs.a[4]))
    tx = d.get(".sender")
    ctx.ob(tx is not None and end(tx, "tx") == "frame", key + ":frames",
           "frames are sent to %s" % pretty(tx or NONE), f.loc())
    e = dict(zip(pr.a[3], pr.a[4]))
    rx = e.get(".receiver")
    ctx.ob(rx is not None and end(rx, "rx") == "packet", key + ":packets",
           "packets are received from %s" % pretty(rx or NONE), f.loc())
    lim = d.get(".limit")
    if lim is not None:
        r = o.st.rng(lim)
        hi = max(r[1]) if r[0] == "s" else r[2]
        ctx.ob(not still or (hi is not None and hi <= 1), key + ":still",
               "a still picture channel accepts %s frames" % (
                   "an unbounded number of" if hi is None else hi), f.loc())
        if summ and not still:
            ctx.ob(".ntus" in show(lim), key + ":limit", "the second pass "
                   "accepts %s frames, not as many as the first pass coded"
                   % pretty(lim), f.loc())
    cnt = d.get(".count")
    ctx.ob(cnt is K(0), key + ":count", "the frame count starts at %s" %
           pretty(cnt or NONE), f.loc())


# ------------------------------------------------------------ by GOP
def bygop(ctx, pool):
    f = ctx.fn("Config::new_by_gop_channel")
    b = None
    for still in (0, 1):
        b = Build(ctx, f, {
            "rate_control.emit_pass_data": K(0),
            "rate_control.summary": NONE,
            "enc.still_picture": K(still)}, pool,
            [sym("self"), sym("slots")])
        for o in b.outs:
            wiring(ctx, "gop", f, o, still, 0)
    kinds = {}
    for v, st in b.tasks.items():
        txt = show(v)
        for r in ("frame", "work", "gop", "order"):
            if "rx:%s@" % r in txt:
                kinds.setdefault(r, []).append((v, st))
                break
    for r, n in (("frame", "collects frames"), ("work", "encodes"),
                 ("gop", "dispatches"), ("order", "reassembles")):
        ctx.ob(r in kinds, "gop:task:" + r, "no task %s" % n, f.loc())
    for v, st in kinds.get("frame", ()):
        collector(ctx, b, v, st)
    for v, st in kinds.get("work", ()):
        worker(ctx, b, v, st)
    for v, st in kinds.get("gop", ()):
        dispatcher(ctx, b, v, st)
    for v, st in kinds.get("order", ()):
        reassembler(ctx, b, v, st)


def finish(ctx, t, key, check):
    for k, (m, line) in sorted(t.bad.items()):
        ctx.violate("%s:%s" % (key, k), m, t.g.loc(line))
    rets = [o for o in t.outs if o.kind == "ret"]
    ctx.ob(bool(rets), key + ":ends", "the task never ends", t.g.loc())
    for o in rets:
        m = check(o.st.auto)
        ctx.ob(not m, key + ":end", m or "", t.g.loc())
    ctx.count("task_paths", len(t.outs))


def kind_of(v):
    """Which vector of pending input a value is: (stage, kind)."""
    if v.k == "sym" and v.a[0].startswith("V:"):
        return v.a[0].split(":")[1:]
    return None


def collector(ctx, b, v, st):
    """Frames in, sub-GOPs out."""
    key = "gop:collect"
    F, P = sym("FRAME"), sym("PARAMS")

    # auto: (F pending, P pending, ((kind, stage, head unsent),...), split)
    def vecs(s):
        return dict((k, (x, y)) for k, x, y in s.auto[2])

    def setv(s, d, **kw):
        a = list(s.auto)
        a[2] = tuple((k, x, y) for k, (x, y) in sorted(d.items()))
        s.auto = tuple(a)

    def seta(s, i, x):
        a = list(s.auto)
        a[i] = x
        s.auto = tuple(a)

    def recv(t, a, s, rx, v0, line):
        s = s.copy()
        if rx != "frame":
            return [(s, sym("ITEM"))]
        if s.auto[0]:
            t.oops("frame-lost", "a frame taken from the channel is not "
                   "kept", line)
        if s.auto[1]:
            t.oops("params-lost", "the parameters of a frame are not kept",
                   line)
        seta(s, 0, 1)
        seta(s, 1, 1)
        return [(s, tup(some(F), P))]

    def closed(t, a, s, rx, v0, line):
        if rx == "frame":
            if s.auto[0]:
                t.oops("frame-lost", "the last frame taken from the channel "
                       "is not kept", line)
            if s.auto[1]:
                t.oops("params-lost", "the parameters of a frame are not "
                       "kept", line)
            seta(s, 4, 1)

    def send(t, a, s, tx, v0, item, line):
        if tx != "gop" or item.k != "agg":
            t.oops("send-other", "sends %s" % pretty(item), line)
            return
        d = vecs(s)
        seen = set()
        endv = None
        for n, x in zip(item.a[3], item.a[4]):
            k = kind_of(x)
            if k is None:
                if n not in (".frames", ".params"):
                    endv = x
                continue
            stage, kd = k
            seen.add(kd)
            cur, head = d.get(kd, ("V", 0))
            if stage == "HEAD" and head:
                d[kd] = (cur, 0)
            elif stage == cur and not head and s.auto[4]:
                d[kd] = ("SENT", 0)
            elif stage == cur:
                t.oops("hand-on", "frames are handed on while more may "
                       "come and be lost", line)
            else:
                t.oops("hand-on", "frames %s are handed on twice" % stage,
                       line)
        for kd, (cur, head) in d.items():
            if head and kd in ("F", "P", "FP"):
                t.oops("part-lost", "a part of the frames split off is not "
                       "handed on (%s)" % ("frames" if "F" in kd else
                                           "parameters"), line)
        setv(s, d)
        if s.auto[3] and endv is not None:
            if s.auto[3] == 2:
                pass
            elif endv is not sym("END"):
                t.oops("end-flag", "a sub-GOP is marked with %s instead of "
                       "the scene detector's verdict" % pretty(endv), line)
            seta(s, 3, 0)
        elif endv is not None and any(
                x[1] == "SENT" for x in s.auto[2]) and endv is not K(1):
            t.oops("end-last", "the last sub-GOP does not end its GOP", line)

    def call(t, a, s, n, rn, l, rec, args, site, line):
        v0 = a.value_of(s, args[0]) if args else None
        if l == "new" and "Vec" in rn and not args:
            return None
        if rn.endswith("SceneChange::split"):
            x, y = s.copy(), s.copy()
            k = kind_of(deep(a, s, args[1])) or ("", "")
            seta(x, 3, 1)
            return [(x, some(tup(sym("POS"), sym("END")))), (y, NONE)]
        k = kind_of(v0) if v0 is not None else None
        if k is None:
            return None
        stage, kd = k
        d = vecs(s)
        cur, head = d.get(kd, ("V", 0))
        lv = args[0]
        if l == "push":
            x = show(args[1])
            if stage != cur or head:
                t.oops("keep-lost", "a frame is kept with %s frames" % (
                    "already handed on" if stage == "HEAD" else "other"),
                    line)
            if "FRAME" in x:
                if not s.auto[0]:
                    t.oops("frame-twice", "a frame is kept twice", line)
                seta(s, 0, 0)
            if "PARAMS" in x:
                seta(s, 1, 0)
            return [(s, UNIT)]
        if l == "split_off":
            if stage != cur or head:
                t.oops("split-other", "frames not pending are split", line)
            if s.auto[3] and args[1] is not sym("POS"):
                t.oops("split-pos", "frames are split at %s instead of where "
                       "the scene detector said" % pretty(args[1]), line)
            d[kd] = ("REM", 1)
            setv(s, d)
            s.put((lv.a[0], lv.a[1]), sym("V:HEAD:" + kd))
            return [(s, sym("V:REM:" + kd))]
        if l == "is_empty":
            x, y = s.copy(), s.copy()
            d[kd] = ("EMPTY", 0)
            setv(x, d)
            return [(x, K(1)), (y, K(0))]
        return None

    def new_vec(t, a, s, rec, site):
        ty = a.c.tystr(a.styp(s, rec["a"][0])) if rec.get("a") else ""
        kd = ("F" if "Frame<" in ty else "") + \
            ("P" if "FrameParameters" in ty else "")
        return sym("V:V:" + kd) if kd else None

    t = Task(ctx, b, v, st, (0, 0, (), 0, 0), recv=recv, closed=closed,
             send=send, call=call, new_vec=new_vec)

    def check(au):
        for kd, cur, head in au[2]:
            if "F" not in kd:
                continue
            if head:
                return "frames split off are never handed on"
            if cur not in ("SENT", "EMPTY"):
                return "the remaining frames are not handed on at the end"
        if not any("F" in x[0] for x in au[2]):
            return "the frames received are never handed on"
    finish(ctx, t, key, check)


def subgop(c, end=None):
    """A SubGop value: its frames, parameters and end mark."""
    t = adt_fields(c, "SubGop")
    names, vals = [], []
    for n, ty in t:
        names.append("." + n)
        if "bool" in ty:
            vals.append(sym("END") if end is None else K(end))
        else:
            vals.append(sym("GV:" + (("F" if "Frame<" in ty else "") + (
                "P" if "FrameParameters" in ty else ""))))
    return agg("adt", "api::channel::by_gop::SubGop", "SubGop",
               tuple(names), tuple(vals))


def workload(c, rx, tx):
    t = adt_fields(c, "WorkLoad")
    vals = [rx if "Receiver" in ty else tx for n, ty in t]
    return agg("adt", "api::channel::by_gop::WorkLoad", "WorkLoad",
               tuple("." + n for n, _ in t), tuple(vals))


def adt_fields(c, name):
    for p, t in c.adts.items():
        if p.split("<")[0].endswith("::" + name):
            vs = t["variants"]
            return [(f[0], c.tystr(f[1])) for f in vs[0][2]]
    raise KeyError(name)


def worker(ctx, b, v, st):
    """Sub-GOPs in, packets out."""
    c = ctx.lib
    key = "gop:worker"
    # the automaton of encoder_call, stage prefixed by the gop state kept in
    # the first component: 0 no frame, 1 frame pending
    both = "P" in "".join(show(x) for x in subgop(c).a[4])

    def recv(t, a, s, rx, v0, line):
        fr, pk, pd, fed, stage = s.auto
        if rx == "work":
            x, y = s.copy(), s.copy()
            if stage != "idle":
                t.oops("work-early", "new work is taken before the last was "
                       "finished", line)
            x.auto = (0, 0, 0, 1, "in")
            y.auto = (0, 0, 0, 1, "quit")
            return [(x, some(workload(c, sym("rx:gop@wl"),
                                      sym("tx:packet@wl")))), (y, NONE)]
        if rx == "gop":
            s = s.copy()
            if fr:
                t.oops("frame-lost", "frames of a sub-GOP are not handed to "
                       "the encoder", line)
            s.auto = (2, pk, pd, fed, stage)
            return [(s, subgop(c))]
        return [(s.copy(), sym("ITEM"))]

    def closed(t, a, s, rx, v0, line):
        fr, pk, pd, fed, stage = s.auto
        if rx == "gop":
            if fr:
                t.oops("frame-lost", "frames of a sub-GOP are not handed to "
                       "the encoder", line)
            s.auto = (0, pk, pd, fed, "eof")
        if rx == "work":
            s.auto = (0, 0, 0, 1, "quit")

    def send(t, a, s, tx, v0, item, line):
        fr, pk, pd, fed, stage = s.auto
        if tx == "packet":
            if item is not sym("PKT"):
                t.oops("packet-changed", "the packet delivered is %s" %
                       pretty(item), line)
            if not pk:
                t.oops("packet-twice", "a packet is delivered twice", line)
            s.auto = (fr, 0, pd, fed, stage)
        elif tx == "idle":
            if stage != "limit":
                t.oops("idle-early", "a worker offers itself before its GOP "
                       "is finished", line)
            if end(item, "tx") != "work":
                t.oops("idle-other", "a worker offers %s" % pretty(item),
                       line)
            s.auto = (0, 0, 0, 1, "idle")

    def gv(x):
        """Kinds of an iterator over a sub-GOP's vectors."""
        if x.k == "sym" and x.a[0].startswith("GV:"):
            return (x.a[0][3:],)
        if x.k == "call" and x.a[0] == "zip2":
            return x.a[1][0].a[0][3:], x.a[1][1].a[0][3:]
        return None

    def call(t, a, s, n, rn, l, rec, args, site, line):
        if rn.endswith("ContextInner::new"):
            return [(s, sym("INNER"))]
        if rn.endswith("Config::validate"):
            return [(s, ok(UNIT))]
        v0 = a.value_of(s, args[0])
        k = gv(v0)
        if k and l in ("into_iter", "drain", "iter"):
            return [(s, v0)]
        if k and l == "zip":
            o = deep(a, s, args[1])
            if gv(o):
                return [(s, cl("zip2", v0, o))]
        if k and l == "next":
            fr, pk, pd, fed, stage = s.auto
            x, y = s.copy(), s.copy()
            if fr == 1:
                t.oops("frame-lost", "a frame of a sub-GOP is not handed to "
                       "the encoder", line)
            val = {"F": sym("FRAME"), "P": sym("PARAMS"),
                   "FP": tup(sym("FRAME"), sym("PARAMS"))}
            x.auto = (1, pk, pd, fed, stage)
            y.auto = (0, pk, pd, fed, stage)
            vs = [val[z] for z in k]
            return [(x, some(vs[0] if len(vs) == 1 else tup(*vs))),
                    (y, NONE)]
        r = encoder_call(t, a, s, rn, l, args, line, 0, 0)
        if r is not None and rn.endswith("send_frame") and \
                args[1] is not NONE:
            # more frames of the sub-GOP may follow
            for x, _ in r:
                if x.auto[0] == 0 and s.auto[0] == 0:
                    x.auto = (2,) + x.auto[1:]
        return r

    Task.item_frames = {some(sym("FRAME")): sym("PARAMS") if both else NONE}
    t = Task(ctx, b, v, st, (0, 0, 0, 1, "idle"), recv=recv, closed=closed,
             send=send, call=call)
    ctx.ob(both, key + ":params", "sub-GOPs do not carry the parameters of "
           "their frames", t.g.loc())

    def check(au):
        if au[4] != "quit":
            return "a worker stops in the middle of a GOP"
    finish(ctx, t, key, check)


def dispatcher(ctx, b, v, st):
    c = ctx.lib
    key = "gop:dispatch"
    N = 3

    # auto: (sub-GOP pending, registered, given work, ready, count)
    def recv(t, a, s, rx, v0, line):
        if rx == "idle":
            s = s.copy()
            return [(s, sym("tx:work@idle"))]
        if rx == "gop":
            p, reg, wk, ready, n = s.auto
            if p:
                t.oops("gop-lost", "a sub-GOP is not handed to a worker",
                       line)
            res = []
            for e in (0, 1):
                if e and n > N:
                    continue
                x = s.copy()
                x.auto = (1 + e, reg, wk, ready, n)
                res.append((x, subgop(c, e)))
            return res
        return [(s.copy(), sym("ITEM"))]

    def closed(t, a, s, rx, v0, line):
        if rx == "gop" and s.auto[0]:
            t.oops("gop-lost", "the last sub-GOP is not handed to a worker",
                   line)

    def send(t, a, s, tx, v0, item, line):
        p, reg, wk, ready, n = s.auto
        if tx == "order":
            x = item.a[4] if item.k == "agg" else (NONE, NONE)
            if x[0] is not K(n):
                t.oops("order", "GOP number %d is registered as %s" % (
                    n, pretty(x[0])), line)
            if reg:
                t.oops("order-twice", "a GOP is registered twice", line)
            s.auto = (p, x[1].a[0][2:] if end(x[1], "rx") else "?", wk,
                      ready, n)
        elif tx == "work":
            k, w = variant(item)
            if k != "Some":
                t.oops("work-none", "a worker is dismissed", line)
                return
            rx = [y for y in w.a[4] if end(y, "rx") == "gop"]
            tp = [y for y in w.a[4] if end(y, "tx") == "packet"]
            if not rx or not tp:
                t.oops("work", "a worker is given %s" % pretty(w), line)
                return
            s.auto = (p, reg, (rx[0].a[0][2:], tp[0].a[0][2:]), ready, n)
        elif tx == "gop":
            if item.k != "agg" or not p:
                t.oops("gop-other", "a worker is sent %s" % pretty(item),
                       line)
                return
            if not reg or not wk:
                t.oops("gop-unready", "a sub-GOP is sent to nobody: its "
                       "worker was %s" % ("not registered for reassembly"
                                          if wk else "not given work"), line)
                return
            if wk[1] != reg:
                t.oops("order-other", "the packets reassembled are not the "
                       "ones of the worker", line)
            if v0.a[0][2:] != wk[0]:
                t.oops("gop-wrong", "a sub-GOP is sent to another worker",
                       line)
            if p == 2:
                s.auto = (0, 0, 0, 0, n + 1)
            else:
                s.auto = (0, reg, wk, 1, n)

    def call(t, a, s, n, rn, l, rec, args, site, line):
        return None

    def new_channel(t, a, s, r):
        if r == "gop" and s.auto[3]:
            t.oops("gop-split", "a GOP goes on in another worker", 0)

    t = Task(ctx, b, v, st, (0, 0, 0, 0, 0), recv=recv, closed=closed,
             send=send, call=call, new_channel=new_channel)
    finish(ctx, t, key, lambda au: "a sub-GOP is left over" if au[0] else
           None)


def reassembler(ctx, b, v, st):
    key = "gop:reassemble"
    NG, NP = 3, 2

    # auto: (received, removed, current gop, packets taken of it, pending
    #        packet, sent, packets in all)
    def recv(t, a, s, rx, v0, line):
        rcv, rem, cur, k, pend, sent, tot = s.auto
        if rx == "order":
            if len(rcv) > len(rem) and pend:
                pass
            res = []
            for i in range(NG):
                if i in rcv:
                    continue
                x = s.copy()
                x.auto = (rcv + (i,), rem, cur, k, pend, sent, tot)
                res.append((x, tup(K(i), sym("rx:packet@g%d" % i))))
            return res
        if rx == "packet":
            g = int(v0_sym(v0).split("@g")[1])
            if pend:
                t.oops("packet-lost", "a packet is taken and not sent", line)
            if g != cur:
                k = 0
            if k >= NP:
                return []
            x = s.copy()
            x.auto = (rcv, rem, g, k + 1, 1, sent, tot)
            return [(x, sym("PKT%d.%d" % (g, k)))]
        if rx == "idle":
            return [(s.copy(), sym("tx:work@idle"))]
        return [(s.copy(), sym("ITEM"))]

    def closed(t, a, s, rx, v0, line):
        rcv, rem, cur, k, pend, sent, tot = s.auto
        if rx == "order":
            return sorted(rcv) == list(range(len(rcv)))
        if rx == "packet":
            g = int(v0_sym(v0).split("@g")[1])
            if pend:
                t.oops("packet-lost", "a packet is taken and not sent", line)
            s.auto = (rcv, rem, g, NP, pend, sent + ((g, k if g == cur else
                                                      0),), tot)

    def send(t, a, s, tx, v0, item, line):
        rcv, rem, cur, k, pend, sent, tot = s.auto
        if tx == "work":
            if item is not NONE:
                t.oops("close", "workers are told %s" % pretty(item), line)
            return
        if tx != "packet":
            return
        base, ch = item, ()
        if item.k == "st":
            base, ch = item.a[0], item.a[1]
        if not pend or show(base) != "PKT%d.%d" % (cur, k - 1):
            t.oops("packet-other", "sends %s" % pretty(item), line)
        if any(g > cur for g, _ in sent):
            t.oops("order", "the packets of GOP %d come after those of GOP "
                   "%d" % (cur, max(g for g, _ in sent)), line)
        if sent and len(sent) != cur:
            t.oops("order", "packets of GOP %d come after %d GOPs" % (
                cur, len(sent)), line)
        num = st_field(item, ".input_frameno")
        if num is not K(tot):
            t.oops("number", "packet %d is numbered %s" % (
                tot, pretty(num) if num is not None else "by its worker"),
                line)
        for x in ch:
            if x[0] not in (".input_frameno", (".input_frameno",)):
                t.oops("packet-changed", "%s of a packet is changed" %
                       (x[0],), line)
        s.auto = (rcv, rem, cur, k, 0, sent, tot + 1)

    def call(t, a, s, n, rn, l, rec, args, site, line):
        rcv, rem, cur, k, pend, sent, tot = s.auto
        if "BTreeMap" in rn or "HashMap" in rn:
            if l == "new":
                return [(s, sym("MAP"))]
            if l == "insert":
                x = args[1]
                if x is not K(rcv[-1]) or show(args[2]) != \
                        "rx:packet@g%d" % rcv[-1]:
                    t.oops("register", "GOP %s is kept as %s" % (
                        rcv[-1], pretty(x)), line)
                return [(s, NONE)]
            if l == "remove":
                x = deep(a, s, args[1])
                if x.k != "k":
                    return None
                i = x.a[0]
                if i in rcv and i not in rem:
                    s.auto = (rcv, rem + (i,), cur, k, pend, sent, tot)
                    return [(s, some(sym("rx:packet@g%d" % i)))]
                return [(s, NONE)]
            if l == "is_empty":
                return [(s, K(int(len(rcv) == len(rem))))]
        return None

    t = Task(ctx, b, v, st, ((), (), -1, 0, 0, (), 0), recv=recv,
             closed=closed, send=send, call=call)

    def check(au):
        rcv, rem, cur, k, pend, sent, tot = au
        if pend:
            return "a packet is taken and not sent"
        if len(rem) != len(rcv) or len(sent) != len(rcv):
            return "the packets of %d GOPs are never sent" % (
                len(rcv) - len(sent))
    finish(ctx, t, key, check)


def st_field(v, f):
    if v.k == "st":
        for x in v.a[1]:
            if x[0] in (f, (f,)):
                return x[1]
    return None


def v0_sym(v):
    while v.k == "call":
        v = v.a[1][0]
    return v.a[0]


def split(ctx):
    """The scene detector decides about each position once, in order."""
    c = ctx.lib
    try:
        f = ctx.fn("SceneChange::split")
    except Exception:
        return
    for pyr in range(0, 5):
        for fr in range(0, pyr + 2):
            for new in (0, 1):
                got = []

                def call(a, st, n, rn, rec, args, site, line):
                    if rn.endswith("analyze_next_frame"):
                        got.append((args[2], args[3]))
                        return [(st, K(new))]
                    if last(rn) == "collect":
                        return [(st, sym("REFS"))]
                outs, a = run_cell(c, f, {
                    "frames": K(fr), "pyramid_size": K(pyr),
                    "processed": K(40), "last_keyframe": K(30)},
                    args=[sym("self"), sym("lookahead")], call=call, ctx=ctx)
                key = "split:%d:%d:%d" % (pyr, fr, new)
                ctx.ob(len(outs) == 1, key, "%d outcomes" % len(outs),
                       f.loc())
                for o in outs:
                    ld = lambda n: o.st.load((("X", sym("self")), (n,)))
                    nm, p = variant(o.ret)
                    full = fr > pyr
                    if new or full:
                        want = some(tup(K(fr + 1), K(new)))
                        wf = K(0)
                    else:
                        want, wf = NONE, K(fr + 1)
                    ctx.ob(o.ret is want and ld(".frames") is wf, key,
                           "with %d of %d frames decided and %s the split is "
                           "%s, %s frames decided next" % (
                               fr, pyr + 2, "a scene cut" if new else
                               "no cut", pretty(o.ret), pretty(
                                   ld(".frames"))), f.loc())
                    ctx.ob(ld(".processed") is K(41) and
                           ld(".last_keyframe") is K(41 if new else 30) and
                           got == [(K(41), K(30))], key + ":pos",
                           "positions: processed %s, last key frame %s, "
                           "analysed %s" % (
                               pretty(ld(".processed")),
                               pretty(ld(".last_keyframe")), [
                                   tuple(map(pretty, g)) for g in got]),
                           f.loc())


def endpoints(ctx):
    """Senders count what was accepted and give back what was not."""
    c = ctx.lib
    for ty in ("FrameSender", "RcDataSender"):
        for m in ("send", "try_send"):
            f = ctx.fn("%s::%s" % (ty, m))
            for full in (0, 1):
                for res in ("Ok", "Err"):
                    def call(a, st, n, rn, rec, args, site, line):
                        l = last(rn)
                        if l == "into" and ty == "FrameSender" and \
                                not rn.startswith("std"):
                            return [(st, sym("MSG"))]
                        v0 = a.value_of(st, args[0]) if args else None
                        if l == m and v0 is not None and "TX" in show(v0):
                            st.auto = (st.auto or ()) + (args[1],)
                            if res == "Ok":
                                return [(st, ok(UNIT))]
                            e = cl("failed", args[1])
                            return [(st, err(e))]
                        if l == "from" and "SendError" in rn:
                            return [(st, cl("error", args[0]))]
                    outs, a = run_cell(
                        c, f, {"sender": sym("TX"), "limit": K(5),
                               "count": K(5 if full else 4)},
                        args=[sym("self"), sym("MSG")], call=call, ctx=ctx)
                    key = "%s:%s:%s" % (ty, m, "full" if full else res)
                    ctx.ob(bool(outs), key, "never returns", f.loc())
                    for o in outs:
                        cnt = o.st.load((("X", sym("self")), (".count",)))
                        n, p = variant(o.ret)
                        sent = o.st.auto or ()
                        if full:
                            good = n == "Err" and not sent and \
                                cnt is K(5) and "MSG" in show(o.ret)
                            if m == "try_send":
                                good = good and "Full" in show(o.ret)
                        elif res == "Ok":
                            good = n == "Ok" and sent == (sym("MSG"),) and \
                                cnt is K(5)
                        else:
                            good = n == "Err" and len(sent) == 1 and \
                                cnt is K(4) and "MSG" in show(o.ret)
                        ctx.ob(good, key, "%s when %s: returns %s, %d "
                               "messages sent, count %s" % (
                                   m, "the limit is reached" if full else
                                   "the channel " + ("takes it" if res ==
                                                     "Ok" else "is closed"),
                                   pretty(o.ret), len(sent), pretty(cnt)),
                               f.loc())
    for ty, fld in (("PacketReceiver", ".receiver"),
                    ("RcDataReceiver", ".0")):
        for m in ("recv", "try_recv"):
            f = ctx.fn("%s::%s" % (ty, m))
            for res in ("Ok", "Err"):
                def call(a, st, n, rn, rec, args, site, line):
                    l = last(rn)
                    v0 = a.value_of(st, args[0]) if args else None
                    if l == m and v0 is not None and show(v0) == "RX":
                        st.auto = (st.auto or 0) + 1
                        return [(st, ok(sym("ITEM")) if res == "Ok" else
                                 err(sym("E")))]
                    if l == "from" and "RecvError" in rn:
                        return [(st, sym("E2"))]
                outs, a = run_cell(c, f, {fld[1:]: sym("RX")},
                                   args=[sym("self")], call=call, ctx=ctx)
                key = "%s:%s:%s" % (ty, m, res)
                ctx.ob(bool(outs), key, "never returns", f.loc())
                for o in outs:
                    n, p = variant(o.ret)
                    ctx.ob(n == res and o.st.auto == 1 and (
                        p is sym("ITEM") or res == "Err"), key,
                        "returns %s after %s receptions" % (
                            pretty(o.ret), o.st.auto), f.loc())

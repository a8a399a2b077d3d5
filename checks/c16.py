"""C16 - the C API is a faithful view of the encoder."""
import re
from sa.val import *
from sa.gate import *

RULE = """All-paths abstract interpretation of every exported C function's MIR
with the encoder calls opaque: the configuration field each option key and
setter writes (and nothing on rejection), the exact parameters handed to the
encoder, the packet handed back field by field, the status returned and
remembered, the length prefix of pass data, and the pairing of every
allocation with the release the header promises (same pointer and length,
null accepted, callback run once or handed back)."""
ASSUME = ["callers pass valid pointers, as the header requires",
          "Vec, Box, Arc, CString and parse behave as documented"]

STATUS = ["NeedMoreData", "EnoughData", "LimitReached", "Encoded", "Failure",
          "NotReady"]
CSTAT = {"Success": 0, "NeedMoreData": 1, "EnoughData": 2, "LimitReached": 3,
         "Encoded": 4, "Failure": -1, "NotReady": -2}
API = "api::util::EncoderStatus"

# key -> field of the configuration ('some:' when stored as Some)
KEYS = {
    "width": "enc.width", "height": "enc.height", "threads": "threads",
    "tiles": "enc.tiles", "tile_rows": "enc.tile_rows",
    "tile_cols": "enc.tile_cols", "tune": "enc.tune",
    "quantizer": "enc.quantizer", "min_quantizer": "enc.min_quantizer",
    "bitrate": "enc.bitrate",
    "switch_frame_interval": "enc.switch_frame_interval",
    "reservoir_frame_delay": "some:enc.reservoir_frame_delay",
    "rdo_lookahead_frames": "enc.speed_settings.rdo_lookahead_frames",
    "low_latency": "enc.low_latency",
    "enable_timing_info": "enc.enable_timing_info",
    "still_picture": "enc.still_picture",
}
CALLED = {          # keys that go through a method of the configuration
    "speed": ("SpeedSettings::from_preset", "enc.speed_settings"),
    "key_frame_interval": ("set_key_frame_interval", None),
    "min_key_frame_interval": ("set_key_frame_interval", None),
}


def const_str(v):
    m = re.match(r'^&*"(.*)"$', show(v))
    return m and m[1]


def F(ctx, n):
    return ctx.fn("capi::" + n)


def load(st, root, path):
    return st.load((("X", sym(root)), elems(path)))


def init(root, path):
    from sa.ae import State
    return State().load((("X", sym(root)), elems(path)))


def argsyms(f):
    return [sym(f.dbg_name(i + 1) or "a%d" % i) for i in range(f.nargs)]


def cl(name, *args):
    return mk("call", name, tuple(args), None)


def fields(v):
    if v.k != "agg":
        return {}
    return {k.lstrip("."): x for k, x in zip(v.a[3], v.a[4])}


def written(v):
    """Field paths overlaid on a symbolic object."""
    if v.k != "st":
        return {""}
    out = set()
    for e, x in v.a[1]:
        out |= {str(e) + w for w in written(x)} if x.k == "st" and \
            not str(e).startswith("[") else {str(e)}
    return out


def changed(o, root):
    v = o.st.store.get(("X", sym(root)))
    if v is None or v.k == "sym":
        return set()
    return written(v)


def run(ctx):
    status(ctx)
    options(ctx)
    level(ctx)
    parse_wrappers(ctx)
    setters(ctx)
    context_new(ctx)
    frames(ctx)
    send(ctx)
    receive(ctx)
    pass_data(ctx)
    summary(ctx)
    planes(ctx)
    slices(ctx)
    forwards(ctx)
    release(ctx)
    exported(ctx)


def api_status(n):
    return agg("adt", API, n, (), ())


def status(ctx):
    c = ctx.lib
    d = c.adt("capi::EncoderStatus")
    got = {v[0]: v[1] for v in d["variants"]}
    for n, x in CSTAT.items():
        ctx.ob(n in got, "status-name:" + n, "no C status named " + n)
        if got.get(n) is not None:
            g = int(got[n])
            if g >= 1 << 31:
                g -= 1 << (32 if g < 1 << 32 else 64 if g < 1 << 64 else 128)
            ctx.ob(g == x, "status-value:" + n, "C status %s is %d, the "
                   "header says %d" % (n, g, x))
    f = [x for x in c.fns.values() if "capi::EncoderStatus as" in x.nname and
         "From" in x.nname and x.nname.endswith("::from")]
    ctx.ob(len(f) == 1, "status-from", "no conversion of encoder status")
    if len(f) == 1:
        apin = c.adt(API)["adt"]
        for n in STATUS + [None]:
            v = NONE if n is None else some(agg("adt", apin, n, (), ()))
            outs, a = run_cell(c, f[0], {}, args=[v], ctx=ctx)
            ctx.ob(outs and all(o.ret.k == "agg" and o.ret.a[2] ==
                                (n or "Success") for o in outs),
                   "status-map:%s" % n, "encoder status %s becomes %s" % (
                       n, [show(o.ret)[:60] for o in outs]), f[0].loc())
    f = F(ctx, "EncoderStatus::to_c")
    cn = c.adt("capi::EncoderStatus")["adt"]
    texts = {}
    for n in CSTAT:
        outs, a = run_ref(ctx, f, agg("adt", cn, n, (), ()))
        for o in outs:
            t = show(o.ret)
            ctx.ob('\\0"' in t or "\\u0000\"" in t or '\x00"' in t,
                   "status-text:" + n, "the text of status %s is not NUL "
                   "terminated: %s" % (n, t[:80]), f.loc())
            texts.setdefault(t, n)
    ctx.ob(len(texts) == len(CSTAT), "status-text-distinct",
           "two statuses share a text", f.loc())


def run_ref(ctx, f, v):
    def call(a, st, nm, rn, rec, args, site, line):
        if rn.endswith("as_ptr"):
            return [(st, args[0])]
    return run_cell(ctx.lib, f, {}, args=[mk("ref", ("C", v), (), 0)],
                    ctx=ctx, call=call)


def parse_hook(key, value=None, parsed=None, calls=None):
    k, v = sym("key"), sym("value")

    def call(a, st, n, rn, rec, args, site, line):
        if rn.endswith("from_ptr"):
            return [(st, args[0])]
        if rn.endswith("::to_str"):
            return [(st, ok(args[0]))]
        if n.endswith("PartialEq::eq") or n.endswith("PartialEq::ne"):
            x, y = a.value_of(st, args[0]), a.value_of(st, args[1])
            for p, q in ((x, y), (y, x)):
                s = const_str(q)
                if s is None:
                    continue
                neg = n.endswith("ne")
                if p is k:
                    return [(st, K(int((s == key) != neg)))]
                if p is v:
                    return [(st, K(int((s == value) != neg)))]
        if rn.endswith("str>::parse") or n.endswith("str::parse") or \
                n.endswith("FromStr::from_str"):
            t = const_str(args[0])
            if t is not None:
                return [(st, ok(K(int(t))) if t.isdigit() else err(UNIT))]
            if parsed is not None:
                st.auto = (st.auto or 0) + 1
                return [(st, ok(parsed(st.auto - 1)))]
            s2 = st.copy()
            return [(st, ok(sym("P"))), (s2, err(UNIT))]
        if calls is not None:
            for m in calls:
                if rn.endswith(m):
                    calls[m].append((st, [a.value_of(st, x) for x in args],
                                     args))
                    return [(st, cl(m, *args))]
        return None
    return call


def options(ctx):
    c = ctx.lib
    f = F(ctx, "option_match")
    A = [sym("cfg"), sym("key"), sym("value")]

    def go(key, **kw):
        outs, a = run_cell(c, f, {}, args=A, root="cfg",
                           call=parse_hook(key, **kw), ctx=ctx)
        ctx.ob(bool(outs), "option-path:" + key,
               "option %s is never answered" % key, f.loc())
        return outs
    for key, fld in sorted(KEYS.items()):
        opt = fld.startswith("some:")
        fld = fld[5:] if opt else fld
        acc = 0
        for o in go(key):
            n, _ = variant(o.ret)
            w = changed(o, "cfg")
            if n == "Ok":
                acc += 1
                got = load(o.st, "cfg", "cfg." + fld)
                ctx.ob(got is (some(sym("P")) if opt else sym("P")),
                       "option:" + key, "option %s leaves %s in %s instead of "
                       "the parsed value" % (key, show(got)[:60], fld),
                       f.loc())
                ctx.ob(w == {".cfg." + fld}, "option-only:" + key,
                       "option %s also writes %s" % (
                           key, sorted(w - {".cfg." + fld})), f.loc())
            else:
                ctx.ob(n == "Err" and not w, "option-reject:" + key,
                       "option %s fails after writing %s" % (key, sorted(w)),
                       f.loc())
        ctx.ob(acc, "option-accept:" + key, "option %s never accepts a value"
               % key, f.loc())
    # through methods
    for key, (m, fld) in CALLED.items():
        calls = {m: []}
        outs = go(key, calls=calls)
        for st, vals, raw in calls[m]:
            if m.startswith("Speed"):
                ok_ = vals[0] is sym("P")
            elif key == "key_frame_interval":
                ok_ = vals[2] is sym("P") and vals[1] is init(
                    "cfg", "cfg.enc.min_key_frame_interval")
            else:
                ok_ = vals[1] is sym("P") and vals[2] is init(
                    "cfg", "cfg.enc.max_key_frame_interval")
            ctx.ob(ok_, "option:" + key, "option %s hands %s to %s" % (
                key, [show(v)[:40] for v in vals], m), f.loc())
        good = [o for o in outs if variant(o.ret)[0] == "Ok"]
        ctx.ob(good and calls[m], "option-accept:" + key,
               "option %s is accepted without %s" % (key, m), f.loc())
        for o in outs:
            w = {x for x in changed(o, "cfg")}
            if variant(o.ret)[0] == "Ok" and fld:
                got = load(o.st, "cfg", "cfg." + fld)
                ctx.ob(got.k == "call" and got.a[0] == m, "option:" + key,
                       "option %s leaves %s in %s" % (key, show(got)[:60],
                                                      fld), f.loc())
            elif variant(o.ret)[0] != "Ok":
                ctx.ob(not w, "option-reject:" + key, "option %s fails after "
                       "writing %s" % (key, sorted(w)), f.loc())
    # scene detection: only a true value switches it off
    P = sym("P")
    for val in (0, 1):
        outs = go("no_scene_detection", parsed=lambda i: K(val))
        for o in outs:
            w = changed(o, "cfg")
            got = load(o.st, "cfg",
                       "cfg.enc.speed_settings.scene_detection_mode")
            if val:
                ctx.ob(got.k == "agg" and got.a[2] == "None" and w == {
                    ".cfg.enc.speed_settings.scene_detection_mode"},
                    "option:no_scene_detection", "no_scene_detection=true "
                    "leaves the mode %s" % show(got)[:60], f.loc())
            else:
                ctx.ob(not w, "option:no_scene_detection",
                       "no_scene_detection=false writes %s" % sorted(w),
                       f.loc())
    for o in go("unheard_of"):
        ctx.ob(variant(o.ret)[0] == "Err" and not changed(o, "cfg"),
               "option-unknown", "an unknown key is accepted", f.loc())


def level(ctx):
    c = ctx.lib
    f = F(ctx, "option_match")
    A = [sym("cfg"), sym("key"), sym("value")]
    fld = "cfg.enc.level_idx"
    for val, want in (("auto", NONE), ("unconstrained", some(K(31)))):
        outs, a = run_cell(c, f, {}, args=A, root="cfg",
                           call=parse_hook("level", val), ctx=ctx)
        ctx.ob(bool(outs), "level:" + val, "level %s never answered" % val)
        for o in outs:
            ctx.ob(variant(o.ret)[0] == "Ok" and
                   load(o.st, "cfg", fld) is want, "level:" + val,
                   "level %s becomes %s" % (
                       val, show(load(o.st, "cfg", fld))[:60]), f.loc())
    for mj in range(0, 10):
        for mn in range(0, 6):
            def parsed(i):
                return K(mj if i == 0 else mn)
            outs, a = run_cell(c, f, {}, args=A, root="cfg",
                               call=parse_hook("level", "", parsed), ctx=ctx)
            good = [o for o in outs if variant(o.ret)[0] == "Ok"]
            valid = 2 <= mj <= 7 and mn <= 3
            key = "level:%d.%d" % (mj, mn)
            ctx.ob(bool(good) == valid, key, "level %d.%d is %s" % (
                mj, mn, "refused" if valid else "accepted"), f.loc())
            for o in good:
                got = load(o.st, "cfg", fld)
                ctx.ob(got is some(K((mj - 2) * 4 + mn)), key,
                       "level %d.%d becomes %s" % (mj, mn, show(got)[:60]),
                       f.loc())


def parse_wrappers(ctx):
    c = ctx.lib
    f = F(ctx, "rav1e_config_parse")
    for res in ("Ok", "Err"):
        def call(a, st, n, rn, rec, args, site, line):
            if rn.endswith("capi::option_match"):
                st.auto = tuple(st.auto or ()) + (tuple(args),)
                return [(st, ok(UNIT) if res == "Ok" else err(UNIT))]
        outs, a = run_cell(c, f, {}, args=argsyms(f), root="cfg", call=call,
                           ctx=ctx)
        ctx.ob(bool(outs), "parse", "rav1e_config_parse never returns")
        for o in outs:
            ctx.ob(o.ret is K(0 if res == "Ok" else -1) and o.st.auto ==
                   (tuple(argsyms(f)),), "parse:" + res,
                   "rav1e_config_parse answers %s when the option is %s" % (
                       show(o.ret)[:40], res), f.loc())
    f = F(ctx, "rav1e_config_parse_int")
    for seq in (("Ok",), ("Err", "Ok"), ("Err", "Err")):
        for zero in (0, 1):
            seen = []

            def call(a, st, n, rn, rec, args, site, line):
                if rn.endswith("capi::option_match"):
                    k = st.auto or 0
                    seen.append((k, show(args[2])))
                    st.auto = k + 1
                    r = seq[k] if k < len(seq) else "Err"
                    return [(st, ok(UNIT) if r == "Ok" else err(UNIT))]
                if rn.endswith("to_string"):
                    return [(st, cl("to_string", a.value_of(
                        st, args[0])))]
                if rn.endswith("CString::new"):
                    return [(st, ok(args[0]))]
                if rn.endswith("as_ptr") or rn.endswith("::deref"):
                    return [(st, a.value_of(st, args[0]))]
                if rn.endswith("::unwrap") and args[0].k == "agg" and \
                        args[0].a[2] == "Ok":
                    return [(st, args[0].a[4][0])]
            outs, a = run_cell(c, f, {}, args=[sym("cfg"), sym("key"),
                                               K(5 if zero else 0)],
                               root="cfg", call=call, ctx=ctx)
            key = "parse-int:%s:%d" % ("-".join(seq), zero)
            ctx.ob(bool(outs), key, "never returns")
            for o in outs:
                ctx.ob(o.st.auto == len(seq) and
                       o.ret is K(0 if seq[-1] == "Ok" else -1), key,
                       "rav1e_config_parse_int answers %s after %s tries "
                       "when they end %s" % (show(o.ret)[:40], o.st.auto,
                                             seq), f.loc())
            for k, t in seen:
                if k == 0:
                    ctx.ob("%d" % (5 if zero else 0) in t and "true" not in t
                           and "false" not in t, key, "the number is passed "
                           "on as " + t[:60], f.loc())
                else:
                    ctx.ob(("true" if zero else "false") in t, key,
                           "the switch is passed on as " + t[:60], f.loc())


def setters(ctx):
    c = ctx.lib
    one = {
        "rav1e_config_set_sample_aspect_ratio":
            [("enc.sample_aspect_ratio", "sample_aspect_ratio")],
        "rav1e_config_set_time_base": [("enc.time_base", "time_base")],
    }
    for n, fl in one.items():
        f = F(ctx, n)
        A = argsyms(f)
        outs, a = run_cell(c, f, {}, args=A, root="cfg", ctx=ctx)
        ctx.ob(bool(outs), n, "never returns")
        for o in outs:
            for p, s in fl:
                ctx.ob(load(o.st, A[0].a[0], "cfg." + p) is A[1] and
                       changed(o, A[0].a[0]) == {".cfg." + p}, n,
                       "%s writes %s" % (n, sorted(changed(o, A[0].a[0]))),
                       f.loc())
    f = F(ctx, "rav1e_config_set_emit_data")
    for v in (0, 1, -1, 7):
        A = argsyms(f)
        outs, a = run_cell(c, f, {}, args=[A[0], K(v)], root="cfg", ctx=ctx)
        for o in outs:
            ctx.ob(load(o.st, A[0].a[0], "cfg.rate_control.emit_pass_data")
                   is K(int(v != 0)), "emit:%d" % v,
                   "emit data %d is stored as %s" % (v, show(load(
                       o.st, A[0].a[0], "cfg.rate_control.emit_pass_data"))),
                   f.loc())
    # composite descriptions: Some(struct with each argument in its field)
    comp = {
        "rav1e_config_set_color_description": ("enc.color_description", {
            "matrix_coefficients": 1, "color_primaries": 2,
            "transfer_characteristics": 3}),
        "rav1e_config_set_content_light": ("enc.content_light", {
            "max_content_light_level": 1,
            "max_frame_average_light_level": 2}),
        "rav1e_config_set_mastering_display": ("enc.mastering_display", {
            "primaries": "*1", "white_point": 2, "max_luminance": 3,
            "min_luminance": 4}),
    }
    for n, (p, m) in comp.items():
        f = F(ctx, n)
        A = argsyms(f)
        outs, a = run_cell(c, f, {}, args=A, root="cfg", ctx=ctx)
        ctx.ob(bool(outs), n, "never returns")
        for o in outs:
            ctx.ob(o.ret is K(0), n + ":ret", "%s returns %s" % (
                n, show(o.ret)[:40]), f.loc())
            ctx.ob(all(w.startswith(".cfg." + p)
                       for w in changed(o, A[0].a[0])), n + ":only",
                   "%s writes %s" % (n, sorted(changed(o, A[0].a[0]))),
                   f.loc())
            for fld, i in m.items():
                got = load(o.st, A[0].a[0], "cfg.%s@Some.0.%s" % (p, fld))
                if i == "*1":
                    ok_ = A[1].a[0] in show(got) and not any(
                        s.k == "sym" and s is not A[1]
                        for s in subterms(got))
                else:
                    ok_ = got is A[i]
                ctx.ob(ok_, "%s:%s" % (n, fld), "%s stores %s as %s" % (
                    n, show(got)[:60], fld), f.loc())
    f = F(ctx, "rav1e_config_set_pixel_format")
    A = argsyms(f)
    want = {"enc.bit_depth": 1, "enc.chroma_sampling": 2,
            "enc.chroma_sample_position": 3, "enc.pixel_range": 4}
    for bd in (0, 1, 7, 8, 9, 10, 11, 12, 13, 16, 255):
        def call(a, st, n, rn, rec, args, site, line):
            if n.endswith("from_i32"):
                x = show(args[0])
                i = [k for k in (2, 3, 4) if A[k].a[0] in x]
                s2 = st.copy()
                st.auto = tuple(st.auto or ()) + (i[0],)
                return [(st, some(A[i[0]])), (s2, NONE)]
        B = [A[0], K(bd)] + A[2:]
        outs, a = run_cell(c, f, {}, args=B, root="cfg", ctx=ctx, call=call)
        key = "pixel-format:%d" % bd
        ok0 = 0
        for o in outs:
            if o.ret is K(0):
                ok0 += 1
                ctx.ob(bd in (8, 10, 12), key, "bit depth %d is accepted" %
                       bd, f.loc())
                ctx.ob(set(o.st.auto or ()) == {2, 3, 4}, key + ":checked",
                       "an out-of-range enumeration value is accepted",
                       f.loc())
                for p, i in want.items():
                    got = load(o.st, A[0].a[0], "cfg." + p)
                    while got.k == "cast":
                        got = got.a[1]
                    ctx.ob(got is B[i], key + ":" + p, "%s is set to %s" % (
                        p, show(got)[:60]), f.loc())
            else:
                ctx.ob(o.ret is K(-1), key, "returns " + show(o.ret)[:40],
                       f.loc())
                # an invalid value is never stored
                bad = len(set(o.st.auto or ()))
                for i, p in enumerate(("enc.chroma_sampling",
                                       "enc.chroma_sample_position",
                                       "enc.pixel_range")):
                    if i + 2 not in (o.st.auto or ()):
                        ctx.ob(".cfg." + p not in changed(o, A[0].a[0]),
                               key + ":invalid:" + p, "an invalid value is "
                               "stored in " + p, f.loc())
        ctx.ob(bool(ok0) == (bd in (8, 10, 12)), key,
               "bit depth %d is never accepted" % bd, f.loc())


def context_new(ctx):
    c = ctx.lib
    f = F(ctx, "rav1e_context_new")
    A = argsyms(f)
    for bd in (8, 10, 12):
        for good in (0, 1):
            def call(a, st, n, rn, rec, args, site, line):
                if rn.endswith("Config::new_context"):
                    return [(st, ok(sym("CTX")) if good else err(sym("E")))]
                if rn.endswith("Box::new") or rn.endswith("Box::into_raw"):
                    return [(st, a.value_of(st, args[0]))]
            outs, a = run_cell(c, f, {"cfg.enc.bit_depth": K(bd)}, args=A,
                               root=A[0].a[0], ctx=ctx, call=call)
            key = "context-new:%d:%d" % (bd, good)
            ctx.ob(bool(outs), key, "never returns")
            for o in outs:
                t = show(o.ret)
                if good:
                    x = [s for s in subterms(o.ret) if s.k == "agg" and
                         s.a[2] in ("U8", "U16")]
                    ctx.ob(len(x) == 1 and x[0].a[2] ==
                           ("U8" if bd == 8 else "U16"), key,
                           "a %d bit configuration makes a %s context" % (
                               bd, [s.a[2] for s in x]), f.loc())
                    ctx.ob("None" in t and "CTX" in t, key + ":err",
                           "a fresh context remembers an error: " + t[:80],
                           f.loc())
                else:
                    ctx.ob("null" in t or o.ret is K(0), key,
                           "an invalid configuration returns " + t[:80],
                           f.loc())


def frames(ctx):
    c = ctx.lib
    f = F(ctx, "rav1e_frame_set_type")
    A = argsyms(f)
    for good in (0, 1):
        def call(a, st, n, rn, rec, args, site, line):
            if n.endswith("from_i32"):
                return [(st, some(A[1]) if good else NONE)]
        outs, a = run_cell(c, f, {}, args=A, root="f", ctx=ctx, call=call)
        ctx.ob(bool(outs), "frame-type", "never returns")
        for o in outs:
            w = changed(o, A[0].a[0])
            ctx.ob(o.ret is K(0 if good else -1) and (
                load(o.st, A[0].a[0], "frame_type") is A[1] and
                w == {".frame_type"} if good else not w),
                "frame-type:%d" % good, "a %s frame type returns %s, writes "
                "%s" % ("valid" if good else "invalid", show(o.ret)[:30],
                        sorted(w)), f.loc())
    f = F(ctx, "rav1e_frame_set_opaque")
    A = argsyms(f)
    for null in (0, 1):
        def call(a, st, n, rn, rec, args, site, line):
            if rn.endswith("is_null"):
                return [(st, K(null))]
        outs, a = run_cell(c, f, {}, args=A, root="f", ctx=ctx, call=call)
        for o in outs:
            got = load(o.st, A[0].a[0], "opaque")
            if null:
                ok_ = got is NONE
            else:
                x = load(o.st, A[0].a[0], "opaque@Some.0.opaque")
                y = load(o.st, A[0].a[0], "opaque@Some.0.cb")
                ok_ = x is A[1] and y is A[2]
            ctx.ob(ok_ and changed(o, A[0].a[0]) <= {
                ".opaque", ".opaque@Some.0.opaque", ".opaque@Some.0.cb"},
                "frame-opaque:%d" % null, "a %s opaque is stored as %s" % (
                    "null" if null else "non-null", show(got)[:80]), f.loc())
    f = F(ctx, "rav1e_frame_add_t35_metadata")
    A = argsyms(f)
    n_push = []

    def call(a, st, n, rn, rec, args, site, line):
        if rn.endswith("from_raw_parts"):
            return [(st, cl("slice", *args))]
        if rn.endswith("Vec::push"):
            n_push.append((show(args[0]), a.value_of(st, args[1]), st))
        if n.endswith("::into") or n.endswith("::from") or \
                n.endswith("to_vec") or n.endswith("into_boxed_slice"):
            return [(st, args[0])]
    outs, a = run_cell(c, f, {}, args=A, root="f", ctx=ctx, call=call)
    ctx.ob(bool(outs), "frame-t35", "never returns")
    ctx.ob(len(n_push) >= 1, "frame-t35", "no T.35 entry is appended",
           f.loc())
    for tgt, v, st in n_push:
        t = {}
        if v.k == "agg":
            t = fields(v)
        sl = t.get("data")
        ctx.ob(t.get("country_code") is A[1] and
               t.get("country_code_extension_byte") is A[2] and
               sl is not None and sl.k == "call" and sl.a[1][0] is A[3] and
               sl.a[1][1] is A[4], "frame-t35", "the T.35 entry appended is " +
               show(v)[:120], f.loc())
    # the callback runs exactly once, with the pointer, when there is one
    fs = [x for x in c.fns.values() if "capi::FrameOpaque as" in x.nname and
          x.nname.endswith("::drop")]
    ctx.ob(len(fs) == 1, "opaque-drop", "FrameOpaque has no destructor")
    for f in fs:
        for has in (0, 1):
            calls = []

            def call(a, st, n, rn, rec, args, site, line):
                if n == "<fnptr>":
                    st.auto = (st.auto or 0) + 1
                    calls.append([show(a.value_of(st, x)) for x in args])
                    return [(st, UNIT)]
            outs, a = run_cell(c, f, {"cb": some(sym("CB")) if has else NONE,
                                      "opaque": sym("PTR")}, ctx=ctx,
                               args=[sym("self")], call=call)
            ctx.ob(bool(outs), "opaque-drop", "never returns")
            for o in outs:
                ctx.ob((o.st.auto or 0) == has, "opaque-drop:%d" % has,
                       "dropping the opaque data runs the callback %d times "
                       "(%s callback)" % (o.st.auto or 0,
                                          "with" if has else "no"), f.loc())
            for x in calls:
                ctx.ob("PTR" in x[-1], "opaque-drop-arg", "the callback gets "
                       + str(x), f.loc())


def send(ctx):
    c = ctx.lib
    f = F(ctx, "rav1e_send_frame")
    A = argsyms(f)
    for null in (0, 1):
        for kc in ("U8", "U16"):
            for kf in ("U8", "U16"):
                if null and kf == "U16":
                    continue
                sends = []

                def call(a, st, n, rn, rec, args, site, line):
                    if rn.endswith("is_null"):
                        return [(st, K(null))]
                    if rn.endswith("rav1e_frame_pad_internal") or \
                            rn.endswith("Plane::pad"):
                        return [(st, UNIT)]
                    if rn.endswith("Arc::get_mut"):
                        return [(st, NONE)]
                    if rn.endswith("into_boxed_slice"):
                        return [(st, args[0])]
                    if rn.endswith("context::Context::send_frame"):
                        st.auto = (st.auto or 0) + 1
                        sends.append((a.value_of(st, args[0]),
                                      a.value_of(st, args[1])))
                        s2 = st.copy()
                        return [(st, ok(UNIT)), (s2, err(sym("E")))]
                    return None
                E = "capi::EncContext"
                cell = {"ctx:ctx": agg("adt", E, kc, (".0",),
                                       (sym("inner"),)),
                        "frame:fi": agg("adt", "capi::FrameInternal", kf,
                                        (".0",), (sym("arc"),))}
                outs, a = run_cell(c, f, cell, args=A, root="ctx", ctx=ctx,
                                   call=call)
                key = "send:%s" % ("flush:" + kc if null else kc + ":" + kf)
                ctx.ob(bool(outs), key, "never returns", f.loc())
                for o in outs:
                    le = load(o.st, "ctx", "last_err")
                    n = o.st.auto or 0
                    if not null and kc != kf:
                        ctx.ob(n == 0 and ret_status(o.ret) == "Failure" and
                               "Failure" in show(le), key, "a frame of the "
                               "wrong pixel type returns %s after %d sends" %
                               (show(o.ret)[:60], n), f.loc())
                        continue
                    ctx.ob(n == 1, key, "one C call makes %d sends" % n,
                           f.loc())
                    tie_status(ctx, key, o, le, f)
                for who, v in sends:
                    if null:
                        ctx.ob("None" in show(v)[:24], key, "a null frame is "
                               "sent as " + show(v)[:80], f.loc())
                        continue
                    fr, pa = (v.a[4] if v.k == "agg" and len(v.a[4]) == 2
                              else (v, v))
                    p = fields(pa)
                    ctx.ob(fr is sym("arc"), key + ":frame", "the frame sent "
                           "is " + show(fr)[:80], f.loc())
                    ctx.ob(p.get("frame_type_override") is
                           init("frame", "frame_type"), key + ":type",
                           "the frame type sent is " + show(p.get(
                               "frame_type_override", NONE))[:80], f.loc())
                    ctx.ob(p.get("t35_metadata") is
                           init("frame", "t35_metadata"), key + ":t35",
                           "the T.35 data sent is " + show(p.get(
                               "t35_metadata", NONE))[:80], f.loc())
                    op = p.get("opaque", NONE)
                    ctx.ob(op is NONE or "frame.opaque@Some.0" in show(op),
                           key + ":opaque", "the opaque data sent is " +
                           show(op)[:80], f.loc())
                if not null and kc == kf:
                    ops = {show(v)[:0] + ("some" if "frame.opaque@Some.0" in
                                          show(v) else "none")
                           for _, v in sends}
                    ctx.ob(ops == {"some", "none"}, key + ":opaque-both",
                           "the opaque data of a frame is %s sent" % (
                               "always" if ops == {"some"} else "never"),
                           f.loc())
                    for o in outs:
                        left = load(o.st, "frame", "opaque")
                        ctx.ob(left is NONE or
                               left is init("frame", "opaque") and
                               any(k_is_none(o, x) for x in ("frame.opaque",)),
                               key + ":opaque-taken", "the frame keeps the "
                               "opaque data it sent: the callback could run "
                               "twice", f.loc())


def k_is_none(o, name):
    return any("discr(%s" % name in show(k) and v == ("s", frozenset({0}))
               for k, v in o.st.facts.items())


def ret_status(v):
    return v.a[2] if v.k == "agg" else None


def tie_status(ctx, key, o, le, f):
    """last_err and the returned status describe the same result."""
    r = show(o.ret)
    if le is NONE:
        ctx.ob(ret_status(o.ret) == "Success", key + ":status", "a success "
               "returns " + r[:80], f.loc())
    else:
        ctx.ob("E" in show(le) and (
            ret_status(o.ret) not in (None, "Success") or
            o.ret.k != "agg"), key + ":status",
            "an error is remembered as %s and returned as %s" % (
                show(le)[:60], r[:60]), f.loc())


def receive(ctx):
    c = ctx.lib
    f = F(ctx, "rav1e_receive_packet")
    A = argsyms(f)
    E = "capi::EncContext"
    for kc in ("U8", "U16"):
        seen_ok = seen_err = 0
        opq = set()

        def call(a, st, n, rn, rec, args, site, line):
            if rn.endswith("context::Context::receive_packet"):
                st.auto = (st.auto or 0) + 1
                s2 = st.copy()
                return [(st, ok(sym("PKT"))), (s2, err(sym("E")))]
            if rn.endswith("ManuallyDrop::new") or \
                    rn.endswith("ManuallyDrop::into_inner") or \
                    rn.endswith("into_boxed_slice") or \
                    rn.endswith("Box::into_raw") or rn.endswith("Box::new"):
                return [(st, args[0])]
            if rn.endswith("Opaque::downcast"):
                return [(st, ok(cl("box", args[0])))]
            if n.endswith("Vec::len"):
                return [(st, cl("len", a.value_of(st, args[0])))]
        outs, a = run_cell(c, f, {"ctx:ctx": agg(
            "adt", E, kc, (".0",), (sym("inner"),))}, args=A, root="ctx",
            ctx=ctx, call=call)
        key = "receive:" + kc
        ctx.ob(bool(outs), key, "never returns", f.loc())
        for o in outs:
            le = load(o.st, "ctx", "last_err")
            ctx.ob((o.st.auto or 0) == 1, key, "one C call makes %s receives"
                   % o.st.auto, f.loc())
            tie_status(ctx, key, o, le, f)
            out = o.st.store.get(("X", A[1]))
            if le is not NONE:
                seen_err += 1
                ctx.ob(out is None or out.k == "sym", key + ":no-packet",
                       "an error stores a packet", f.loc())
                continue
            seen_ok += 1
            g = lambda p: o.st.load((("X", A[1]), ("*",) + elems(p)))
            pk = o.st.load((("X", A[1]), ()))
            fl = fields(pk)
            if not fl:
                pk = o.st.load((("X", A[1]), ("*",)))
                fl = fields(pk)
            def peel(v):
                while v is not None and v.k == "cast":
                    v = v.a[1]
                return v
            want = {"data": proj(sym("PKT"), ".data"),
                    "input_frameno": proj(sym("PKT"), ".input_frameno"),
                    "frame_type": proj(sym("PKT"), ".frame_type")}
            for n, w in want.items():
                ctx.ob(peel(fl.get(n)) is w, "%s:%s" % (key, n),
                       "the packet's %s is %s" % (n, show(fl.get(
                           n, NONE))[:80]), f.loc())
            ln = peel(fl.get("len"))
            ctx.ob(ln is not None and ln.k == "call" and ln.a[0] == "len" and
                   ln.a[1][0] is proj(sym("PKT"), ".data"), key + ":len",
                   "the packet's len is " + show(fl.get("len", NONE))[:80],
                   f.loc())
            for n in ("rec", "source"):
                v = show(fl.get(n, NONE))
                has = discr_of(o, "PKT." + n)
                if has == 1:
                    ctx.ob("PKT.%s@Some.0" % n in v and "null" not in v[:12]
                           and ("U8" if kc == "U8" else "U16") in v,
                           "%s:%s" % (key, n), "a packet's %s becomes %s" % (
                               n, v[:100]), f.loc())
                elif has == 0:
                    ctx.ob("null" in v or fl.get(n) is K(0),
                           "%s:%s" % (key, n), "a packet without %s hands out "
                           "%s" % (n, v[:100]), f.loc())
                else:
                    ctx.ob(False, "%s:%s" % (key, n), "%s does not depend on "
                           "the packet's: %s" % (n, v[:100]), f.loc())
            has = discr_of(o, "PKT.opaque")
            v = show(fl.get("opaque", NONE))
            if has == 1:
                opq.add(1)
                ctx.ob("PKT.opaque@Some.0" in v and ".opaque" in v, key +
                       ":opaque", "the packet's opaque pointer is " + v[:100],
                       f.loc())
                # the callback must be disarmed: the pointer goes to the user
                cleared = any(
                    "PKT.opaque@Some.0" in show(k[1]) and ".cb=option::Option"
                    "::None" in show(x) for k, x in o.st.store.items()
                    if k[0] == "X") or any(
                    ".cb=option::Option::None" in show(x) and
                    "PKT.opaque@Some.0" in show(x)
                    for x in o.st.store.values())
                ctx.ob(cleared, key + ":opaque-cb", "the opaque pointer is "
                       "handed out with its callback still armed", f.loc())
            elif has == 0:
                opq.add(0)
                ctx.ob("null" in v or fl.get("opaque") is K(0),
                       key + ":opaque", "a packet without opaque data hands "
                       "out " + v[:100], f.loc())
        ctx.ob(seen_ok and seen_err, key, "a result is lost", f.loc())
        ctx.ob(opq == {0, 1}, key + ":opaque", "the opaque pointer does not "
               "depend on the packet's", f.loc())


def discr_of(o, name):
    for k, v in o.st.facts.items():
        if k.k == "discr" and show(k.a[0]) == name and v[0] == "s" and \
                len(v[1]) == 1:
            return next(iter(v[1]))
    return None


def pass_data(ctx):
    c = ctx.lib
    # feed: consumes exactly one length-prefixed slice, remembers the result
    f = F(ctx, "rav1e_rc_send_pass_data")
    A = argsyms(f)
    E = "capi::EncContext"
    for kc in ("U8", "U16"):
        fed = []

        def call(a, st, n, rn, rec, args, site, line):
            if rn.endswith("capi::decode_slice"):
                s2 = st.copy()
                st.auto = ("got",)
                s2.auto = ("short",)
                return [(st, tup(K(0), some(sym("BUF")))),
                        (s2, tup(sym("NEED"), NONE))]
            if rn.endswith("context::Context::rc_send_pass_data"):
                fed.append(a.value_of(st, args[1]))
                st.auto = tuple(st.auto) + ("fed",)
                s2 = st.copy()
                return [(st, ok(UNIT)), (s2, err(sym("E")))]
        outs, a = run_cell(c, f, {"ctx:ctx": agg(
            "adt", E, kc, (".0",), (sym("inner"),))}, args=A, root="ctx",
            ctx=ctx, call=call)
        key = "rc-send:" + kc
        kinds = set()
        for o in outs:
            le = load(o.st, "ctx", "last_err")
            if o.st.auto == ("short",):
                kinds.add("short")
                ctx.ob(o.ret is sym("NEED"), key + ":short",
                       "an incomplete buffer returns " + show(o.ret)[:60],
                       f.loc())
            else:
                ctx.ob(o.st.auto == ("got", "fed"), key, "calls: %s" %
                       (o.st.auto,), f.loc())
                kinds.add("ok" if le is NONE else "err")
                ctx.ob(o.ret is K(0 if le is NONE else -1) and (
                    le is NONE or le is some(sym("E"))), key + ":status",
                    "returns %s and remembers %s" % (
                        show(o.ret)[:40], show(le)[:40]), f.loc())
        ctx.ob(kinds == {"short", "ok", "err"}, key + ":results",
               "results seen: %s" % sorted(kinds), f.loc())
        for v in fed:
            ctx.ob("BUF" in show(v), key + ":data", "the data fed is " +
                   show(v)[:60], f.loc())
    f = F(ctx, "rav1e_twopass_in")
    A = argsyms(f)
    for kc in ("U8", "U16"):
        def call(a, st, n, rn, rec, args, site, line):
            if rn.endswith("from_raw_parts"):
                return [(st, cl("slice", *args))]
            if rn.endswith("context::Context::twopass_in"):
                st.auto = a.value_of(st, args[1])
                s2 = st.copy()
                return [(st, ok(sym("N"))), (s2, err(sym("E")))]
        outs, a = run_cell(c, f, {"ctx:ctx": agg(
            "adt", E, kc, (".0",), (sym("inner"),))}, args=A, root="ctx",
            ctx=ctx, call=call)
        kinds = set()
        for o in outs:
            le = load(o.st, "ctx", "last_err")
            kinds.add(le is NONE)
            r = o.ret
            while r.k == "cast":
                r = r.a[1]
            ctx.ob((r is sym("N") if le is NONE else
                    o.ret is K(-1) and le is some(sym("E"))),
                   "twopass-in:" + kc, "returns %s and remembers %s" % (
                       show(o.ret)[:40], show(le)[:40]), f.loc())
            b = o.st.auto
            ctx.ob(b is not None and b.k == "call" and b.a[0] == "slice" and
                   b.a[1][0] is A[1] and b.a[1][1] is A[2], "twopass-in-buf:" + kc,
                   "the buffer fed is " + show(b)[:60] if b else "nothing",
                   f.loc())
        ctx.ob(kinds == {True, False}, "twopass-in-results:" + kc,
               "a result is lost", f.loc())
    # receive: kind, length prefix and payload
    f = F(ctx, "rav1e_rc_receive_pass_data")
    A = argsyms(f)
    rcd = "api::context::RcData"
    rcd = c.adt("RcData")["adt"]
    for got in ("Summary", "Frame", None):
        def call(a, st, n, rn, rec, args, site, line):
            if rn.endswith("context::Context::rc_receive_pass_data"):
                return [(st, NONE if got is None else some(
                    agg("adt", rcd, got, (".0",), (sym("BUF"),))))]
            if rn.endswith("with_capacity") or rn.endswith("Vec::new"):
                return [(st, cl("vec"))]
            if n.endswith("extend_from_slice"):
                st.auto = tuple(st.auto or ()) + (
                    a.value_of(st, args[1]),)
                return [(st, UNIT)]
            if rn.endswith("to_be_bytes"):
                return [(st, cl("be", args[0]))]
            if rn.endswith("to_le_bytes") or rn.endswith("to_ne_bytes"):
                return [(st, cl("le", args[0]))]
            if n.endswith("::len"):
                return [(st, cl("len", a.value_of(st, args[0])))]
            if rn.endswith("into_boxed_slice") or rn.endswith("Box::new") or \
                    rn.endswith("Box::into_raw"):
                return [(st, args[0])]
            if n.endswith("Deref::deref"):
                return [(st, a.value_of(st, args[0]))]
        outs, a = run_cell(c, f, {"ctx:ctx": agg(
            "adt", E, "U8", (".0",), (sym("inner"),))}, args=A, root="ctx",
            ctx=ctx, call=call)
        key = "rc-receive:%s" % got
        ctx.ob(bool(outs), key, "never returns", f.loc())
        for o in outs:
            ctx.ob(ret_status(o.ret) == (got or "Empty"), key,
                   "returns " + show(o.ret)[:60], f.loc())
            out = o.st.store.get(("X", A[1]))
            if got is None:
                ctx.ob(out is None or out.k == "sym", key, "stores data",
                       f.loc())
                continue
            parts = tuple(o.st.auto or ())
            p0 = peel(parts[0]) if parts else None
            ok_ = len(parts) == 2 and is_buf(parts[1]) and \
                p0.k == "call" and p0.a[0] == "be"
            n = peel(p0.a[1][0]) if ok_ else None
            ctx.ob(ok_ and n.k == "call" and n.a[0] == "len" and
                   is_buf(n.a[1][0]), key + ":layout",
                   "the bytes handed out are %s, not the big-endian length "
                   "followed by the data" % [show(x)[:60] for x in parts],
                   f.loc())


def peel(v):
    while v is not None and v.k in ("cast", "ref") and len(v.a) > 1:
        v = v.a[1]
    return v


def summary(ctx):
    c = ctx.lib
    f = F(ctx, "rav1e_config_set_rc_summary")
    A = argsyms(f)
    for null in (0, 1):
        for got in ("short", "bad", "good"):
            def call(a, st, n, rn, rec, args, site, line):
                if rn.endswith("is_null"):
                    return [(st, K(null))]
                if rn.endswith("capi::decode_slice"):
                    st.auto = tuple(st.auto or ()) + ("decode",)
                    if got == "short":
                        return [(st, tup(sym("NEED"), NONE))]
                    return [(st, tup(K(0), some(sym("BUF"))))]
                if rn.endswith("::from_slice") and "PlaneRegion" not in rn:
                    st.auto = tuple(st.auto or ()) + (show(args[0]),)
                    return [(st, ok(sym("SUM")) if got == "good" else
                             err(sym("E")))]
            outs, a = run_cell(c, f, {}, args=A, root=A[0].a[0], ctx=ctx,
                               call=call)
            key = "summary:%s" % ("null" if null else got)
            ctx.ob(bool(outs), key, "never returns", f.loc())
            for o in outs:
                w = changed(o, A[0].a[0])
                v = load(o.st, A[0].a[0], "cfg.rate_control.summary")
                if null:
                    ok_ = o.ret is K(0) and v is NONE and not o.st.auto
                elif got == "short":
                    ok_ = o.ret is sym("NEED") and not w
                elif got == "bad":
                    ok_ = o.ret is K(-1) and not w
                else:
                    ok_ = o.ret is K(0) and v is some(sym("SUM")) and \
                        w == {".cfg.rate_control.summary"} and \
                        o.st.auto == ("decode", "BUF")
                ctx.ob(ok_, key, "returns %s, leaves %s, writes %s" % (
                    show(o.ret)[:30], show(v)[:40], sorted(w)), f.loc())


def planes(ctx):
    """Pixels go to and come from the plane asked for; padded when sent."""
    c = ctx.lib
    for cf, m in (("rav1e_frame_fill_plane", "Plane::copy_from_raw_u8"),
                  ("rav1e_frame_extract_plane", "Plane::copy_to_raw_u8")):
        f = F(ctx, cf)
        A = argsyms(f)
        for kf in ("U8", "U16"):
            for pl in (0, 1, 2):
                def call(a, st, n, rn, rec, args, site, line):
                    if "from_raw_parts" in rn:
                        return [(st, cl("slice", *args))]
                    if rn.endswith("Arc::get_mut"):
                        return [(st, some(args[0]))]
                    if rn.endswith(m):
                        st.auto = tuple(st.auto or ()) + (tuple(
                            show(a.value_of(st, x)) if i == 1 else
                            show(x) for i, x in enumerate(args)),)
                        return [(st, UNIT)]
                outs, a = run_cell(c, f, {"fi": agg(
                    "adt", "capi::FrameInternal", kf, (".0",),
                    (sym("arc"),))}, args=[A[0], K(pl)] + A[2:],
                    root=A[0].a[0], ctx=ctx, call=call)
                key = "plane:%s:%s:%d" % (cf, kf, pl)
                ctx.ob(bool(outs), key, "never returns", f.loc())
                for o in outs:
                    ev = o.st.auto or ()
                    ok_ = len(ev) == 1
                    if ok_:
                        e = ev[0]
                        ok_ = ("planes[%d]" % pl) in e[0] and \
                            ("slice(%s,%s)" % (A[2].a[0], A[3].a[0])) in e[1]\
                            and A[4].a[0] in e[2] and A[5].a[0] in e[3]
                    ctx.ob(ok_, key, "copies %s" % (ev,), f.loc())


def is_buf(v):
    return v is not None and re.match(r"BUF(\.0)*$", show(v)) is not None


def slices(ctx):
    """decode_slice: never reads past the buffer, consumes what it returns."""
    c = ctx.lib
    f = F(ctx, "decode_slice")
    for ln, n in ((0, 0), (7, 0), (8, 0), (8, 1), (9, 1), (9, 0), (20, 12),
                  (20, 13), (20, 4), (100, 92), (100, 93),
                  (100, 1 << 31), (100, (1 << 31) - 9), (100, (1 << 31) - 8),
                  (100, (1 << 64) - 1), (100, (1 << 64) - 8),
                  (100, (1 << 64) - 9), (100, 1 << 32)):
        def call(a, st, nm, rn, rec, args, site, line):
            if rn.endswith("from_raw_parts"):
                st.auto = tuple(st.auto or ()) + (("raw", args[1]),)
                return [(st, cl("bytes"))]
            if nm.endswith("split_at"):
                ctx.ob(args[1] is K(8), "slice-prefix", "the prefix is %s "
                       "bytes" % show(args[1])[:20], f.loc())
                return [(st, tup(cl("head"), cl("rest")))]
            if nm.endswith("try_into") and args[0].k == "call" and \
                    args[0].a[0] == "head":
                return [(st, ok(args[0]))]
            if rn.endswith("from_be_bytes"):
                return [(st, K(n))]
            if rn.endswith("from_le_bytes") or rn.endswith("from_ne_bytes"):
                return [(st, sym("wrong_endian"))]
            if nm.endswith("::len") and show(args[0]).startswith("rest"):
                return [(st, K(ln - 8))]
            if rn.endswith("::len"):
                v = a.value_of(st, args[0])
                if v.k == "call" and v.a[0] == "rest":
                    return [(st, K(ln - 8))]
            if rn.endswith("::offset") or rn.endswith("::add"):
                return [(st, cl("offset", *args))]
            if nm.endswith("Index::index") or nm.endswith("index"):
                return [(st, cl("sub", *[a.value_of(st, x)
                                                 for x in args]))]
        key = "slice:%d:%d" % (ln, n)
        A = argsyms(f)
        outs, a = slice_run(c, f, A, ln, call, ctx)
        ctx.ob(bool(outs), key, "never returns (or always panics) with %d "
               "bytes announcing %d" % (ln, n), f.loc())
        fits = ln >= 8 and n <= ln - 8
        for o in outs:
            r = o.ret
            need, buf = (r.a[4] if r.k == "agg" else (r, r))
            for kind, x in (o.st.auto or ()):
                ctx.ob(x is K(ln), key + ":bound", "a slice of %s bytes is "
                       "made of a buffer of %d" % (show(x)[:20], ln),
                       f.loc())
            left = o.st.load((("X", A[1]), ()))
            if left is A[1] or left.k == "sym":
                left = K(ln)
            pos = o.st.store.get(("X", A[0]))
            if fits:
                ctx.ob(need is K(0) and variant(buf)[0] == "Some", key,
                       "a complete buffer returns " + show(r)[:60], f.loc())
                ctx.ob(left is K(ln - 8 - n), key + ":left", "%s bytes are "
                       "left of %d after %d" % (show(left)[:20], ln, n + 8),
                       f.loc())
                t = show(pos) if pos is not None else ""
                ctx.ob("offset" in t and str(n + 8) in t, key + ":advance",
                       "the pointer moves to " + t[:80], f.loc())
                b = variant(buf)[1]
                bt = show(b) if b is not None else ""
                ctx.ob("rest" in bt and str(n) in bt, key + ":data",
                       "the data returned is " + bt[:80], f.loc())
            else:
                want = 8 if ln < 8 else n + 8 if n + 8 < 1 << 31 else -1
                ctx.ob(need is K(want) and buf is NONE, key,
                       "%d bytes announcing %d return %s instead of %d" % (
                           ln, n, show(need)[:20], want), f.loc())
                ctx.ob(left is K(ln) and (pos is None or pos.k == "sym"),
                       key + ":untouched", "an incomplete buffer is consumed",
                       f.loc())


def slice_run(c, f, A, ln, call, ctx):
    from sa.ae import AE
    pol = CellPolicy(None, None, call)
    a = AE(c, pol)
    st = a.start(f, list(A))
    st.put((("X", A[1]), ()), K(ln))
    outs = a.run(st)
    ctx.saw(*a.fns_seen)
    return [o for o in outs if o.kind == "ret"], a


def forwards(ctx):
    """Plain queries return what the encoder returns."""
    c = ctx.lib
    E = "capi::EncContext"
    for cf, inner, adj in (
            ("rav1e_rc_summary_size", "rc_summary_size", 8),
            ("rav1e_rc_second_pass_data_required",
             "rc_second_pass_data_required", 0),
            ("rav1e_twopass_bytes_needed", "twopass_bytes_needed", 0)):
        f = F(ctx, cf)
        A = argsyms(f)
        for kc in ("U8", "U16"):
            for val in (0, 1, 68, 1000):
                def call(a, st, n, rn, rec, args, site, line):
                    if rn.endswith("context::Context::" + inner):
                        return [(st, K(val))]
                outs, a = run_cell(c, f, {"ctx:ctx": agg(
                    "adt", E, kc, (".0",), (sym("inner"),))}, args=A,
                    root="ctx", ctx=ctx, call=call)
                ctx.ob(outs and all(o.ret is K(val + adj) for o in outs),
                       "forward:%s:%s" % (cf, kc), "%s answers %s when the "
                       "encoder says %d" % (cf, [show(o.ret)[:20]
                                                 for o in outs], val),
                       f.loc())
    f = F(ctx, "rav1e_last_status")
    A = argsyms(f)
    apin = c.adt(API)["adt"]
    for n in STATUS + [None]:
        v = NONE if n is None else some(agg("adt", apin, n, (), ()))
        outs, a = run_cell(c, f, {"last_err": v}, args=A, root=A[0].a[0],
                           ctx=ctx)
        ctx.ob(outs and all(ret_status(o.ret) == (n or "Success")
                            for o in outs), "last-status:%s" % n,
               "the last status %s is reported as %s" % (
                   n, [show(o.ret)[:40] for o in outs]), f.loc())


def release(ctx):
    """Every buffer handed out is released with the length it has."""
    c = ctx.lib

    def ident(a, st, n, rn, rec, args, site, line):
        if rn.endswith("into_boxed_slice") or rn.endswith("Box::new") or \
                rn.endswith("Box::into_raw") or rn.endswith("to_vec"):
            return [(st, a.value_of(st, args[0]))]
        if n.endswith("::len"):
            return [(st, cl("len", a.value_of(st, args[0])))]
        if n.endswith("Deref::deref"):
            return [(st, a.value_of(st, args[0]))]
    E = "capi::EncContext"
    for cf, inner in (("rav1e_container_sequence_header",
                       "container_sequence_header"),
                      ("rav1e_twopass_out", "twopass_out")):
        f = F(ctx, cf)
        A = argsyms(f)
        for kc in ("U8", "U16"):
            for has in ((1,) if inner.startswith("cont") else (0, 1)):
                def call(a, st, n, rn, rec, args, site, line):
                    if rn.endswith("context::Context::" + inner):
                        return [(st, sym("BUF") if inner.startswith("cont")
                                 else some(sym("BUF")) if has else NONE)]
                    return ident(a, st, n, rn, rec, args, site, line)
                outs, a = run_cell(c, f, {"ctx:ctx": agg(
                    "adt", E, kc, (".0",), (sym("inner"),))}, args=A,
                    root="ctx", ctx=ctx, call=call)
                key = "data:%s:%s:%d" % (cf, kc, has)
                ctx.ob(bool(outs), key, "never returns", f.loc())
                for o in outs:
                    if not has:
                        ctx.ob("null" in show(o.ret) or o.ret is K(0), key,
                               "no data is handed out as " +
                               show(o.ret)[:60], f.loc())
                        continue
                    r = o.ret
                    if r.k != "agg":
                        r = o.st.load((("X", r), ()))
                    fl = fields(r)
                    ln = peel(fl.get("len"))
                    ctx.ob(is_buf(peel(fl.get("data"))) and
                           ln is not None and ln.k == "call" and
                           is_buf(ln.a[1][0]), key, "the data handed out "
                           "is " + show(r)[:100], f.loc())
    # the releases
    for cf, root, kids in (("rav1e_data_unref", "data", ()),
                           ("rav1e_packet_unref", "pkt", ("rec", "source"))):
        f = F(ctx, cf)
        A = argsyms(f)
        for null in (0, 1):
            def call(a, st, n, rn, rec, args, site, line):
                if rn.endswith("is_null"):
                    if args[0] is A[0]:
                        return [(st, K(null))]
                    return None
                if rn.endswith("Box::from_raw"):
                    st.auto = tuple(st.auto or ()) + (("box", args[0]),)
                    return [(st, args[0])]
                if rn.endswith("from_raw_parts"):
                    st.auto = tuple(st.auto or ()) + (("vec",) + tuple(
                        peel(x) for x in args),)
                    return [(st, sym("V"))]
                if rn.endswith("rav1e_frame_unref"):
                    st.auto = tuple(st.auto or ()) + (("frame", args[0]),)
                    return [(st, UNIT)]
            outs, a = run_cell(c, f, {}, args=A, root=root, ctx=ctx,
                               call=call)
            key = "release:%s:%d" % (cf, null)
            ctx.ob(bool(outs), key, "never returns", f.loc())
            for o in outs:
                ev = o.st.auto or ()
                if null:
                    ctx.ob(not ev, key, "a null pointer is released", f.loc())
                    continue
                nm = A[0].a[0]
                vec = [e for e in ev if e[0] == "vec"]
                ctx.ob(len(vec) == 1 and all(
                    show(x).endswith(s) for x, s in zip(
                        vec[0][1:], (".data", ".len", ".len"))), key,
                    "the buffer is released as %s" % [
                        [show(y)[:40] for y in e[1:]] for e in vec], f.loc())
                ctx.ob(len([e for e in ev if e[0] == "box" and e[1] is A[0]])
                       == 1, key + ":box", "the object itself is released "
                       "%d times" % len([e for e in ev if e[0] == "box"]),
                       f.loc())
                fr = sorted(show(e[1]).split(".")[-1] for e in ev
                            if e[0] == "frame")
                ctx.ob(fr == sorted(kids), key + ":frames", "frames released:"
                       " %s" % fr, f.loc())
    for cf in ("rav1e_config_unref", "rav1e_context_unref",
               "rav1e_frame_unref"):
        f = F(ctx, cf)
        A = argsyms(f)
        for null in (0, 1):
            def call(a, st, n, rn, rec, args, site, line):
                if rn.endswith("is_null"):
                    return [(st, K(null))]
                if rn.endswith("Box::from_raw"):
                    st.auto = (st.auto or 0) + (1 if args[0] is A[0] else 9)
                    return [(st, args[0])]
            outs, a = run_cell(c, f, {}, args=A, root="x", ctx=ctx, call=call)
            for o in outs:
                ctx.ob((o.st.auto or 0) == 1 - null, "release:%s:%d" % (
                    cf, null), "%s of a %s pointer releases %s objects" % (
                    cf, "null" if null else "valid", o.st.auto or 0),
                    f.loc())
            ctx.ob(bool(outs), "release:" + cf, "never returns", f.loc())


def exported(ctx):
    c = ctx.lib
    n = 0
    for f in c.fns.values():
        m = re.match(r"capi::(rav1e_[a-z0-9_]+)$", f.nname)
        if m and not m[1].endswith("_internal"):
            n += 1
    ctx.floor("exported functions", n, 37)

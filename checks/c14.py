"""C14: quantizers and filter parameters stay in their coded range."""
from sa.val import *
from sa.gate import *
from sa.ae import State
from sa import ae as _ae
from sa.tev import atoms, compiled, fn_of
from sa.query import field_writes, field_borrows

RULE = """Abstract interpretation of the code that chooses quantizers, cdef
strengths, loop filter levels and segment quantizers; the resulting closed
terms are evaluated over every value of their opaque inputs (the chosen table
index, a rounded float) and must stay in the range the header can carry."""
ASSUME = ["logarithm, exponential and float arithmetic return any value"]
S, FI, FS, Q = sym("self"), sym("fi"), sym("fs"), sym("q")
CS = "v_frame::pixel::ChromaSampling"


def run(ctx):
    qparams(ctx)
    setq(ctx)
    cdef_init(ctx)
    deblock(ctx)
    segments(ctx)
    lookup(ctx)
    index(ctx)
    owners(ctx)


OPAQUE = ("bexp64", "blog64", "exp", "sqrt", "chroma_offset")


def hook(a, st, name, rname, rec, args, site, line):
    n = (rname or name or "").rsplit("::", 1)[-1]
    if n in OPAQUE + ("select_ac_qi", "select_dc_qi"):
        return [(st, op(n, *args))]
    return None


def at(v, i):
    return proj(v, ("i", K(i)))


def qparams(ctx):
    """base_q_idx in 1..255, everything else within 63 of it."""
    c = ctx.lib
    f = ctx.fn("QuantizerParameters::new_from_log_q")
    for bd in (8, 10, 12):
        for cs in ("Cs400", "Cs420", "Cs422", "Cs444"):
            for intra in (0, 1):
                outs, a = run_cell(
                    c, f, {}, rel=None, call=hook, ctx=ctx,
                    args=[sym("lb"), sym("lt"), K(bd),
                          agg("adt", CS, cs, (), ()), K(intra), sym("ls")])
                ctx.ob(bool(outs), "qp-path", "no path", f.loc())
                for o in outs:
                    qp(ctx, f, o, "%d bit %s" % (bd, cs), cs, bd)


def lim(v):
    """Opaque u8 table indices."""
    return v.k == "op" and str(v.a[0]).startswith("select_")


MEMO = {}


def qp(ctx, f, o, what, cs, bd):
    ac = [at(proj(o.ret, ".ac_qi"), i) for i in range(3)]
    dc = [at(proj(o.ret, ".dc_qi"), i) for i in range(3)]
    for n in ("log_base_q", "log_target_q"):
        v = show(proj(o.ret, "." + n))
        ctx.ob(v == {"log_base_q": "lb", "log_target_q": "lt"}[n],
               "qp-log", "%s is %s" % (n, v[:60]), f.loc())
    base = ac[0]
    ba = atoms(base, lim)
    if len(ba) > 1:
        ctx.violate("qp-base", "base quantizer depends on %s" %
                    [show(x)[:40] for x in ba], f.loc())
        return
    for pl in range(3):
        for nm, v in (("ac", ac[pl]), ("dc", dc[pl])):
            if pl and cs == "Cs400":
                continue
            xs = [x for x in atoms(v, lim) if x not in ba]
            if len(xs) > 1 or any(not lim(x) for x in ba + xs):
                ctx.violate("qp-term", "%s quantizer of plane %d (%s) is %s" %
                            (nm, pl, what, [show(x)[:200] for x in ba+xs]), f.loc())
                continue
            sel = [x for x in xs] or ba
            ctx.ob(all(x.a[0] == "select_%s_qi" % nm and x.a[1][1] is K(bd)
                       for x in (xs if (nm, pl) != ("ac", 0) else ba)),
                   "qp-table", "%s quantizer of plane %d (%s) comes from %s" %
                   (nm, pl, what, [show(x)[:40] for x in sel]), f.loc())
            fb, fv = compiled(base, ba), compiled(v, ba + xs)
            key = (canon(base, ba), canon(v, ba + xs))
            if key not in MEMO:
                MEMO[key] = sweep(fb, fv, len(xs))
            bad = MEMO[key]
            ctx.ob(bad is None, "qp-range", "%s quantizer of plane %d (%s) "
                   "can be %s" % (nm, pl, what, bad), f.loc())
            ctx.count("evaluated_points", 65536 if xs else 256)


def canon(v, xs):
    s = show(v)
    for i, x in enumerate(xs):
        s = s.replace(show(x), "@%d" % i)
    return s


def sweep(fb, fv, n):
    for x in range(256):
        b = fb(x)
        if not 1 <= b <= 255:
            return "base %d" % b
        for y in range(256) if n else (0,):
            v = fv(x, y) if n else fv(x)
            if not 0 <= v <= 255 or abs(v - b) > 63 or v < 1:
                return "%d with base %d" % (v, b)
    return None


def setq(ctx):
    c = ctx.lib
    f = ctx.fn("FrameInvariants::set_quantizers")
    outs, a = run_cell(c, f, {}, rel=None, call=hook, ctx=ctx, args=[S, Q])
    ctx.ob(bool(outs), "set-path", "set_quantizers never returns", f.loc())
    base = State().load((("X", Q), (".ac_qi", ("i", K(0)))))

    def get(o, *p):
        return o.st.load((("X", S), p))
    for o in outs:
        ctx.ob(get(o, ".base_q_idx") is base, "set-base", "base_q_idx becomes "
               "%s" % show(get(o, ".base_q_idx"))[:60], f.loc())
        for nm in ("ac", "dc"):
            for pl in range(3):
                src = State().load((("X", Q), (".%s_qi" % nm, ("i", K(pl)))))
                v = get(o, ".%s_delta_q" % nm, ("i", K(pl)))
                delta(ctx, f, nm, pl, v, src, base)
        v = get(o, ".cdef_damping")
        rng(ctx, f, "set-damping", "cdef damping", v, 3, 6, 8)
        for p in ("y", "uv"):
            v = get(o, ".cdef_%s_strengths" % p, ("i", K(0)))
            rng(ctx, f, "set-strength:" + p, "cdef strength", v, 0, 63, 32)
            for i in range(1, 8):
                v = get(o, ".cdef_%s_strengths" % p, ("i", K(i)))
                ctx.ob(show(v) == "self.cdef_%s_strengths[%d]" % (p, i),
                       "set-strength:" + p, "cdef strength %d is changed" % i,
                       f.loc())
        v = get(o, ".cdef_bits")
        ctx.ob(show(v) == "self.cdef_bits", "set-cdefbits", "cdef_bits becomes "
               "%s" % show(v)[:40], f.loc())


def delta(ctx, f, nm, pl, v, src, base):
    if src is base:
        xs = [base]
    else:
        xs = [src, base]
    if any(x not in xs for x in atoms(v)):
        ctx.violate("set-delta", "%s delta of plane %d is %s" %
                    (nm, pl, show(v)[:100]), f.loc())
        return
    g = compiled(v, xs)
    bad = None
    for b in range(1, 256):
        for d in range(-63, 64) if len(xs) > 1 else (0,):
            if not 1 <= b + d <= 255:
                continue
            r = g(b + d, b) if len(xs) > 1 else g(b)
            if r != d:
                bad = "%d for index %d, base %d" % (r, b + d, b)
    ctx.ob(bad is None, "set-delta", "%s delta of plane %d is %s" %
           (nm, pl, bad), f.loc())
    ctx.count("evaluated_points", 255 * 127)


INTS = [0, 1, 2, 3, 4, 5, 14, 15, 16, 17, 62, 63, 64, 127, 255, 256, 1000,
        2 ** 31 - 1, -1, -2, -5, -16, -1000, -2 ** 31]


def rng(ctx, f, key, what, v, lo, hi, bits):
    """v stays in lo..hi for every value of its atoms."""
    xs = atoms(v)
    dom = range(256) if bits == 8 else INTS
    if len(xs) > 2:
        ctx.violate(key, "%s is %s" % (what, show(v)[:120]), f.loc())
        return
    g = compiled(v, xs)
    bad = None
    import itertools
    for p in itertools.product(dom, repeat=len(xs)):
        r = g(*p)
        if not lo <= r <= hi:
            bad = r
    ctx.ob(bad is None, key, "%s can be %s" % (what, bad), f.loc())
    ctx.count("evaluated_points", len(dom) ** len(xs))


def cdef_init(ctx):
    """The constant cdef tables of a new frame, and who writes them."""
    c = ctx.lib
    n = 0
    for fl, hi in (("cdef_y_strengths", 63), ("cdef_uv_strengths", 63),
                   ("cdef_damping", 6), ("cdef_bits", 3)):
        for g, line, rv in field_writes(c, "FrameInvariants", fl):
            last = g.nname.rsplit("::", 1)[-1]
            if last in ("clone", "clone_without_coded_data"):
                continue
            n += 1
            ctx.ob("FrameInvariants" in g.nname, "cdef-own:" + fl,
                   "%s writes %s" % (g.nname, fl), g.loc())
    f = ctx.fn("FrameInvariants::new")
    outs, a = run_cell(c, f, {}, rel=set(), ctx=ctx, call=hook,
                       args=[sym("cfg"), sym("seq")])
    ctx.ob(bool(outs), "new-path", "FrameInvariants::new never returns",
           f.loc())
    for o in outs:
        for p in ("y", "uv"):
            for i in range(8):
                v = at(proj(o.ret, ".cdef_%s_strengths" % p), i)
                ctx.ob(isk(v) and 0 <= v.a[0] <= 63, "new-cdef", "initial "
                       "cdef strength is %s" % show(v)[:60], f.loc())
        v = proj(o.ret, ".cdef_damping")
        ctx.ob(isk(v) and 3 <= v.a[0] <= 6, "new-damping", "initial damping "
               "is %s" % show(v)[:60], f.loc())
        v = proj(o.ret, ".cdef_bits")
        ctx.ob(isk(v) and 0 <= v.a[0] <= 3, "new-bits", "initial cdef_bits "
               "is %s" % show(v)[:60], f.loc())


def deblock(ctx):
    """The level estimated from the quantizer."""
    c = ctx.lib
    f = ctx.fn("deblock_filter_optimize")

    def h(a, st, name, rname, rec, args, site, line):
        n = (rname or name or "").rsplit("::", 1)[-1]
        if n == "ac_q":
            return [(st, sym("QQ"))]
        if n == "sse_optimize":
            return [(st, sym("SSE"))]
        if n == "get" and args and show(args[0]) == "QQ":
            return [(st, sym("QQ"))]
        return None
    FT = "frame::FrameType"
    n = 0
    for bd in (8, 10, 12):
        for key in (0, 1):
            outs, a = run_cell(
                c, f, {"fi:sequence.bit_depth": K(bd),
                       "fi:config.speed_settings.fast_deblock": K(1)},
                rel=None, call=h, ctx=ctx,
                args=[FI] + [sym(x) for x in ("rec", "inp", "bl", "w", "h")])
            for o in outs:
                for i in range(4):
                    v = at(o.ret, i)
                    xs = atoms(v)
                    if "SSE" in show(v):
                        continue
                    if len(xs) > 1:
                        ctx.violate("level", "level %d is %s" %
                                    (i, show(v)[:100]), f.loc())
                        continue
                    g = compiled(v, xs)
                    bad = [x for x in range(4, 29248)
                           if not 0 <= g(*[x] * len(xs)) <= 63]
                    n += 1
                    ctx.ob(not bad, "level", "loop filter level %d is %s for "
                           "quantizer %s" % (i, bad and g(bad[0]), bad[:1]),
                           f.loc())
                    ctx.count("evaluated_points", 29244)
    ctx.ob(n > 0, "level-path", "no path estimates a level", f.loc())


class SegPolicy(CellPolicy):
    def __init__(self, *a):
        super().__init__(*a)
        self.stores = []

    def write(self, ae, st, lv, val, fn, line):
        if ".data" in lv[1] and ".segmentation" in lv[1] or \
                "segmentation" in show(lv[0][1]) and ".data" in lv[1] \
                if isinstance(lv[0][1], V) else False:
            self.stores.append((lv, val, fn, line))
        return super().write(ae, st, lv, val, fn, line)


def segments(ctx):
    """Every segment quantizer written keeps base + delta in 1..255."""
    c = ctx.lib
    f = ctx.fn("segmentation_optimize")

    def h(a, st, name, rname, rec, args, site, line):
        n = (rname or name or "").rsplit("::", 1)[-1]
        if n == "update_threshold":
            return [(st, UNIT)]
        if n in ("kmeans", "blog16"):
            return [(st, sym(n))]
        return hook(a, st, name, rname, rec, args, site, line)
    got = 0
    for b in (1, 2, 64, 128, 254, 255):
        pol = SegPolicy(set(), None, h)
        a = _ae.AE(c, pol)
        st = a.start(f, [FI, FS])
        st.put((("X", FI), (".base_q_idx",)), K(b))
        st.put((("X", FI), (".primary_ref_frame",)), K(7))
        a.run(st)
        ctx.saw(*a.fns_seen)
        ctx.count("cells")
        for lv, v, g, line in pol.stores:
            if v.k in ("hv", "st", "sym"):
                continue
            got += 1
            xs = atoms(v, lim)
            if len(xs) > 1 and not all(lim(x) for x in xs):
                ctx.violate("seg-delta", "a segment's quantizer offset is %s" %
                            show(v)[:120], g.loc(line))
                continue
            gg = compiled(v, xs)
            bad = None
            dom = range(256) if all(lim(x) for x in xs) else \
                range(-32768, 32768)
            for x in dom:
                r = gg(*[x] * len(xs))
                if b + r < 1:
                    bad = r
            ctx.ob(bad is None, "seg-delta", "a segment's quantizer offset "
                   "can be %s with base %d" % (bad, b), g.loc(line))
            ctx.count("evaluated_points", len(dom))
    ctx.count("segment_stores", got)
    ctx.ob(got >= 6, "seg-found", "no segment quantizer is written", f.loc())


def lookup(ctx):
    """The effective quantizer index is the spec's get_qidx."""
    c = ctx.lib
    for fn in [x for x in c.fns.values() if x.nname.endswith("::get_qidx")]:
        outs, a = run_cell(c, fn, {}, rel=None, ctx=ctx, args=[
            FI, sym("ts"), sym("cw"), sym("bo")])
        seen = set()
        for o in outs:
            s = show(o.ret)
            on = [x for v, x in o.st.facts.items()
                  if "segmentation" in show(v) and "features" in show(v)]
            if s == "fi.base_q_idx":
                seen.add(0)
                ctx.ob(bool(on) and f_has(on[0], 0), "qidx", "an active "
                       "segment offset is ignored", fn.loc())
                continue
            seen.add(1)
            ctx.ob(bool(on) and not f_has(on[0], 0), "qidx", "an inactive "
                   "segment offset is used", fn.loc())
            xs = sorted(atoms(o.ret), key=lambda v: show(v) != "fi.base_q_idx")
            if len(xs) != 2 or show(xs[0]) != "fi.base_q_idx" or \
                    ".data" not in show(xs[1]):
                ctx.violate("qidx", "the quantizer index is %s" % s[:120],
                            fn.loc())
                continue
            g = compiled(o.ret, xs)
            bad = None
            for b in range(1, 256):
                for d in range(-255, 256):
                    if g(b, d) != max(0, min(255, b + d)):
                        bad = (b, d)
            ctx.ob(bad is None, "qidx", "the quantizer index for base, offset "
                   "%s is wrong" % (bad,), fn.loc())
            ctx.count("evaluated_points", 255 * 511)
        ctx.ob(seen == {0, 1}, "qidx-paths", "cases seen: %s" % seen, fn.loc())


def index(ctx):
    """dc_q/ac_q index clamp and table by bit depth."""
    c = ctx.lib
    for nm in ("dc_q", "ac_q"):
        f = ctx.fn("quantize::" + nm)
        for bd in (8, 10, 12):
            outs, a = run_cell(c, f, {}, rel=None, ctx=ctx, args=[
                sym("qi"), sym("dq"), K(bd)])
            for o in outs:
                v = o.ret
                s = show(v)
                t = "%s_qlookup_%s" % (nm[:2], "Q3" if bd == 8 else
                                       "%d_Q3" % bd)
                ctx.ob(t + "[" in s or t in s, "table", "%s for %d bit reads "
                       "%s" % (nm, bd, s[:80]), f.loc())
                ix = [x for x in subterms(v) if x.k == "op" and
                      set(map(show, atoms(x))) == {"qi", "dq"}]
                big = max(ix, key=lambda x: len(show(x)), default=None)
                if big is None:
                    ctx.violate("table-index", "%s reads %s" % (nm, s[:100]),
                                f.loc())
                    continue
                g = compiled(big, [sym("qi"), sym("dq")])
                bad = None
                for q in range(256):
                    for d in range(-128, 128):
                        if g(q, d) != max(0, min(255, q + d)):
                            bad = (q, d)
                ctx.ob(bad is None, "table-index", "%s index of %s is wrong" %
                       (nm, bad), f.loc())
                ctx.count("evaluated_points", 65536)


def owners(ctx):
    c = ctx.lib
    ok = {"base_q_idx": ("FrameInvariants",), "dc_delta_q":
          ("FrameInvariants",), "ac_delta_q": ("FrameInvariants",)}
    for fl, who in ok.items():
        for g, line, rv in field_writes(c, "FrameInvariants", fl):
            ctx.ob(any(w in g.nname for w in who), "own:" + fl,
                   "%s writes %s" % (g.nname, fl), g.loc())
            ctx.count("writes")
    for g, line, rv in field_writes(c, "DeblockState", "sharpness"):
        ctx.count("writes")
        ctx.ob(rv[0] == "use" and "DeblockState" in g.nname, "own:sharpness",
               "%s writes the sharpness" % g.nname, g.loc())

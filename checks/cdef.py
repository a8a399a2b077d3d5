"""The CDEF part of C25."""
import random
from sa.val import *
from sa.gate import *
from sa.prog import norm
from sa import cterm
from sa import ae as _ae
from checks.c18 import arr, last
from checks.c19 import fnamed
from checks.c21 import en, params, bo_xy, place
from checks.c22 import bsz, deref_k

LARGE = 0x8000
UVDIR = [7, 0, 2, 4, 5, 6, 6, 6]
DIRS = [((-1, 1), (-2, 2)), ((0, 1), (-1, 2)), ((0, 1), (0, 2)),
        ((0, 1), (1, 2)), ((1, 1), (2, 2)), ((1, 0), (2, 1)),
        ((1, 0), (2, 0)), ((1, 0), (2, -1))]


def log2(n):
    return n.bit_length() - 1


def strengths(y, uv, damping, bd, var, d, p, ss):
    """(primary, secondary, direction, damping) of a plane of an 8x8 block."""
    s = bd - 8
    k = y if p == 0 else uv
    pri, sec = k // 4, k % 4
    sec += sec == 3
    pri, sec = pri << s, sec << s
    if p == 0:
        dr = d if pri else 0
        v = min(log2(var >> 6), 12) if var >> 6 else 0
        pri = (pri * (4 + v) + 8) >> 4 if var else 0
        return pri, sec, dr, damping + s
    dr = (UVDIR[d] if ss == (1, 0) else d) if pri else 0
    return pri, sec, dr, damping + s - 1


def whole(c, n, d):
    ad = c.adt(n)
    fs = [x[0] for x in ad["variants"][0][2]]
    return agg("adt", ad["adt"], None, tuple("." + x for x in fs), tuple(
        d.get(x, sym(last(n) + "." + x)) for x in fs))


def plane_no(v):
    if v.k != "ref":
        return None
    for e in reversed(v.a[1]):
        if isinstance(e, tuple) and e[0] == "i" and isk(e[1]):
            return e[1].a[0]
    return None


def xy(st, v):
    v = deref_k(st, v)
    if v.k != "agg":
        return None
    d = dict(zip(v.a[3], v.a[4]))
    x, y = d.get(".x"), d.get(".y")
    return (x.a[0], y.a[0]) if x is not None and y is not None and isk(x) \
        and isk(y) else None


def number(v):
    if isk(v):
        return v.a[0]
    try:
        return eval(cterm.expr(v, {}), dict(cterm.ENV))
    except cterm.Opaque:
        return None


def stepping(st, m, x):
    """Ranges of constants, stepped."""
    if m == "step_by" and len(x) == 2 and isk(x[1]) and x[0].k == "agg" and \
            x[0].a[1] in ("std::ops::Range", "std::ops::RangeInclusive") and \
            all(isk(v) for v in x[0].a[4][:2]):
        a, b = (v.a[0] for v in x[0].a[4][:2])
        vals = range(a, b + ("Inclusive" in x[0].a[1]), x[1].a[0])
        return [(st, agg("it", "list", None, (".pos", ".vals"), (
            K(0), arr([K(v) for v in vals]))))]
    if m == "into_iter" and len(x) == 1 and x[0].k == "agg" and \
            x[0].a[1] == "list":
        return [(st, x[0])]
    return None


def policy(hook, steps=200000):
    pol = CellPolicy(None, None, hook)
    pol.count_unroll = 80
    pol.max_unroll = 160
    pol.max_steps = steps
    pol.merge_on = False
    return pol


def run_superblock(ctx, seed):
    """One 64x64 block of a frame: what each 8x8 block of each plane gets."""
    c = ctx.lib
    rnd = random.Random(seed)
    f = fnamed(ctx, "cdef::cdef_filter_superblock")
    g = fnamed(ctx, "cdef::rust::cdef_filter_block")
    gp = params(g)
    W, H = rnd.choice([(8, 8), (16, 24), (72, 16), (24, 72), (40, 8),
                       (64, 24), (80, 80)])
    sb = rnd.choice([(x, y) for x in range((W + 63) // 64)
                     for y in range((H + 63) // 64)])
    cs, ss = rnd.choice([("Cs420", (1, 1)), ("Cs422", (1, 0)),
                         ("Cs444", (0, 0)), ("Cs400", (0, 0))])
    bd = rnd.choice([8, 10, 12])
    idx = rnd.randrange(8)
    ys = [rnd.choice([0, 1, 2, 3, 4, 7, 8, 23, 37, 62, 63]) for _ in range(8)]
    us = [rnd.choice([0, 1, 2, 3, 4, 7, 8, 23, 37, 62, 63]) for _ in range(8)]
    damping = rnd.choice([3, 4, 5, 6])
    cols, rows = (W + 3) // 4, (H + 3) // 4
    skip = {(x, y): int(rnd.random() < .8) for x in range(cols)
            for y in range(rows)}
    dirs = [[rnd.randrange(8) for _ in range(8)] for _ in range(8)]
    var = [[rnd.choice([0, 1, 63, 64, 127, 128, 300, 5000, 1 << 18, 1 << 19])
            for _ in range(8)] for _ in range(8)]

    def px(p, x, y):
        return sym("in%d_%d_%d" % (p, x, y))

    def sub(p):
        return ss if p else (0, 0)

    def hook(ae, st, n, rn, rec, x, site, line):
        q = norm(rec.get("rp") or rec["p"])
        m = last(norm(rn or n))
        if m == "cdef_filter_block" and len(x) == len(gp):
            d = dict(zip(gp, x))
            o, i = deref_k(st, d["dst"]), deref_k(st, d["input"])
            st.auto = st.auto + ((o, i) + tuple(
                number(d[k]) for k in (
                    "pri_strength", "sec_strength", "dir", "damping",
                    "bit_depth", "xdec", "ydec", "edges")),)
            return [(st, UNIT)]
        if m == "msb" and len(x) == 1 and isk(x[0]) and x[0].a[0] > 0:
            return [(st, K(log2(x[0].a[0])))]
        if m in ("cols", "rows") and "TileBlocks" in q:
            return [(st, K(cols if m == "cols" else rows))]
        if m in ("index", "index_mut") and "TileBlocks" in q:
            bo = bo_xy(x[1])
            if bo is None or bo not in skip:
                return None
            return [(st, mk("ref", ("C", whole(
                c, "context::block_unit::Block", {
                    "skip": K(skip[bo])})), (), 0))]
        if m == "slice" and len(x) == 2:
            p, at = plane_no(x[0]), xy(st, x[1])
            if p is None or at is None:
                return None
            root = ("T", "in", p, at)
            st.store[root] = arr([arr([px(p, at[0] + i, at[1] + j)
                                       for i in range(8)])
                                  for j in range(8)])
            return [(st, agg("region", "in", None, (".r",), (
                mk("ref", root, (), 0),)))]
        if m == "subregion_mut" and len(x) == 2:
            from checks.c25 import region_rect
            p = plane_no(x[0])
            at = None if p is None else region_rect(deref_k(st, x[1]),
                                                    sub(p))
            if at is None:
                return None
            root = ("T", "out", p, at)
            if root not in st.store:
                st.store[root] = arr([arr([sym("old")] * 8)] * 8)
            return [(st, agg("region", "out", None, (".r",), (
                mk("ref", root, (), 1),)))]
        if m in ("index", "index_mut") and x:
            v = deref_k(st, x[0])
            if v.k == "agg" and v.a[0] == "region" and isk(x[1]):
                r = v.a[4][0]
                return [(st, mk("ref", r.a[0], r.a[1] + (("i", x[1]),), 1))]
        if m in ("as_ptr", "as_const", "as_mut") and len(x) == 1:
            v = deref_k(st, x[0])
            if v.k == "agg" and v.a[0] == "region":
                return [(st, v)]
        return None
    ae = _ae.AE(c, policy(hook))
    tso = c.adt("TileSuperBlockOffset")
    so = c.adt("SuperBlockOffset")
    a = {"cdef_index": K(idx), "output": mk("ref", ("T", "tile"), (), 1),
         "input": mk("ref", ("T", "frame"), (), 0),
         "cdef_dirs": mk("ref", ("T", "dirs"), (), 0),
         "tile_sbo": agg("adt", tso["adt"], None, (".0",), (
             agg("adt", so["adt"], None, (".x", ".y"), (
                 K(sb[0]), K(sb[1]))),))}
    st = ae.start(f, [a.get(p, sym(p)) for p in params(f)], auto=())
    rect = [whole(c, "tiling::plane_region::Rect", {
        "x": K(0), "y": K(0), "width": K(W >> sub(p)[0]),
        "height": K(H >> sub(p)[1])}) for p in range(3)]
    cfg = [whole(c, "v_frame::plane::PlaneConfig", {
        "xdec": K(sub(p)[0]), "ydec": K(sub(p)[1]),
        "width": K(W >> sub(p)[0]), "height": K(H >> sub(p)[1]),
        "stride": K(256)}) for p in range(3)]
    st.store[("T", "frame")] = whole(c, "v_frame::frame::Frame", {
        "planes": arr([whole(c, "v_frame::plane::Plane", {"cfg": x})
                       for x in cfg])})
    st.store[("T", "tile")] = whole(c, "tiling::tile::TileMut", {
        "planes": arr([whole(c, "tiling::plane_region::PlaneRegionMut", {
            "rect": rect[p], "plane_cfg": mk("ref", ("C", cfg[p]), (), 0)})
            for p in range(3)])})
    st.store[("T", "dirs")] = whole(c, "cdef::CdefDirections", {
        "dir": arr([arr([K(v) for v in r]) for r in dirs]),
        "var": arr([arr([K(v) for v in r]) for r in var])})
    for k, v in (("sequence*.bit_depth", K(bd)),
                 ("sequence*.chroma_sampling", en(c, "ChromaSampling", cs)),
                 ("cdef_damping", K(damping)),
                 ("cdef_y_strengths", arr([K(v) for v in ys])),
                 ("cdef_uv_strengths", arr([K(v) for v in us]))):
        st.put(place("fi", k), v)
    outs = [o for o in ae.run(st) if o.kind == "ret"]
    ctx.saw(f, *ae.fns_seen)
    ctx.obls += 1
    if len(outs) != 1:
        ctx.count("CDEF blocks with more than one outcome")
        return
    o = outs[0]
    calls = {}
    for e in o.st.auto:
        try:
            k = e[0].a[4][0].a[0]
        except (AttributeError, IndexError):
            ctx.count("CDEF blocks whose place is not known")
            return
        calls.setdefault(k, []).append(e)
    planes = 1 if cs == "Cs400" else 3
    ctx.count("CDEF superblocks")

    def bad(key, m):
        ctx.violate(key, "CDEF of a frame of %dx%d (%s, %d bits), strengths "
                    "%d/%d, damping %d: %s" % (W, H, cs, bd, ys[idx],
                                               us[idx], damping, m), f.loc())
    for by in range(8):
        for bx in range(8):
            X, Y = sb[0] * 64 + bx * 8, sb[1] * 64 + by * 8
            if X >= W or Y >= H:
                continue
            sk = all(skip[(X // 4 + i, Y // 4 + j)] for i in (0, 1)
                     for j in (0, 1))
            for p in range(planes):
                s = sub(p)
                at = (X >> s[0], Y >> s[1])
                root = ("T", "out", p, at)
                got = calls.pop(root, [])
                what = "plane %d of the 8x8 block at (%d, %d)" % (p, X, Y)
                ctx.count("CDEF blocks of a plane")
                pri, sec, dr, dm = strengths(
                    ys[idx], us[idx], damping, bd, var[bx][by],
                    dirs[bx][by], p, s)
                edges = (X > 0) | (X + 8 < W) << 1 | (Y > 0) << 2 | \
                    (Y + 8 < H) << 3
                if sk or not got and not pri and not sec:
                    if got:
                        bad("skip", "%s is filtered though its blocks are "
                            "skipped" % what)
                    for j in range(8 >> s[1]):
                        for i in range(8 >> s[0]):
                            v = o.st.load((root, (("i", K(j)),
                                                  ("i", K(i)))))
                            if v is not px(p, at[0] + i, at[1] + j):
                                bad("copy", "%s: sample (%d, %d) is %s, not "
                                    "the unfiltered one" % (
                                        what, i, j, show(v)[:60]))
                    continue
                if len(got) != 1:
                    bad("calls", "%s is filtered %d times" % (
                        what, len(got)))
                    continue
                e = got[0]
                src = e[1].a[4][0].a[0] if e[1].k == "agg" else None
                have = dict(zip(("primary strength", "secondary strength",
                                 "direction", "damping", "bit depth",
                                 "xdec", "ydec", "edges"), e[2:]))
                want = dict(zip(have, (pri, sec, dr, dm, bd, s[0], s[1],
                                       edges)))
                if not pri and not sec:
                    for k in ("direction", "damping"):
                        have[k] = want[k]
                if src != ("T", "in", p, at):
                    bad("place", "%s reads %s" % (what, src))
                for k in have:
                    if have[k] is None:
                        ctx.count("CDEF parameters not known")
                    elif have[k] != want[k]:
                        bad(k, "%s has %s %s, AV1's is %s (direction %d, "
                            "variance %d)" % (what, k, have[k], want[k],
                                              dirs[bx][by], var[bx][by]))
    if calls:
        bad("calls", "blocks %s are filtered outside the frame" % (
            sorted(k[2:] for k in calls)[:3],))


# ------------------------------------------------------- the block filter
def constrain(d, t, damping):
    if not t:
        return 0
    s = max(0, damping - log2(t))
    v = min(max(t - (abs(d) >> s), 0), abs(d))
    return -v if d < 0 else v


def filtered(at, x, y, pri, sec, dr, damping, bd):
    """AV1's CDEF filter of a sample; `at` is None for unavailable ones."""
    p = at(x, y)
    tot, lo, hi = 0, p, p
    taps = ((4, 2), (3, 3))[(pri >> (bd - 8)) & 1]
    for k in (0, 1):
        for sg in (1, -1):
            for o, t, w in ((0, pri, taps[k]), (2, sec, 2 - k),
                            (-2, sec, 2 - k)):
                dy, dx = DIRS[(dr + o) & 7][k]
                v = at(x + sg * dx, y + sg * dy)
                if v is None:
                    continue
                tot += w * constrain(v - p, t, damping)
                lo, hi = min(lo, v), max(hi, v)
    return min(max(p + ((8 + tot - (tot < 0)) >> 4), lo), hi)


STRIDE = 64


def run_block(ctx, seed):
    """The filter of one block, every sample a symbol."""
    c = ctx.lib
    rnd = random.Random(seed)
    f = fnamed(ctx, "cdef::rust::cdef_filter_block")
    ss = [(1, 1), (1, 0), (0, 0)][seed % 3] if seed % 7 else (1, 1)
    dr = seed % 8
    bd = (8, 10, 12)[seed // 3 % 3]
    s = bd - 8
    edges = 15 if seed % 3 else rnd.randrange(15)
    pri = rnd.choice([0, 1, 2, 3, 4, 9, 15]) << s
    sec = rnd.choice([0, 1, 2, 4]) << s
    damping = rnd.randrange(2, 7) + s
    w, h = 8 >> ss[0], 8 >> ss[1]
    top = (256 << s) - 1
    pts = [(x, y) for y in range(-3, h + 3) for x in range(-3, w + 3)]
    px = {k: sym("s_%d_%d" % (k[0] + 8, k[1] + 8)) for k in pts}

    def ptr(b, o):
        return agg("pointer", "pointer", None, (".b", ".o"), (K(b), K(o)))

    def hook(ae, st, n, rn, rec, x, site, line):
        m = last(norm(rn or n))
        if m == "msb" and len(x) == 1 and isk(x[0]) and x[0].a[0] > 0:
            return [(st, K(log2(x[0].a[0])))]
        if m == "cdef_filter_block":
            st.auto = st.auto + (tuple(x),)
            return [(st, UNIT)]
        if m == "constrain" and len(x) == 3 and isk(x[1]) and isk(x[2]):
            return [(st, mk("call", "constrain", tuple(x)))]
        if m in ("as_ptr", "as_mut_ptr") and len(x) == 1 and \
                x[0].k == "ref":
            return [(st, ptr(2, 0))]
        if m in ("offset", "add", "sub", "wrapping_offset") and \
                len(x) == 2 and x[0].k == "agg" and x[0].a[0] == "pointer":
            if not isk(x[1]):
                return None
            b, o = x[0].a[4]
            d = x[1].a[0]
            return [(st, ptr(b.a[0], o.a[0] + (-d if m == "sub" else d)))]
        if m in ("index", "index_mut") and len(x) == 2 and isk(x[1]):
            v = deref_k(st, x[0])
            if v.k == "agg" and v.a[0] == "region":
                return [(st, mk("ref", ("T", "dst"), (("i", x[1]),), 1))]
        if m in ("as_", "cast_from") and len(x) == 1:
            return [(st, deref_k(st, x[0]))]
        return None
    ae = _ae.AE(c, policy(hook, 400000))
    a = {"dst": mk("ref", ("T", "reg"), (), 1), "input": ptr(1, 0),
         "istride": K(STRIDE), "pri_strength": K(pri),
         "sec_strength": K(sec), "dir": K(dr), "damping": K(damping),
         "bit_depth": K(bd), "xdec": K(ss[0]), "ydec": K(ss[1]),
         "edges": K(edges)}
    st = ae.start(f, [a.get(p, sym(p)) for p in params(f)], auto=())
    st.store[("T", "reg")] = agg("region", "region", None, (".r",), (K(0),))
    st.store[("T", "dst")] = arr([arr([sym("old")] * 8)] * 8)
    for (x, y), v in px.items():
        st.store[("X", ptr(1, y * STRIDE + x))] = v
        st.facts[v] = ("i", 0, top, frozenset())
    for o in range(144):
        st.store[("X", ptr(2, o))] = K(LARGE)
    outs = [o for o in ae.run(st) if o.kind == "ret"]
    if len(outs) == 1 and len(outs[0].st.auto) == 1:
        # the samples were gathered; the filter then runs on those
        s1 = outs[0].st
        st = ae.start(f, list(s1.auto[0]), auto=())
        for k, v in s1.store.items():
            if k[0] in ("X", "T"):
                st.store[k] = v
        for v in px.values():
            st.facts[v] = ("i", 0, top, frozenset())
        outs = [o for o in ae.run(st) if o.kind == "ret" and not o.st.auto]
    ctx.saw(f, *ae.fns_seen)
    ctx.obls += 1
    if len(outs) != 1:
        ctx.count("CDEF filters with more than one outcome")
        return
    o = outs[0]
    names = {v: "a[%d,%d]" % k for k, v in px.items()}
    env = dict(cterm.ENV, con=constrain)
    terms = {}
    try:
        for y in range(h):
            for x in range(w):
                v = o.st.load((("T", "dst"), (("i", K(y)), ("i", K(x)))))
                terms[(x, y)] = eval("lambda a: " + expr(v, names), env)
    except cterm.Opaque as e:
        ctx.sample("no closed form: %s" % e)
        ctx.count("CDEF filters without a closed form")
        return
    have = lambda x, y: (-2 if edges & 1 else 0) <= x < w + (
        2 if edges & 2 else 0) and (-2 if edges & 4 else 0) <= y < h + (
        2 if edges & 8 else 0)
    t = max(pri, sec, 1)
    for i in range(24):
        base = rnd.choice([0, top, top // 2, rnd.randrange(top + 1)])
        spread = rnd.choice([1, t, 2 * t, t << 2, top, 3 << s, 12 << s])
        a = {k: min(max(base + rnd.randint(-spread, spread), 0), top)
             for k in pts}
        for (x, y), g in terms.items():
            want = filtered(lambda u, v: a[(u, v)] if have(u, v) else None,
                            x, y, pri, sec, dr, damping, bd)
            ctx.count("CDEF samples compared")
            if g(a) != want:
                ctx.violate("filter", "CDEF of a %dx%d block, strengths %d "
                            "and %d, direction %d, damping %d, edges %d, %d "
                            "bits: sample (%d, %d) becomes %d, AV1's is %d" % (
                                w, h, pri, sec, dr, damping, edges, bd, x, y,
                                g(a), want), f.loc())
                return


def expr(v, names):
    """cterm.expr with the constrain function as a primitive."""
    sub = {}

    def walk(t):
        if t.k == "call" and t.a[0] == "constrain":
            if t not in sub:
                sub[t] = "con(%s,%s,%s)" % tuple(
                    cterm.expr(z, names) for z in t.a[1])
            return
        if t.k in ("op", "call"):
            for z in t.a[1]:
                walk(z)
        elif t.k == "cast":
            walk(t.a[1])
    walk(v)
    return cterm.expr(v, {**names, **sub})


def run_constrain(ctx):
    """constrain and adjust_strength as closed terms."""
    c = ctx.lib
    f = fnamed(ctx, "cdef::rust::constrain")

    def hook(ae, st, n, rn, rec, x, site, line):
        m = last(norm(rn or n))
        if m == "msb" and len(x) == 1 and isk(x[0]) and x[0].a[0] > 0:
            return [(st, K(log2(x[0].a[0])))]
        return None
    for t in (0, 1, 2, 3, 4, 7, 8, 15, 16, 64, 100, 240, 256, 1200):
        for damping in range(1, 11):
            ae = _ae.AE(c, policy(hook))
            d = sym("diff")
            st = ae.start(f, [d, K(t), K(damping)], auto=())
            outs = [o for o in ae.run(st) if o.kind == "ret"]
            ctx.saw(f, *ae.fns_seen)
            ctx.obls += 1
            try:
                names = {d: "d"}
                fs = []
                for o in outs:
                    cond = [cterm.fact(cterm.expr(k, names), r)
                            for k, r in o.st.facts.items()
                            if d in set(subterms(k))]
                    fs.append(eval("lambda d: (%s, %s)" % (
                        " and ".join(cond) or "True",
                        cterm.expr(o.ret, names)), dict(cterm.ENV)))
            except cterm.Opaque as e:
                ctx.count("constraints without a closed form")
                continue
            ctx.count("constraints")
            for x in list(range(-40, 41)) + [
                    s * (v + e) for s in (1, -1) for v in (
                        t, t << 1, t << 2, t << 3, 255, 1023, 4095)
                    for e in (-1, 0, 1)]:
                hit = [v for k, v in (g(x) for g in fs) if k]
                if len(hit) == 1 and hit[0] != constrain(x, t, damping):
                    ctx.violate("constrain", "a difference of %d under "
                                "threshold %d, damping %d gives %d, AV1's is "
                                "%d" % (x, t, damping, hit[0],
                                        constrain(x, t, damping)), f.loc())
                    break



# ------------------------------------------------------------- directions
def costs(a, s):
    """AV1's eight direction costs of an 8x8 block."""
    part = [[0] * 15 for _ in range(8)]
    for i in range(8):
        for j in range(8):
            x = (a[(j, i)] >> s) - 128
            for d, k in enumerate((i + j, i + j // 2, i, 3 + i - j // 2,
                                   7 + i - j, 3 - i // 2 + j, j,
                                   i // 2 + j)):
                part[d][k] += x
    div = [0, 840, 420, 280, 210, 168, 140, 120, 105]
    cost = [0] * 8
    for d in (2, 6):
        cost[d] = sum(v * v for v in part[d][:8]) * 105
    for d in (0, 4):
        cost[d] = sum((part[d][i] ** 2 + part[d][14 - i] ** 2) * div[i + 1]
                      for i in range(7)) + part[d][7] ** 2 * 105
    for d in (1, 3, 5, 7):
        cost[d] = sum(part[d][3 + j] ** 2 for j in range(5)) * 105 + sum(
            (part[d][j] ** 2 + part[d][10 - j] ** 2) * div[2 * j + 2]
            for j in range(3))
    return cost


def run_direction(ctx):
    c = ctx.lib
    f = fnamed(ctx, "cdef::rust::cdef_find_dir")
    px = {(x, y): sym("s_%d_%d" % (x, y)) for x in range(8)
          for y in range(8)}
    for bd in (8, 10, 12):
        s = bd - 8

        def hook(ae, st, n, rn, rec, x, site, line):
            m = last(norm(rn or n))
            if m == "first_max_element":
                v = deref_k(st, x[0])
                if v.k != "agg":
                    return None
                res = []
                for d, e in enumerate(v.a[4]):
                    s1 = st.copy()
                    s1.auto = (d, v.a[4])
                    res.append((s1, tup(K(d), e)))
                return res
            if m == "index" and len(x) == 2 and isk(x[1]):
                v = deref_k(st, x[0])
                if v.k == "agg" and v.a[0] == "region":
                    return [(st, mk("ref", ("T", "img"), (("i", x[1]),), 1))]
            if m in ("as_", "cast_from") and len(x) == 1:
                return [(st, deref_k(st, x[0]))]
            return stepping(st, m, x)
        ae = _ae.AE(c, policy(hook))
        a = {"img": mk("ref", ("T", "reg"), (), 0),
             "var": mk("ref", ("T", "var"), (), 1), "coeff_shift": K(s)}
        st = ae.start(f, [a.get(p, sym(p)) for p in params(f)], auto=())
        st.store[("T", "reg")] = agg("region", "region", None, (".r",),
                                     (K(0),))
        st.store[("T", "img")] = arr([arr([px[(x, y)] for x in range(8)])
                                      for y in range(8)])
        for v in px.values():
            st.facts[v] = ("i", 0, (256 << s) - 1, frozenset())
        outs = [o for o in ae.run(st) if o.kind == "ret" and o.st.auto]
        ctx.saw(f, *ae.fns_seen)
        ctx.obls += 1
        names = {v: "a[%d,%d]" % k for k, v in px.items()}
        try:
            env = dict(cterm.ENV)
            got = {}
            for o in outs:
                d, cs = o.st.auto
                got[d] = (o, [eval("lambda a: " + cterm.expr(v, names), env)
                              for v in cs], eval(
                    "lambda a: " + cterm.expr(o.st.store[("T", "var")],
                                              names), env))
            if set(got) != set(range(8)) or len(outs) != 8:
                raise cterm.Opaque("directions")
        except cterm.Opaque as e:
            ctx.sample("directions: %s" % e)
            ctx.count("direction searches without a closed form")
            continue
        rnd = random.Random(bd)
        top = (256 << s) - 1
        for i in range(40):
            k = rnd.choice([(1, 1), (1, 0), (0, 1), (1, -1), (2, 1), (1, 2),
                            (2, -1), (1, -2)])
            amp = rnd.choice([2, 20, top])
            a = {}
            for x in range(8):
                for y in range(8):
                    v = (x * k[0] + y * k[1]) * amp // 4 if i % 3 else \
                        rnd.randint(0, amp)
                    a[(x, y)] = v % (top + 1) if i % 2 else min(
                        max(v + top // 3, 0), top)
            want = costs(a, s)
            d = want.index(max(want))
            o, cs, var = got[d]
            ctx.count("directions compared", 8)
            have = [g(a) for g in cs]
            v = (want[d] - want[(d + 4) & 7]) >> 10
            if have != want or var(a) != v or o.ret is not K(d):
                ctx.violate("direction", "the direction of a block: costs %s "
                            "and variance %s, direction %s; AV1's are %s, %d,"
                            " %d" % (have, var(a), show(o.ret), want, v, d),
                            f.loc())
                break


# ------------------------------------------------------ a tile and a frame
def sb_of(v):
    try:
        i = v.a[4][0]
        d = dict(zip(i.a[3], i.a[4]))
        return d[".x"].a[0], d[".y"].a[0]
    except (IndexError, KeyError, AttributeError, TypeError):
        return None


def run_tile(ctx):
    """Every superblock of a frame is filtered once with its own index."""
    c = ctx.lib
    f = fnamed(ctx, "cdef::cdef_filter_tile")
    for W, H in ((8, 8), (64, 64), (72, 40), (136, 200), (64, 136)):
        def hook(ae, st, n, rn, rec, x, site, line):
            m = last(norm(rn or n))
            if m == "get_cdef":
                b = sb_of(x[1])
                return [(st, sym("index_%s_%s" % b))] if b else None
            if m == "cdef_analyze_superblock":
                b = next((sb_of(v) for v in x if sb_of(v)), None)
                return [(st, sym("dirs_%s_%s" % b))] if b else None
            if m == "cdef_filter_superblock":
                st.auto = st.auto + (tuple(
                    deref_k(st, v) if v.k == "ref" and v.a[0][0] != "X" and
                    v.a[0] not in (("T", "frame"), ("T", "tile")) else v
                    for v in x),)
                return [(st, UNIT)]
            if m in ("div_ceil",) and len(x) == 2 and all(
                    isk(v) for v in x):
                return [(st, K(-(-x[0].a[0] // x[1].a[0])))]
            return None
        ae = _ae.AE(c, policy(hook))
        a = {"output": mk("ref", ("T", "tile"), (), 1),
             "input": mk("ref", ("T", "frame"), (), 0)}
        st = ae.start(f, [a.get(p, sym(p)) for p in params(f)], auto=())
        rect = whole(c, "tiling::plane_region::Rect", {
            "x": K(0), "y": K(0), "width": K(W), "height": K(H)})
        st.store[("T", "tile")] = whole(c, "tiling::tile::TileMut", {
            "planes": arr([whole(c, "tiling::plane_region::PlaneRegionMut", {
                "rect": rect}) for p in range(3)])})
        outs = [o for o in ae.run(st) if o.kind == "ret"]
        ctx.saw(f, *ae.fns_seen)
        ctx.obls += 1
        if len(outs) != 1:
            ctx.count("CDEF tiles with more than one outcome")
            continue
        ctx.count("CDEF tiles")
        got = {}
        for e in outs[0].st.auto:
            b = next((sb_of(v) for v in e if sb_of(v)), None)
            got.setdefault(b, []).append(e)
        want = {(x, y) for x in range(-(-W // 64))
                for y in range(-(-H // 64))}
        if None in got:
            ctx.count("CDEF tiles whose blocks are not known")
            continue
        if set(got) != want or any(len(v) > 1 for v in got.values()):
            ctx.violate("superblocks", "a frame of %dx%d: superblocks %s are "
                        "filtered, AV1 filters each of %s once" % (
                            W, H, sorted((k, len(v))
                                         for k, v in got.items()),
                            sorted(want)), f.loc())
            continue
        for b, (e,) in got.items():
            for kind in ("index", "dirs"):
                t = [v for v in e if v.k == "sym" and
                     show(v).startswith(kind + "_")]
                if t and t[0] is not sym("%s_%s_%s" % ((kind,) + b)):
                    ctx.violate("superblock-" + kind, "superblock %s of a "
                                "frame of %dx%d is filtered with %s" % (
                                    b, W, H, show(t[0])), f.loc())


def run_analyze(ctx):
    """The direction of each 8x8 block with a coded block, from its luma."""
    c = ctx.lib
    f = fnamed(ctx, "cdef::cdef_analyze_superblock")
    for seed in range(12):
        rnd = random.Random(seed)
        W, H = rnd.choice([(8, 8), (16, 24), (72, 16), (24, 72), (80, 80)])
        sb = rnd.choice([(x, y) for x in range((W + 63) // 64)
                         for y in range((H + 63) // 64)])
        cols, rows = W // 4, H // 4
        skip = {(x, y): int(rnd.random() < .8) for x in range(cols)
                for y in range(rows)}
        bd = rnd.choice([8, 10, 12])

        def hook(ae, st, n, rn, rec, x, site, line):
            q = norm(rec.get("rp") or rec["p"])
            m = last(norm(rn or n))
            if m == "cdef_find_dir" and len(x) == 4:
                v = deref_k(st, x[0])
                if v.k != "agg" or v.a[0] != "region" or x[1].k != "ref":
                    return None
                px, py = v.a[4][0].a[0], v.a[4][1].a[0]
                st.put((x[1].a[0], x[1].a[1]), K(7 * px + 1000 * py + 3))
                ok = plane_ok and isk(x[2]) and x[2].a[0] == bd - 8
                st.auto = st.auto + ((px, py, bool(ok)),)
                return [(st, K((px // 8 + 3 * (py // 8)) % 8))]
            if m == "slice" and len(x) == 2:
                p, at = plane_no(x[0]), xy(st, x[1])
                if p is None or at is None:
                    return None
                return [(st, agg("region", "in", None, (".x", ".y", ".p"), (
                    K(at[0]), K(at[1]), K(p))))]
            if m == "reslice" and len(x) == 3 and all(
                    isk(v) for v in x[1:]):
                v = deref_k(st, x[0])
                if v.k == "agg" and v.a[0] == "region":
                    z = v.a[4]
                    return [(st, agg("region", "in", None, v.a[3], (
                        K(z[0].a[0] + x[1].a[0]), K(z[1].a[0] + x[2].a[0]),
                        z[2])))]
            if m in ("cols", "rows") and "TileBlocks" in q:
                return [(st, K(cols if m == "cols" else rows))]
            if m in ("index", "index_mut") and "TileBlocks" in q:
                bo = bo_xy(x[1])
                if bo is None or bo not in skip:
                    return None
                return [(st, mk("ref", ("C", whole(
                    c, "context::block_unit::Block", {
                        "skip": K(skip[bo])})), (), 0))]
            return None
        plane_ok = True
        ae = _ae.AE(c, policy(hook))
        tso, so = c.adt("TileSuperBlockOffset"), c.adt("SuperBlockOffset")
        a = {"in_frame": mk("ref", ("T", "frame"), (), 0),
             "sbo": agg("adt", tso["adt"], None, (".0",), (
                 agg("adt", so["adt"], None, (".x", ".y"), (
                     K(sb[0]), K(sb[1]))),))}
        st = ae.start(f, [a.get(p, sym(p)) for p in params(f)], auto=())
        cfg = [whole(c, "v_frame::plane::PlaneConfig", {
            "xdec": K(int(p > 0)), "ydec": K(int(p > 0)),
            "width": K(W), "height": K(H), "stride": K(256)})
            for p in range(3)]
        st.store[("T", "frame")] = whole(c, "v_frame::frame::Frame", {
            "planes": arr([whole(c, "v_frame::plane::Plane", {"cfg": x})
                           for x in cfg])})
        st.put(place("fi", "sequence*.bit_depth"), K(bd))
        outs = [o for o in ae.run(st) if o.kind == "ret"]
        ctx.saw(f, *ae.fns_seen)
        ctx.obls += 1
        if len(outs) != 1 or outs[0].ret.k != "agg":
            ctx.count("direction maps with more than one outcome")
            continue
        r = dict(zip(outs[0].ret.a[3], outs[0].ret.a[4]))
        for by in range(8):
            for bx in range(8):
                X, Y = sb[0] * 64 + bx * 8, sb[1] * 64 + by * 8
                if X >= W or Y >= H or all(
                        skip[(X // 4 + i, Y // 4 + j)] for i in (0, 1)
                        for j in (0, 1)):
                    continue
                want = ((X // 8 + 3 * (Y // 8)) % 8, 7 * X + 1000 * Y + 3)
                try:
                    have = tuple(number(r[k].a[4][bx].a[4][by])
                                 for k in (".dir", ".var"))
                except (KeyError, IndexError, AttributeError):
                    have = (None,)
                if None in have:
                    ctx.count("directions not known")
                    continue
                ctx.count("directions of blocks")
                if have != want:
                    ctx.violate("direction-map", "the 8x8 block at (%d, %d) "
                                "of a frame of %dx%d has direction %d and "
                                "variance %d; those of its own luma samples "
                                "are %d and %d" % ((X, Y, W, H) + have +
                                                   want), f.loc())
        if not all(e[2] for e in outs[0].st.auto):
            ctx.violate("direction-depth", "directions are searched with "
                        "another shift than the bit depth %d asks for" % bd,
                        f.loc())


def run_frame(ctx):
    """Which filters a frame gets, in which order, on which samples."""
    c = ctx.lib
    f = fnamed(ctx, "encoder::encode_tile_group")
    FILTERS = ("deblock_filter_frame", "cdef_filter_tile",
               "lrf_filter_frame")
    for lv in ((0, 0, 0, 0), (5, 0, 0, 0), (0, 5, 0, 0), (7, 9, 3, 0),
               (63, 1, 0, 2)):
        for cdef in (0, 1):
            for lrf in (0, 1):
                frame_case(ctx, c, f, lv, cdef, lrf, FILTERS)


def frame_case(ctx, c, f, lv, cdef, lrf, filters):
    def hook(ae, st, n, rn, rec, x, site, line):
        m = last(norm(rn or n))
        if m in ("reset_counts", "build_raw_tile_group", "as_const",
                 "as_tile", "as_tile_blocks", "tile_iter_mut",
                 "get_initial_cdfcontext", "into_par_iter", "unzip",
                 "max_by_key", "from_elem", "ilog", "add_assign"):
            return [(st, sym("opaque_" + m))]
        if m == "new" and "TileStateMut" in norm(rn or n) and \
                x[0].k == "ref":
            r = x[0]
            return [(st, whole(c, "tiling::tile_state::TileStateMut", {
                "deblock": mk("ref", r.a[0], r.a[1] + (".deblock",), 0)}))]
        if m == "deblock_filter_optimize":
            return [(st, arr([K(v) for v in lv]))]
        if m in filters:
            d = tuple(deref_k(st, v) for v in x)
            st.auto = st.auto + ((m, d, tuple(x)),)
            return [(st, UNIT)]
        if m == "clone" and len(x) == 1 and show(x[0]) == "&fs.rec":
            return [(st, sym("copy_after_%d" % len(st.auto)))]
        return None
    pol = policy(hook, 60000)
    pol.count_unroll, pol.max_unroll = 2, 4
    ae = _ae.AE(c, pol)
    st = ae.start(f, [sym(p) for p in params(f)], auto=())
    for k, v in (("sequence*.enable_cdef", cdef),
                 ("sequence*.enable_restoration", lrf),
                 ("sequence*.bit_depth", 10)):
        st.put(place("fi", k), K(v))
    outs = [o for o in ae.run(st) if o.kind == "ret"]
    ctx.saw(f, *ae.fns_seen)
    ctx.obls += 1
    want = ["deblock_filter_frame"] * bool(lv[0] or lv[1]) + \
        ["cdef_filter_tile"] * cdef + ["lrf_filter_frame"] * lrf
    ctx.count("filter orders", len(outs))

    def bad(k, m):
        ctx.violate(k, "levels %s, CDEF %s, restoration %s: %s" % (
            lv, "on" if cdef else "off", "on" if lrf else "off", m), f.loc())
    for o in outs:
        got = [e[0] for e in o.st.auto]
        if got != want:
            bad("order", "the frame is filtered by %s, AV1's decoder uses %s"
                % (got, want))
            continue
        nb = int(bool(lv[0] or lv[1]))
        for m, d, x in o.st.auto:
            copies = [show(v) for v in d if show(v).startswith("copy_after")]
            if m == "deblock_filter_frame":
                lvl = next((v for v in d if v.k == "agg" and v.a[0] == "array"
                            and len(v.a[4]) == 4), None)
                stl = o.st.load((place("fs", "deblock.levels")))
                nums = tuple(z.a[0] if isk(z) else None for z in stl.a[4]) \
                    if stl.k == "agg" else None
                if nums is not None and None not in nums and nums != lv:
                    bad("levels", "the levels coded are %s" % (nums,))
            elif copies and copies != ["copy_after_%d" % nb]:
                bad("copy", "%s takes its unfiltered samples from a copy made "
                    "after %s filters, AV1's from the deblocked frame" % (
                        m, copies[0][11:]))
            elif not copies:
                ctx.count("filter inputs not known")
